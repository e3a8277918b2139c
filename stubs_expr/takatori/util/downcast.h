#pragma once
#include <type_traits>
namespace takatori::util {
template <class T, class U> T* downcast(U* p) { return dynamic_cast<T*>(p); } template <class T, class U> T& downcast(U& p) { return dynamic_cast<T&>(p); }
template <class T, class U> auto unsafe_downcast(U* p) { if constexpr (std::is_pointer_v<T>) return static_cast<T>(p); else return static_cast<T*>(p); } template <class T, class U> std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>, std::conditional_t<std::is_const_v<std::remove_reference_t<U>>, T const, T>&> unsafe_downcast(U&& p) { return static_cast<std::conditional_t<std::is_const_v<std::remove_reference_t<U>>, T const, T>&>(p); }
}

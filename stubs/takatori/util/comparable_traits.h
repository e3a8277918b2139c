#pragma once
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class A, class B, class = void> struct is_equal_comparable : std::false_type {};
template <class A, class B> struct is_equal_comparable<A, B, std::void_t<decltype(std::declval<A>() == std::declval<B>())>> : std::is_convertible<decltype(std::declval<A>() == std::declval<B>()), bool> {};
template <class A, class B = A> inline constexpr bool is_equal_comparable_v = is_equal_comparable<A, B>::value;
}

#pragma once
#include <type_traits>
namespace takatori::util { template <class T, class U> struct infect_qualifier { using type = std::conditional_t<std::is_const_v<std::remove_reference_t<T>>, U const, U>; }; template <class T, class U> using infect_qualifier_t = typename infect_qualifier<T, U>::type; }

#pragma once
#include <ostream>
namespace takatori::util { template <class T> struct print_support_t { T const* p; friend std::ostream& operator<<(std::ostream& o, print_support_t const&) { return o << "?"; } }; template <class T> print_support_t<T> print_support(T const& v) { return {&v}; } }

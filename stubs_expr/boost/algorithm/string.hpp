// stand-in: case-insensitive comparison of ASCII texts
#pragma once
#include <cstddef>
namespace boost { template <class A, class B> bool iequals(A const& a, B const& b) { std::string_view x(a), y(b); if (x.size() != y.size()) return false; for (std::size_t i = 0; i < x.size(); i++) { auto l = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }; if (l(x[i]) != l(y[i])) return false; } return true; } }

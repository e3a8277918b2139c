// stand-in: a variable is a number
#pragma once
#include <cstddef>
#include <functional>
#include <iostream>
#include <iostream>
namespace takatori::descriptor { struct variable { int id{}; using reference_type = int; reference_type reference() const { return id; } friend bool operator==(variable a, variable b) { return a.id == b.id; } friend bool operator!=(variable a, variable b) { return a.id != b.id; } friend std::ostream& operator<<(std::ostream& o, variable v) { return o << v.id; } }; }
namespace std { template <> struct hash<takatori::descriptor::variable> { size_t operator()(takatori::descriptor::variable v) const noexcept { return (size_t)v.id; } }; }

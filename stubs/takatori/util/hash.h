#pragma once
#include <cstddef>
#include <functional>
namespace takatori::util { template <class T> std::size_t hash_of(T const& v) { return std::hash<T>{}(v); } }

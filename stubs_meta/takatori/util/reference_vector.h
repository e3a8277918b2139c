#pragma once
#include <list>
#include <utility>
namespace takatori::util { template <class T> struct reference_vector { std::list<T> l; template <class... A> T& emplace_back(A&&... a) { l.emplace_back(std::forward<A>(a)...); return l.back(); } auto begin() const { return l.begin(); } auto end() const { return l.end(); } std::size_t size() const { return l.size(); } }; }

#pragma once
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/util/reference_iterator.h>
namespace takatori::relation { struct values { struct element_list { std::vector<scalar::expression const*> e; bool operator==(element_list const&) const = delete; struct iter { scalar::expression const* const* p; scalar::expression const& operator*() const { return **p; } iter& operator++() { ++p; return *this; } bool operator!=(iter o) const { return p != o.p; } }; struct list { iter b, f; size_t n; iter begin() const { return b; } iter end() const { return f; } size_t size() const { return n; } }; list elements() const { return {{e.data()}, {e.data() + e.size()}, e.size()}; } }; std::vector<descriptor::variable> c; std::vector<element_list> r; std::vector<descriptor::variable> const& columns() const { return c; } std::vector<element_list> const& rows() const { return r; } }; }

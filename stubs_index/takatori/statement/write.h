#pragma once
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
namespace takatori::statement { struct write { using column = descriptor::variable; struct tuple { struct list { std::vector<scalar::expression const*> e; scalar::expression const& operator[](std::size_t i) const { return *e[i]; } std::size_t size() const { return e.size(); } } l; list const& elements() const { return l; } }; std::vector<descriptor::variable> c; std::vector<tuple> t; std::vector<descriptor::variable> const& columns() const { return c; } std::vector<tuple> const& tuples() const { return t; } }; }

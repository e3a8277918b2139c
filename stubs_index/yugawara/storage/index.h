#pragma once
#include "column.h"
namespace yugawara::storage { struct table;
struct index { struct key { column const* c; takatori::relation::sort_direction d; storage::column const& column() const { return *c; } takatori::relation::sort_direction direction() const { return d; } friend bool operator==(key const& a, key const& b) { return a.c == b.c && a.d == b.d; } };
    std::string name; storage::table const* t; std::vector<key> k; std::vector<std::reference_wrapper<storage::column const>> v;
    std::string_view simple_name() const { return name; } storage::table const& table() const { return *t; } std::vector<key> const& keys() const { return k; } std::vector<std::reference_wrapper<storage::column const>> const& values() const { return v; }
    friend bool operator==(index const& a, index const& b) { return &a == &b; } };
struct provider; }
#include "table.h"

// stand-in for the schema model: columns, indexes and tables as jogasaki's index code reads them
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <functional>
#include <vector>
#include <takatori/type/data.h>
#include <takatori/relation/sort_direction.h>
#include <yugawara/variable/criteria.h>
#include <yugawara/storage/column_value.h>
namespace yugawara::storage { enum class column_feature { synthesized, hidden, read_only };
struct column_features { bool read_only{}; bool contains(column_feature f) const { return f == column_feature::read_only && read_only; } };
struct column { int id; std::string name; takatori::type::data const* t; variable::criteria c; column_features f; column_value dv{}; column_value const& default_value() const { return dv; }
    std::string_view simple_name() const { return name; } takatori::type::data const& type() const { return *t; } variable::criteria const& criteria() const { return c; } column_features const& features() const { return f; }
    friend bool operator==(column const& a, column const& b) { return &a == &b; } }; }

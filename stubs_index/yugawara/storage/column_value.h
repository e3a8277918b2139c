// stand-in: the default value of a column
#pragma once
#include <memory>
#include <takatori/value/data.h>
#include <yugawara/storage/column_value_kind.h>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage { struct default_function { std::size_t d; std::size_t definition_id() const { return d; } };
struct column_value { column_value_kind k{}; std::shared_ptr<takatori::value::data const> i; std::shared_ptr<sequence const> s; std::shared_ptr<default_function const> f; column_value_kind kind() const { return k; } template <column_value_kind K> auto const& element() const { if constexpr (K == column_value_kind::immediate) return i; else if constexpr (K == column_value_kind::sequence) return s; else return f; } }; }

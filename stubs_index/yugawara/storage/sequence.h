#pragma once
#include <cstddef>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
namespace yugawara::storage { class sequence { public: using definition_id_type = std::size_t; std::optional<definition_id_type> d; std::string n; std::int64_t i{}, s{}, lo{}, hi{}; bool c{};
    std::optional<definition_id_type> definition_id() const { return d; } std::string_view simple_name() const { return n; } std::int64_t initial_value() const { return i; } std::int64_t increment_value() const { return s; } std::int64_t min_value() const { return lo; } std::int64_t max_value() const { return hi; } bool cycle() const { return c; } }; }

// stand-in: numbers are drawn as the harness tells
#pragma once
#include <optional>
#include <string>
#include <jogasaki/common_types.h>
#include <jogasaki/kvs/transaction.h>
namespace jogasaki::executor::sequence { enum class sequence_error { out_of_upper_bound, out_of_lower_bound }; struct sequence_info { std::string n; std::string_view name() const { return n; } };
struct drawn { std::optional<sequence_value> v; sequence_error e{}; explicit operator bool() const { return v.has_value(); } sequence_value value() const { return *v; } sequence_error error() const { return e; } };
struct sequence { sequence_info i; sequence_value cur{}; int left = 1000; int draws = 0; drawn next(kvs::transaction&) { ++draws; if (left-- <= 0) return {{}, sequence_error::out_of_upper_bound}; return {cur++}; } sequence_info const& info() const { return i; } }; }

#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <takatori/decimal/triple.h>
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
#include <takatori/datetime/time_point.h>
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, date, time_of_day, time_point };
struct data { value_kind k{}; value_kind kind() const { return k; } };
template <class T, value_kind K> struct simple : data { T v; explicit simple(T x) : data{K}, v(x) {} T get() const { return v; } };
template <value_kind K> struct text : data { std::string v; explicit text(std::string x) : data{K}, v(std::move(x)) {} std::string_view get() const { return v; } };
using boolean = simple<bool, value_kind::boolean>; using int4 = simple<std::int32_t, value_kind::int4>; using int8 = simple<std::int64_t, value_kind::int8>; using float4 = simple<float, value_kind::float4>; using float8 = simple<double, value_kind::float8>; using decimal = simple<takatori::decimal::triple, value_kind::decimal>; using character = text<value_kind::character>; using octet = text<value_kind::octet>; using date = simple<datetime::date, value_kind::date>; using time_of_day = simple<datetime::time_of_day, value_kind::time_of_day>; using time_point = simple<datetime::time_point, value_kind::time_point>; using unknown = simple<int, value_kind::unknown>;
}

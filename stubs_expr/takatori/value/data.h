// stand-in of the immediate values
#pragma once
#include <cstdint>
#include <string_view>
#include <variant>
#include <takatori/decimal/triple.h>
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
#include <takatori/datetime/time_point.h>
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, date, time_of_day, time_point };
struct data { std::variant<std::monostate, bool, std::int32_t, std::int64_t, float, double, takatori::decimal::triple, std::string_view, datetime::date, datetime::time_of_day, datetime::time_point> v; bool octet{}; value_kind kind() const { static const value_kind K[] = {value_kind::unknown, value_kind::boolean, value_kind::int4, value_kind::int8, value_kind::float4, value_kind::float8, value_kind::decimal, value_kind::character, value_kind::date, value_kind::time_of_day, value_kind::time_point}; return octet ? value_kind::octet : K[v.index()]; } };
template <class T, int N = 0> struct simple : data { using view_type = T; using entity_type = T; T get() const { return std::get<T>(v); } };
using boolean = simple<bool>; using int4 = simple<std::int32_t>; using int8 = simple<std::int64_t>; using float4 = simple<float>; using float8 = simple<double>; using decimal = simple<takatori::decimal::triple>; using character = simple<std::string_view>; using octet = simple<std::string_view, 1>; using date = simple<datetime::date>; using time_of_day = simple<datetime::time_of_day>; using time_point = simple<datetime::time_point>;
}
// the longest prefix of at most n bytes that does not end inside a character (UTF-8)
namespace takatori::value { inline std::string_view truncate_utf8(std::string_view s, std::size_t n) { if (s.size() <= n) return s; while (n > 0 && (static_cast<unsigned char>(s[n]) & 0xc0U) == 0x80U) --n; return s.substr(0, n); } }

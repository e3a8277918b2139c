// stand-in for the takatori type model: a type is its kind and the flags the declarations name
#pragma once
#include <cstddef>
#include <optional>
#include <ostream>
namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, row_reference, row_id, declared, extension, blob, clob, xml, table, lob };
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << static_cast<int>(k); }
struct varying_t { explicit varying_t() = default; }; inline constexpr varying_t varying{}; struct with_time_zone_t { explicit with_time_zone_t() = default; }; inline constexpr with_time_zone_t with_time_zone{};
struct data { type_kind k{type_kind::unknown}; bool flag{}; type_kind kind() const { return k; } friend bool operator==(data const& a, data const& b) { return a.k == b.k && a.flag == b.flag; } friend bool operator!=(data const& a, data const& b) { return !(a == b); } };
struct boolean : data { boolean() : data{type_kind::boolean} {} }; struct int1 : data { int1() : data{type_kind::int1} {} }; struct int2 : data { int2() : data{type_kind::int2} {} }; struct int4 : data { int4() : data{type_kind::int4} {} }; struct int8 : data { int8() : data{type_kind::int8} {} }; struct float4 : data { float4() : data{type_kind::float4} {} }; struct float8 : data { float8() : data{type_kind::float8} {} };
struct decimal : data { std::optional<std::size_t> p, s; explicit decimal(std::optional<std::size_t> precision = {}, std::optional<std::size_t> scale = {}) : data{type_kind::decimal}, p(precision), s(scale) {} std::optional<std::size_t> precision() const { return p; } std::optional<std::size_t> scale() const { return s; } };
struct character : data { std::optional<std::size_t> n; explicit character(varying_t, std::optional<std::size_t> length = {}) : data{type_kind::character, true}, n(length) {} bool varying() const { return flag; } std::optional<std::size_t> length() const { return n; } }; struct octet : data { std::optional<std::size_t> n; explicit octet(varying_t, std::optional<std::size_t> length = {}) : data{type_kind::octet, true}, n(length) {} bool varying() const { return flag; } std::optional<std::size_t> length() const { return n; } };
struct date : data { date() : data{type_kind::date} {} }; struct time_of_day : data { time_of_day() : data{type_kind::time_of_day} {} explicit time_of_day(with_time_zone_t) : data{type_kind::time_of_day, true} {} bool with_time_zone() const { return flag; } }; struct time_point : data { time_point() : data{type_kind::time_point} {} explicit time_point(with_time_zone_t) : data{type_kind::time_point, true} {} bool with_time_zone() const { return flag; } };
struct blob : data { blob() : data{type_kind::blob} {} }; struct clob : data { clob() : data{type_kind::clob} {} }; struct unknown : data { unknown() : data{type_kind::unknown} {} };
}

#pragma once
#include <cstddef>
#include <optional>
#include <ostream>
namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, row_reference, row_id, declared, extension, blob, clob, xml, table, lob };
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << static_cast<int>(k); }
struct varying_t { bool v{true}; constexpr varying_t operator~() const { return {!v}; } }; inline constexpr varying_t varying{}; struct with_time_zone_t { bool v{true}; constexpr with_time_zone_t operator~() const { return {!v}; } }; inline constexpr with_time_zone_t with_time_zone{};
using osize = std::optional<std::size_t>;
struct data { type_kind k{type_kind::unknown}; bool flag{}; osize a{}, b{}; type_kind kind() const { return k; } };
#define T_(n) struct n : data { n() : data{type_kind::n} {} };
T_(boolean) T_(int1) T_(int2) T_(int4) T_(int8) T_(float4) T_(float8) T_(date) T_(blob) T_(clob) T_(unknown)
#undef T_
struct decimal : data { explicit decimal(osize p = {}, osize s = {}) : data{type_kind::decimal, false, p, s} {} osize precision() const { return a; } osize scale() const { return b; } };
struct character : data { explicit character(varying_t v, osize n = {}) : data{type_kind::character, v.v, n} {} bool varying() const { return flag; } osize length() const { return a; } };
struct octet : data { explicit octet(varying_t v, osize n = {}) : data{type_kind::octet, v.v, n} {} bool varying() const { return flag; } osize length() const { return a; } };
struct time_of_day : data { explicit time_of_day(with_time_zone_t z = {false}) : data{type_kind::time_of_day, z.v} {} bool with_time_zone() const { return flag; } };
struct time_point : data { explicit time_point(with_time_zone_t z = {false}) : data{type_kind::time_point, z.v} {} bool with_time_zone() const { return flag; } };
}

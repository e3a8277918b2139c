// stand-in: the text parsers are replaced by results prepared by the harness
#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
namespace takatori::datetime {
struct zone_offset_info { bool plus{true}; std::uint32_t hour{}, minute{}; };
struct date_info { std::uint32_t year{}, month{}, day{}; };
struct time_info { std::uint32_t hour{}, minute{}, second{}; std::chrono::nanoseconds subsecond{}; };
struct datetime_info { date_info date; time_info time; std::optional<zone_offset_info> offset; };
template <class T> class conversion_result { bool ok_; T v_{}; std::string e_; public: using value_type = T; conversion_result(T v) : ok_(true), v_(v) {} conversion_result(std::string e) : ok_(false), e_(std::move(e)) {} bool is_error() const { return !ok_; } bool has_value() const { return ok_; } explicit operator bool() const { return ok_; } T const& value() const { return v_; } std::string const& error() const { return e_; } };
inline conversion_result<datetime_info> (*parser)(std::string_view, int) = nullptr;
inline conversion_result<date_info> parse_date(std::string_view s) { auto r = parser(s, 0); return r ? conversion_result<date_info>(r.value().date) : conversion_result<date_info>(r.error()); }
inline conversion_result<time_info> parse_time(std::string_view s) { auto r = parser(s, 1); return r ? conversion_result<time_info>(r.value().time) : conversion_result<time_info>(r.error()); }
inline conversion_result<datetime_info> parse_datetime(std::string_view s) { return parser(s, 2); }
}

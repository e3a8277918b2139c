#pragma once
// stand-in: the text parser is replaced by a result prepared by the harness
#include <cstdint>
#include <string>
#include <string_view>
#include <variant>
namespace takatori::datetime {
struct zone_offset_info { bool plus{true}; std::uint32_t hour{}, minute{}; };
template <class T> class conversion_result { bool ok_; T v_{}; std::string e_; public: using value_type = T; conversion_result(T v) : ok_(true), v_(v) {} conversion_result(std::string e) : ok_(false), e_(std::move(e)) {} bool is_error() const { return !ok_; } bool has_value() const { return ok_; } explicit operator bool() const { return ok_; } T const& value() const { return v_; } std::string const& error() const { return e_; } T const& operator*() const { return v_; } T const* operator->() const { return &v_; } };
inline conversion_result<zone_offset_info> (*zone_parser)(std::string_view) = nullptr;
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view s) { return zone_parser(s); }
}

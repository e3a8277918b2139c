#pragma once
#include <cstdint>
#include <chrono>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class date_interval { std::int32_t y_{}, m_{}, d_{}; public: constexpr date_interval() = default; constexpr date_interval(std::int32_t y, std::int32_t m, std::int32_t d) : y_(y), m_(m), d_(d) {} constexpr std::int32_t year() const { return y_; } constexpr std::int32_t month() const { return m_; } constexpr std::int32_t day() const { return d_; } friend constexpr bool operator==(date_interval a, date_interval b) { return a.y_ == b.y_ && a.m_ == b.m_ && a.d_ == b.d_; } friend constexpr bool operator!=(date_interval a, date_interval b) { return !(a == b); } };
class time_interval { std::chrono::nanoseconds n_{}; public: using time_unit = std::chrono::nanoseconds; constexpr time_interval() = default; constexpr explicit time_interval(std::chrono::nanoseconds n) : n_(n) {} constexpr std::chrono::nanoseconds offset() const { return n_; } friend constexpr bool operator==(time_interval a, time_interval b) { return a.n_ == b.n_; } friend constexpr bool operator!=(time_interval a, time_interval b) { return a.n_ != b.n_; } };
class datetime_interval { date_interval d_{}; time_interval t_{}; public: constexpr datetime_interval() = default; constexpr datetime_interval(date_interval d, time_interval t) : d_(d), t_(t) {} constexpr date_interval const& date() const { return d_; } constexpr time_interval const& time() const { return t_; } friend constexpr bool operator==(datetime_interval a, datetime_interval b) { return a.d_ == b.d_ && a.t_ == b.t_; } friend constexpr bool operator!=(datetime_interval a, datetime_interval b) { return !(a == b); } friend std::ostream& operator<<(std::ostream& o, datetime_interval) { return o << "interval"; } };
}

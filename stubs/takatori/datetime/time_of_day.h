#pragma once
#include <cstdint>
#include <cstddef>
#include <chrono>
#include <functional>
#include <ostream>
namespace takatori::datetime {
// nanoseconds in a day; arithmetic wraps around at midnight
class time_of_day {
    std::uint64_t n_{}; __attribute__((noinline)) static constexpr std::uint64_t rem_(std::uint64_t v) { return v % 86400000000000ULL; }
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>; using difference_type = std::chrono::duration<std::int64_t, std::nano>; static constexpr std::uint64_t day_ns = 86400000000000ULL;
    constexpr time_of_day() = default; template <class R, class P> constexpr explicit time_of_day(std::chrono::duration<R, P> t) noexcept : n_(static_cast<std::uint64_t>(std::chrono::duration_cast<time_unit>(t).count())) { if (n_ >= day_ns) n_ = rem_(n_); }
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = time_unit{0}) noexcept : n_(((h * 60ULL + m) * 60ULL + s) * 1000000000ULL + sub.count()) {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return time_unit{n_}; }
    [[nodiscard]] constexpr std::uint32_t hour() const { return static_cast<std::uint32_t>(n_ / 3600000000000ULL); } [[nodiscard]] constexpr std::uint32_t minute() const { return static_cast<std::uint32_t>(n_ / 60000000000ULL % 60); } [[nodiscard]] constexpr std::uint32_t second() const { return static_cast<std::uint32_t>(n_ / 1000000000ULL % 60); } [[nodiscard]] constexpr time_unit subsecond() const { return time_unit{n_ % 1000000000ULL}; }
    template <class R, class P> constexpr time_of_day& operator+=(std::chrono::duration<R, P> o) { std::int64_t d = std::chrono::duration_cast<difference_type>(o).count(); if (d >= static_cast<std::int64_t>(day_ns)) d = static_cast<std::int64_t>(rem_(static_cast<std::uint64_t>(d))); if (d <= -static_cast<std::int64_t>(day_ns)) d = -static_cast<std::int64_t>(rem_(static_cast<std::uint64_t>(-d))); std::int64_t r = static_cast<std::int64_t>(n_) + d; if (r < 0) r += static_cast<std::int64_t>(day_ns); if (r >= static_cast<std::int64_t>(day_ns)) r -= static_cast<std::int64_t>(day_ns); n_ = static_cast<std::uint64_t>(r); return *this; }
    template <class R, class P> constexpr time_of_day& operator-=(std::chrono::duration<R, P> o) { return *this += -std::chrono::duration_cast<difference_type>(o); } template <class R, class P> friend constexpr time_of_day operator+(time_of_day a, std::chrono::duration<R, P> o) { return a += o; } template <class R, class P> friend constexpr time_of_day operator-(time_of_day a, std::chrono::duration<R, P> o) { return a -= o; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) { return a.n_ == b.n_; } friend constexpr bool operator!=(time_of_day a, time_of_day b) { return a.n_ != b.n_; } friend constexpr bool operator<(time_of_day a, time_of_day b) { return a.n_ < b.n_; } friend constexpr bool operator>(time_of_day a, time_of_day b) { return a.n_ > b.n_; } friend constexpr bool operator<=(time_of_day a, time_of_day b) { return a.n_ <= b.n_; } friend constexpr bool operator>=(time_of_day a, time_of_day b) { return a.n_ >= b.n_; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day v) { return o << "time_of_day(" << v.n_ << ")"; }
};
}
template <> struct std::hash<takatori::datetime::time_of_day> { std::size_t operator()(takatori::datetime::time_of_day const& v) const noexcept { return std::hash<std::uint64_t>{}(v.time_since_epoch().count()); } };

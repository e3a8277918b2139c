#pragma once
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
// seconds since the epoch and nanoseconds 0..999999999 after that second
class time_point {
    std::int64_t s_{}; std::uint32_t n_{};
public:
    using offset_type = std::chrono::duration<std::int64_t>; using difference_type = std::chrono::duration<std::int64_t, std::nano>; using subsecond_unit = std::chrono::duration<std::uint32_t, std::nano>; using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    constexpr time_point() = default; constexpr explicit time_point(offset_type s, std::chrono::nanoseconds sub = std::chrono::nanoseconds{0}) noexcept : s_(s.count()), n_(static_cast<std::uint32_t>(sub.count())) {}
    constexpr time_point(date d, time_of_day t) noexcept : s_(d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1000000000ULL)), n_(static_cast<std::uint32_t>(t.time_since_epoch().count() % 1000000000ULL)) {} constexpr explicit time_point(date d) noexcept : time_point(d, time_of_day{}) {}
    template <class D> explicit time_point(std::chrono::time_point<std::chrono::system_clock, D> t) noexcept { auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); s_ = n / 1000000000; auto r = n % 1000000000; if (r < 0) { r += 1000000000; --s_; } n_ = static_cast<std::uint32_t>(r); }
    static constexpr time_point min() { return time_point(offset_type{INT64_MIN}); } static constexpr time_point max() { return time_point(offset_type{INT64_MAX}, std::chrono::nanoseconds{999999999}); }
    [[nodiscard]] constexpr offset_type seconds_since_epoch() const noexcept { return offset_type{s_}; } [[nodiscard]] constexpr subsecond_unit subsecond() const noexcept { return subsecond_unit{n_}; }
    [[nodiscard]] constexpr class date date() const { std::int64_t d = s_ / 86400; if (s_ % 86400 < 0) --d; return ::takatori::datetime::date(d); } [[nodiscard]] constexpr time_of_day time() const { std::int64_t r = s_ % 86400; if (r < 0) r += 86400; return time_of_day(std::chrono::nanoseconds{r * 1000000000 + n_}); }
    template <class R, class P> constexpr time_point& operator+=(std::chrono::duration<R, P> o) { if constexpr (std::ratio_greater_equal_v<P, std::ratio<1>>) s_ += std::chrono::duration_cast<offset_type>(o).count(); else { std::int64_t d = std::chrono::duration_cast<difference_type>(o).count(); s_ += d / 1000000000; std::int64_t r = static_cast<std::int64_t>(n_) + d % 1000000000; if (r < 0) { r += 1000000000; --s_; } if (r >= 1000000000) { r -= 1000000000; ++s_; } n_ = static_cast<std::uint32_t>(r); } return *this; }
    template <class R, class P> constexpr time_point& operator-=(std::chrono::duration<R, P> o) { return *this += -o; } template <class R, class P> friend constexpr time_point operator+(time_point a, std::chrono::duration<R, P> o) { return a += o; } template <class R, class P> friend constexpr time_point operator-(time_point a, std::chrono::duration<R, P> o) { return a -= o; }
    friend constexpr bool operator==(time_point a, time_point b) { return a.s_ == b.s_ && a.n_ == b.n_; } friend constexpr bool operator!=(time_point a, time_point b) { return !(a == b); } friend constexpr bool operator<(time_point a, time_point b) { return a.s_ < b.s_ || (a.s_ == b.s_ && a.n_ < b.n_); } friend constexpr bool operator>(time_point a, time_point b) { return b < a; } friend constexpr bool operator<=(time_point a, time_point b) { return !(b < a); } friend constexpr bool operator>=(time_point a, time_point b) { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& o, time_point v) { return o << "time_point(" << v.s_ << "," << v.n_ << ")"; }
};
}
template <> struct std::hash<takatori::datetime::time_point> { std::size_t operator()(takatori::datetime::time_point const& v) const noexcept { return std::hash<std::int64_t>{}(v.seconds_since_epoch().count()) * 31 + v.subsecond().count(); } };

#pragma once
#include <cstdint>
#include <cstddef>
#include <chrono>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class date {
    std::int64_t d_{};
public:
    using difference_type = std::int64_t; constexpr date() = default; constexpr explicit date(difference_type days) noexcept : d_(days) {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept { std::int64_t yy = y - (m <= 2); std::int64_t era = (yy >= 0 ? yy : yy - 399) / 400; auto yoe = static_cast<std::uint64_t>(yy - era * 400); std::uint64_t doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; std::uint64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; d_ = era * 146097 + static_cast<std::int64_t>(doe) - 719468; }
    [[nodiscard]] constexpr difference_type days_since_epoch() const noexcept { return d_; }
    constexpr date& operator+=(difference_type o) { d_ += o; return *this; } constexpr date& operator-=(difference_type o) { d_ -= o; return *this; } friend constexpr date operator+(date a, difference_type o) { return a += o; } friend constexpr date operator-(date a, difference_type o) { return a -= o; } friend constexpr difference_type operator-(date a, date b) { return a.d_ - b.d_; }
    friend constexpr bool operator==(date a, date b) { return a.d_ == b.d_; } friend constexpr bool operator!=(date a, date b) { return a.d_ != b.d_; } friend constexpr bool operator<(date a, date b) { return a.d_ < b.d_; } friend constexpr bool operator>(date a, date b) { return a.d_ > b.d_; } friend constexpr bool operator<=(date a, date b) { return a.d_ <= b.d_; } friend constexpr bool operator>=(date a, date b) { return a.d_ >= b.d_; }
    friend std::ostream& operator<<(std::ostream& o, date v) { return o << "date(" << v.d_ << ")"; }
};
}
template <> struct std::hash<takatori::datetime::date> { std::size_t operator()(takatori::datetime::date const& v) const noexcept { return std::hash<std::int64_t>{}(v.days_since_epoch()); } };

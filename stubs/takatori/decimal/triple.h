#pragma once
// stand-in for takatori/decimal/triple.h: sign, 128-bit coefficient and exponent, compared member-wise
#include <cstdint>
#include <cstddef>
#include <functional>
#include <ostream>
#include <string>
namespace decimal { class Decimal; }
namespace takatori::decimal {
class triple {
    std::uint64_t h_{}, l_{}; std::int32_t s_{}, e_{};
public:
    static constexpr std::size_t max_decimal_digits = 38;
    constexpr triple() = default;
    constexpr triple(std::int32_t sign, std::uint64_t high, std::uint64_t low, std::int32_t exponent) noexcept : h_(high), l_(low), s_((high | low) == 0 ? 0 : (sign < 0 ? -1 : +1)), e_(exponent) {}
    constexpr triple(std::int64_t v, std::int32_t exponent = 0) noexcept : h_(0), l_(v < 0 ? ~static_cast<std::uint64_t>(v) + 1 : static_cast<std::uint64_t>(v)), s_(v == 0 ? 0 : v < 0 ? -1 : 1), e_(exponent) {}
    explicit triple(::decimal::Decimal const& d);
    [[nodiscard]] constexpr std::int32_t sign() const noexcept { return s_; } [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return h_; } [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return l_; } [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return e_; }
    friend constexpr bool operator==(triple const& a, triple const& b) noexcept { return a.s_ == b.s_ && a.h_ == b.h_ && a.l_ == b.l_ && a.e_ == b.e_; } friend constexpr bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple const& t) { return o << "triple(" << t.s_ << "," << t.h_ << "," << t.l_ << "," << t.e_ << ")"; }
};
inline std::string to_string(triple const&) { return "triple"; }
}
template <> struct std::hash<takatori::decimal::triple> { std::size_t operator()(takatori::decimal::triple const& t) const noexcept { return std::hash<std::uint64_t>{}(t.coefficient_high()) * 31 * 31 * 31 + std::hash<std::uint64_t>{}(t.coefficient_low()) * 31 * 31 + static_cast<std::size_t>(t.sign()) * 31 + static_cast<std::size_t>(t.exponent()); } };

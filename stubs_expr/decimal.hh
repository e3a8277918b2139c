// stand-in for libmpdec++'s decimal.hh, restricted to what expressions and casts use. Finite values are sign, coefficient below
// 2^64 and a concrete exponent, results that need more are outside this model; NaN and infinities are kinds of their own.
// Arithmetic between decimals is given by the harness (op).
#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <takatori/decimal/triple.h>
#include "sym.h"
#define MPD_IEEE_Invalid_operation 1U
#define MPD_Inexact 2U
#define MPD_Rounded 4U
#define MPD_Overflow 8U
#define MPD_Division_by_zero 16U
#define MPD_ROUND_DOWN 1
#define MPD_ROUND_HALF_UP 4
#define MPD_ROUND_HALF_EVEN 6
namespace decimal {
using u128_t = unsigned __int128; using i128_t = __int128;
class Context { std::uint32_t st{}; std::int32_t rnd{MPD_ROUND_HALF_EVEN}; std::int64_t emax_{}, emin_{}; public: std::uint32_t status() const { return st; } void add(std::uint32_t x) { st |= x; } void clear_status() { st = 0; } std::int32_t round() const { return rnd; } void round(std::int32_t r) { rnd = r; } std::string repr() const { return "context"; } std::int64_t emax() const { return emax_; } void emax(std::int64_t e) { emax_ = e; } std::int64_t emin() const { return emin_; } void emin(std::int64_t e) { emin_ = e; } void traps(std::uint32_t) {} void clamp(int) {} void prec(std::int64_t) {} };
inline Context IEEEContext(int) { return {}; }
inline Context context{};
struct stub_mpd { std::int64_t digits{}; };
inline u128_t stub_pow10(int k) { u128_t r = 1; for (int i = 0; i < k; i++) r *= 10; return r; }
class Decimal {
public:
    enum knd { fin, inf, nan } k_{fin}; int s_{}; std::uint64_t c_{}; std::int64_t e_{}; // s_: 1 negative
    static inline std::function<Decimal(char, Decimal const&, Decimal const&)> op; static inline std::function<Decimal(std::string_view)> parse; static inline std::function<std::string(Decimal const&)> print; static inline int max_digits = 19;
    Decimal() : k_(nan) {}
    Decimal(std::int32_t v) : Decimal((std::int64_t)v) {} Decimal(std::int64_t v) : s_(v < 0), c_((std::uint64_t)v) { c_ = sym_ite(v < 0, 0 - c_, c_); } Decimal(std::int8_t v) : Decimal((std::int64_t)v) {} Decimal(std::int16_t v) : Decimal((std::int64_t)v) {}
    explicit Decimal(takatori::decimal::triple const& t) : s_(t.sign() < 0), c_(t.coefficient_low()), e_(t.exponent()) { sym_assume(t.coefficient_high() == 0); }
    explicit Decimal(std::string const& s) { *this = parse(s); }
    Decimal(int s, std::uint64_t c, std::int64_t e) : s_(s), c_(c), e_(e) {}
    bool isnan() const { return k_ == nan; } bool isinfinite() const { return k_ == inf; } bool isspecial() const { return k_ != fin; } bool isfinite() const { return k_ == fin; } bool iszero() const { return k_ == fin && c_ == 0; } int sign() const { return s_ ? -1 : 1; }
    std::int64_t exponent() const { return e_; } Decimal coeff() const { Decimal d(0, c_, 0); return d; }
    int digits() const { u128_t p = 10; int d = 1; while (d < max_digits && c_ >= (std::uint64_t)p) { p *= 10; ++d; } if (d == max_digits) sym_assume((u128_t)c_ < p); return d; }
    std::int64_t adjexp() const { return e_ + digits() - 1; }
    Decimal scaleb(std::int64_t n) const { Decimal d(*this); d.e_ += n; return d; }
    Decimal copy_sign(Decimal const& o) const { Decimal d(*this); d.s_ = o.s_; return d; }
    Decimal operator-() const { Decimal d(*this); if (k_ != nan) d.s_ = 1 - s_; if (iszero()) d.s_ = 0; return d; }
    Decimal reduce() const { if (k_ != fin) return *this; Decimal d(*this); if (d.c_ == 0) { d.e_ = 0; return d; } for (int i = 0; i < max_digits; i++) { std::uint64_t q = d.c_ / 10; if (q * 10 != d.c_) break; d.c_ = q; ++d.e_; } return d; }
    Decimal rescale(std::int64_t e) const { Decimal r(*this); r.e_ = e; if (e == e_) return r; if (e < e_) { if (e_ - e > 18) { if (c_ != 0) sym_stop(); return r; } std::uint64_t p = (std::uint64_t)stub_pow10((int)(e_ - e)); sym_assume(c_ <= ~0ULL / p); r.c_ = c_ * p; return r; }
        if (e - e_ > 18) { if (context.round() != MPD_ROUND_DOWN) sym_stop(); r.c_ = 0; context.add(MPD_Rounded); if (c_ != 0) context.add(MPD_Inexact); return r; } std::uint64_t p = (std::uint64_t)stub_pow10((int)(e - e_)); r.c_ = c_ / p; std::uint64_t rem = c_ - r.c_ * p; context.add(MPD_Rounded); if (rem != 0) { context.add(MPD_Inexact); if (context.round() == MPD_ROUND_HALF_EVEN) { if (rem > p / 2 || (rem == p / 2 && (r.c_ & 1))) r.c_++; } else if (context.round() == MPD_ROUND_HALF_UP) { if (rem >= p / 2) r.c_++; } } return r; }
    Decimal to_integral_exact() const { if (k_ != fin || e_ >= 0) return *this; return rescale(0); }
    i128_t stub_int() const { if (e_ != 0) { if (e_ < 0 || e_ > 18) sym_stop(); } i128_t v = (i128_t)((u128_t)c_ * stub_pow10((int)e_)); return s_ ? -v : v; }
    std::int32_t i32() const { i128_t v = stub_int(); SYM_ASSERT(v >= INT32_MIN); SYM_ASSERT(v <= INT32_MAX); return (std::int32_t)v; } std::int64_t i64() const { i128_t v = stub_int(); SYM_ASSERT(v >= INT64_MIN); SYM_ASSERT(v <= INT64_MAX); return (std::int64_t)v; }
    std::string to_sci() const { return print ? print(*this) : std::string("decimal"); } std::string to_eng() const { return to_sci(); }
    friend int stub_cmp(Decimal const& a, Decimal const& b) { if (a.k_ == nan || b.k_ == nan) sym_stop(); if (a.k_ == inf || b.k_ == inf) { int x = a.k_ == inf ? (a.s_ ? -2 : 2) : 0, y = b.k_ == inf ? (b.s_ ? -2 : 2) : 0; return x < y ? -1 : x > y; } std::int64_t d = a.e_ - b.e_; if (d > 18 || d < -18) sym_stop(); u128_t p = stub_pow10((int)(d < 0 ? -d : d)); i128_t x = (i128_t)((u128_t)a.c_ * (d > 0 ? p : 1)), y = (i128_t)((u128_t)b.c_ * (d < 0 ? p : 1)); if (a.s_) x = -x; if (b.s_) y = -y; return x < y ? -1 : x > y ? 1 : 0; }
    friend bool operator<(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) < 0; } friend bool operator>(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) > 0; } friend bool operator==(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) == 0; } friend bool operator!=(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) != 0; } friend bool operator<=(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) <= 0; } friend bool operator>=(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) >= 0; }
    friend Decimal operator+(Decimal const& a, Decimal const& b) { return op('+', a, b); } friend Decimal operator-(Decimal const& a, Decimal const& b) { if (!a.s_ && !b.s_ && b.c_ == 1 && b.e_ == 0 && a.e_ >= 0 && a.e_ <= 19 && a.c_ == 1) return Decimal(0, (std::uint64_t)stub_pow10((int)a.e_) - 1, 0); return op('-', a, b); } friend Decimal operator*(Decimal const& a, Decimal const& b) { return op('*', a, b); } friend Decimal operator/(Decimal const& a, Decimal const& b) { return op('/', a, b); } friend Decimal operator%(Decimal const& a, Decimal const& b) { return op('%', a, b); }
    takatori::decimal::triple as_uint128_triple() const { return stub_triple(); }
    takatori::decimal::triple stub_triple() const { SYM_ASSERT(k_ == fin); return {s_ ? -1 : 1, 0, c_, (std::int32_t)e_}; }
    stub_mpd m_{}; stub_mpd const* get() { m_.digits = digits(); return &m_; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const&) { return o << "decimal"; }
};
}
inline takatori::decimal::triple::triple(::decimal::Decimal const& d) : triple(d.stub_triple()) {}

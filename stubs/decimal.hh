// stand-in for libmpdec++'s decimal.hh, restricted to what the kvs encoding uses: exact value, rescale (quantize to an
// exponent) and the status flags. Results of more than 43 digits (the context precision) are outside this model.
#pragma once
#include <cstdint>
#include <string>
#include <ostream>
#include <takatori/decimal/triple.h>
#include "sym.h"
#define MPD_IEEE_Invalid_operation 1U
#define MPD_Inexact 2U
#define MPD_Rounded 4U
namespace decimal {
using u128_t = unsigned __int128;
struct stub_context { std::uint32_t st{}; std::uint32_t status() const { return st; } void clear_status() { st = 0; } };
inline stub_context context{};
struct stub_mpd { std::int64_t digits{}; };
inline u128_t stub_pow10(int k) { u128_t r = 1; for (int i = 0; i < k; i++) r *= 10; return r; }
class Decimal {
    int s_{}; u128_t c_{}; std::int64_t e_{}; mutable stub_mpd m_{}; // digits 0: not counted yet
    void count() { m_.digits = 0; } void count_now() const { std::uint64_t d = 1; for (int k = 1; k <= 38; k++) d = sym_ite(c_ >= stub_pow10(k), (std::uint64_t)k + 1, d); m_.digits = (std::int64_t)d; }
public:
    Decimal() { m_.digits = 1; }
    explicit Decimal(takatori::decimal::triple const& t) : s_(t.sign() < 0), c_((u128_t)t.coefficient_high() << 64 | t.coefficient_low()), e_(t.exponent()) { count(); }
    Decimal rescale(std::int64_t e) const {
        Decimal r(*this); r.e_ = e; if (e == e_) return r;
        if (e < e_) { if (e_ - e > 38) { sym_stop(); } u128_t p = stub_pow10((int)(e_ - e)); if (c_ > ~(u128_t)0 / p) { if (e_ - e > 4) sym_stop(); r.c_ = ~(u128_t)0; r.m_.digits = 40; return r; } r.c_ = c_ * p; if ((r.c_ >> 64) == 0) r.c_ = (std::uint64_t)r.c_; r.count(); return r; }
        if (e - e_ > 38) sym_stop();
        u128_t p = stub_pow10((int)(e - e_)), q = (u128_t)sym_u64("q_hi") << 64 | sym_u64("q_lo"); sym_assume(q <= ~(u128_t)0 / p);
        if (sym_choose(2, "exact")) { sym_assume(q * p == c_); } else { u128_t rem = (u128_t)sym_u64("r_hi") << 64 | sym_u64("r_lo"); sym_assume(rem != 0); sym_assume(rem < p); sym_assume(q * p + rem >= rem); sym_assume(q * p + rem == c_); context.st |= MPD_Inexact | MPD_Rounded; }
        r.c_ = q; r.count(); return r;
    }
    // numeric order; exponents are concrete here and at most 38 apart
    friend int stub_cmp(Decimal const& a, Decimal const& b) { // -1, 0, 1 without branching on the values
        std::int64_t d = a.e_ - b.e_; if (d > 38 || d < -38) sym_stop(); u128_t p = stub_pow10((int)(d < 0 ? -d : d)); u128_t x = a.c_, y = b.c_; bool xo = false, yo = false; if (d > 0) { xo = x > ~(u128_t)0 / p; x *= p; } else if (d < 0) { yo = y > ~(u128_t)0 / p; y *= p; }
        bool lt = sym_and(!xo, sym_or(yo, x < y)), eq = sym_and(sym_and(!xo, !yo), x == y), za = a.c_ == 0, zb = b.c_ == 0, na = sym_and(a.s_ != 0, !za), nb = sym_and(b.s_ != 0, !zb);
        bool both = sym_and(na, nb), same = na == nb; bool less = sym_or(sym_and(na, !nb), sym_and(same, sym_and(!eq, sym_or(sym_and(both, !lt), sym_and(!both, lt))))); bool equal = sym_and(same, eq);
        return (int)(std::int64_t)sym_ite(equal, 0, sym_ite(less, ~0ULL, 1)); }
    friend bool operator<(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) < 0; } friend bool operator==(Decimal const& a, Decimal const& b) { return stub_cmp(a, b) == 0; }
    stub_mpd const* get() const { if (m_.digits == 0) count_now(); return &m_; }
    std::string to_eng() const { return "decimal"; }
    // exact sum; exponents are concrete and at most 38 apart, the sum of the aligned coefficients fits 127 bits (assumed)
    friend Decimal operator+(Decimal const& a, Decimal const& b) { if (a.e_ != b.e_) { auto e = a.e_ < b.e_ ? a.e_ : b.e_; return a.rescale(e) + b.rescale(e); } u128_t x = (a.c_ ^ stub_mask(a.s_)) + (u128_t)(a.s_ != 0); u128_t y = (b.c_ ^ stub_mask(b.s_)) + (u128_t)(b.s_ != 0); sym_assume(a.c_ >> 126 == 0); sym_assume(b.c_ >> 126 == 0); u128_t r = x + y; Decimal d(a); d.s_ = (int)(r >> 127); d.c_ = (r ^ stub_mask(d.s_)) + (u128_t)(d.s_ != 0); d.count(); return d; }
    // division with an exact result at the exponent of the dividend; other quotients are outside this model
    friend Decimal operator/(Decimal const& a, std::int64_t b) { if (b <= 0) sym_stop(); Decimal d(a); u128_t q = (u128_t)sym_u64("q_hi") << 64 | sym_u64("q_lo"); sym_assume(q <= ~(u128_t)0 / (u128_t)b); sym_assume(q * (u128_t)b == a.c_); d.c_ = q; d.count(); return d; }
    static u128_t stub_mask(int s) { return (u128_t)0 - (u128_t)(s != 0); }
    takatori::decimal::triple as_uint128_triple() const { return stub_triple(); }
    takatori::decimal::triple stub_triple() const { return {s_ ? -1 : 1, (std::uint64_t)(c_ >> 64), (std::uint64_t)c_, (std::int32_t)e_}; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const&) { return o << "decimal"; }
};
}
inline takatori::decimal::triple::triple(::decimal::Decimal const& d) : triple(d.stub_triple()) {}

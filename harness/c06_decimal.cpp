//@property C06
//@src src/jogasaki/utils/decimal.cpp
//@stubs
//@entry c06_signed quick=60 thorough=120 | every 128-bit coefficient and sign
//@entry c06_roundtrip quick=90 thorough=200 | every 128-bit coefficient and sign, scales 0, 5, 38; shortest form and every longer size up to 17 bytes
//@entry c06_read quick=60 thorough=200 | every byte string of 1..17 bytes, scales 0, 5, 38
//@entry c06_validate quick=60 thorough=120 | every byte string of 0..17 bytes
#include "sym.h"
#include <jogasaki/utils/decimal.h>
#include "fail_env.h"
using namespace jogasaki; using u128 = unsigned __int128; using triple = takatori::decimal::triple;
static u128 in(const char* h, const char* l) { return (u128)sym_u64(h) << 64 | sym_u64(l); }
static bool fits(u128 c, bool neg, size_t k) { if (k >= 17) return true; if (k == 0) return false; u128 lim = (u128)1 << (8 * k - 1); return sym_or(c < lim, sym_and(neg, c == lim)); }
HARNESS(c06_signed) {
    u128 c = in("h", "l"); bool neg = sym_choose(2, "neg"); triple v(neg ? -1 : 1, (uint64_t)(c >> 64), (uint64_t)c, 0); auto [hi, lo, sz] = utils::make_signed_coefficient_full(v); sym_observe("sz", sz); sym_observe("hi", hi); sym_observe("lo", lo);
    SYM_ASSERT(sz >= 1 && sz <= 17); u128 want = neg ? (u128)0 - c : c; sym_assert(hi == (uint64_t)(want >> 64), "upper half in two's complement"); sym_assert(lo == (uint64_t)want, "lower half in two's complement"); sym_assert(fits(c, neg, sz), "the size suffices"); sym_assert(!fits(c, neg, sz - 1), "no shorter size suffices");
}
HARNESS(c06_roundtrip) {
    u128 c = in("h", "l"); bool neg = sym_choose(2, "neg"); static const size_t SC[] = {0, 5, 38}; size_t scale = SC[sym_choose(3, "scale")]; triple v(neg ? -1 : 1, (uint64_t)(c >> 64), (uint64_t)c, -(int32_t)scale); auto [hi, lo, sz] = utils::make_signed_coefficient_full(v); size_t n = sz; if (scale == 0 && sz < 17) { n = sym_size("n", sz, 17); if (n != sz && n != sz + 1 && n != 17) sym_stop(); }
    utils::decimal_buffer* b = (utils::decimal_buffer*)::operator new(sizeof(utils::decimal_buffer)); for (auto& x : *b) x = 0xA5; utils::create_decimal((std::int8_t)v.sign(), lo, hi, n, *b); for (size_t i = n; i < b->size(); i++) SYM_ASSERT((*b)[i] == 0xA5);
    sym_buf t(n, sym_buf::raw{}); for (size_t i = 0; i < n; i++) t.p[i] = (char)(*b)[i]; ::operator delete(b); sym_observe_bytes("b", t.p, n); std::string_view d(t.p, n); SYM_ASSERT(utils::validate_decimal_coefficient(d)); triple g = utils::read_decimal(d, scale); sym_assert(g.sign() == v.sign(), "same sign"); sym_assert(g.coefficient_high() == v.coefficient_high(), "same upper half"); sym_assert(g.coefficient_low() == v.coefficient_low(), "same lower half"); SYM_ASSERT(g.exponent() == -(int32_t)scale);
}
HARNESS(c06_read) {
    size_t n = sym_size("n", 1, 17); sym_buf b(n, "b"); static const size_t SC[] = {0, 5, 38}; size_t scale = SC[sym_choose(3, "scale")]; std::string_view d(b.p, n); if (!utils::validate_decimal_coefficient(d)) return; triple g = utils::read_decimal(d, scale); bool neg = b[0] >> 7; u128 x = neg ? ~(u128)0 : 0; for (size_t i = 0; i < n; i++) x = x << 8 | b[i]; u128 m = neg ? (u128)0 - x : x;
    sym_assert(g.coefficient_high() == (uint64_t)(m >> 64), "upper half"); sym_assert(g.coefficient_low() == (uint64_t)m, "lower half"); sym_assert(g.sign() == (neg ? -1 : m == 0 ? 0 : 1), "sign"); SYM_ASSERT(g.exponent() == -(int32_t)scale); sym_observe("hi", g.coefficient_high()); sym_observe("lo", g.coefficient_low());
}
HARNESS(c06_validate) { size_t n = sym_size("n", 0, 17); sym_buf b(n, "b"); bool v = utils::validate_decimal_coefficient({b.p, n}); if (n < 17) { SYM_ASSERT(v); return; } bool zeros = true; for (size_t i = 1; i < n; i++) zeros = sym_and(zeros, b[i] == 0); sym_assert(v == sym_or(b[0] == 0, sym_and(b[0] == 0xff, !zeros)), "17-byte coefficient accepted exactly when its magnitude fits 128 bits"); sym_observe("v", v); }

//@property C05
//@src src/jogasaki/serializer/value_input.cpp src/jogasaki/serializer/value_input_exception.cpp src/jogasaki/serializer/base128v.cpp
//@stubs
//@entry c05_peek quick=30 thorough=60 | every one-byte header, empty input
//@entry c05_scalar quick=90 thorough=300 | every byte string of 0..11 bytes (exact-size buffer) read as integer, float, date, time, time point, offsets, row and array size, null, end
//@entry c05_decimal quick=120 thorough=400 | every byte string of 0..10 (thorough 0..22) bytes read as decimal
//@entry c05_decimal_full quick=120 thorough=400 | full-form decimals with every coefficient length 0..20 and every content
//@entry c05_bytes quick=60 thorough=300 | every byte string of 0..6 bytes (thorough 0..70) read as character, octet and bit string
//@entry c05_interval quick=120 thorough=300 | every byte string of 0..8 bytes read as interval
//@entry c05_lob quick=30 thorough=60 | every byte string of 0..26 bytes read as LOB
#include "sym.h"
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_input_exception.h>
using namespace jogasaki::serializer; using cit_t = takatori::util::buffer_view::const_iterator;
static sym_buf* B; template <class F> static bool rd(F f) {
    cit_t p = B->p; bool ok = false, other = false; try { f(p, (cit_t)(B->p + B->n)); ok = true; } catch (std::runtime_error const&) {} catch (...) { other = true; } SYM_ASSERT(!other); if (ok) SYM_ASSERT(p > B->p && p <= B->p + B->n); else SYM_ASSERT(p == B->p); sym_observe("used", (uint64_t)(p - B->p)); return ok;
}
#define RD(...) rd([&](cit_t& p, cit_t e) { __VA_ARGS__; })
static bool in(uint8_t c, int lo, int hi) { return sym_and(c >= lo, c <= hi); }
HARNESS(c05_peek) {
    size_t n = sym_size("n", 0, 1); sym_buf b(n, "b"); int got = -1; try { got = (int)peek_type(b.p, b.p + n); } catch (value_input_exception const&) {} if (!n) { SYM_ASSERT(got == -1); return; } uint8_t c = b[0]; int want = -1; using E = entry_type; auto w = [&](bool cond, E t) { want = (int)(int64_t)sym_ite(cond, (uint64_t)(int64_t)(int)t, (uint64_t)(int64_t)want); };
    w(in(c, 0, 0x3f), E::int_); w(in(c, 0x40, 0x7f), E::character); w(in(c, 0x80, 0x9f), E::row); w(in(c, 0xa0, 0xbf), E::array); w(in(c, 0xc0, 0xcf), E::int_); w(in(c, 0xd0, 0xdf), E::octet); w(in(c, 0xe0, 0xe7), E::bit); w(c == 0xe8, E::null); w(c == 0xe9, E::int_); w(c == 0xea, E::float4); w(c == 0xeb, E::float8); w(in(c, 0xec, 0xed), E::decimal); w(c == 0xee, E::time_of_day_with_offset); w(c == 0xef, E::time_point_with_offset); w(c == 0xf0, E::character); w(c == 0xf1, E::octet); w(c == 0xf2, E::bit); w(c == 0xf3, E::date); w(c == 0xf4, E::time_of_day); w(c == 0xf5, E::time_point); w(c == 0xf6, E::datetime_interval); w(c == 0xf8, E::row); w(c == 0xf9, E::array); w(c == 0xfa, E::clob); w(c == 0xfb, E::blob); w(c == 0xfe, E::end_of_contents);
    sym_assert(got == want, "kind of the header byte"); sym_observe("k", (uint64_t)got);
}
HARNESS(c05_scalar) {
    size_t n = sym_size("n", 0, 11); sym_buf b(n, "b"); B = &b; switch (sym_choose(12, "kind")) { case 0: RD(read_int(p, e)); break; case 1: RD(read_float4(p, e)); break; case 2: RD(read_float8(p, e)); break; case 3: RD(read_date(p, e)); break; case 4: RD(read_time_of_day(p, e)); break; case 5: RD(read_time_point(p, e)); break; case 6: if (n > QT(6, 11)) sym_stop(); RD(read_time_of_day_with_offset(p, e)); break; case 7: if (n > QT(5, 11)) sym_stop(); RD(read_time_point_with_offset(p, e)); break; case 8: RD(read_row_begin(p, e)); break; case 9: RD(read_array_begin(p, e)); break; case 10: RD(read_null(p, e)); break; default: RD(read_end_of_contents(p, e)); }
}
HARNESS(c05_decimal) { size_t n = sym_size("n", 0, QT(10, 22)); sym_buf b(n, "b"); B = &b; RD(read_decimal(p, e)); }
HARNESS(c05_decimal_full) {
    size_t k = sym_size("k", 0, 20); bool cut = sym_choose(2, "cut"); size_t have = cut ? (k ? k - 1 : 0) : k; sym_buf b(3 + have, "b"); sym_assume((uint8_t)b[0] == 0xed); sym_assume(b[1] < 0x80); sym_assume(b[2] == k); B = &b; bool ok = RD(auto d = read_decimal(p, e);
        // the value is the two's complement number of the coefficient bytes
        uint64_t hi = 0, lo = 0; bool neg = (b[3] & 0x80) != 0; if (neg) hi = lo = ~0ULL; for (size_t i = 0; i < k; i++) { hi = hi << 8 | lo >> 56; lo = lo << 8 | b[3 + i]; } if (neg) { lo = ~lo + 1; hi = ~hi + (lo == 0 ? 1 : 0); } sym_assert(d.coefficient_high() == hi && d.coefficient_low() == lo, "coefficient"); sym_assert(d.sign() == (neg ? -1 : sym_or(hi != 0, lo != 0) ? 1 : 0), "sign"));
    bool must = k >= 1 && k <= 16 && !cut; if (must) SYM_ASSERT(ok); if (cut || k == 0 || k > 17) SYM_ASSERT(!ok); if (!cut && k == 17) { bool nz = false; for (size_t i = 1; i < 17; i++) nz = sym_or(nz, b[3 + i] != 0); sym_assert(ok == sym_or(b[3] == 0, sym_and(b[3] == 0xff, nz)), "17 bytes only for 128-bit coefficients"); }
}
HARNESS(c05_bytes) {
    size_t n = sym_size("n", 0, QT(6, 70)); sym_buf b(n, "b"); B = &b; switch (sym_choose(3, "kind")) { case 0: RD(auto v = read_character(p, e); SYM_ASSERT(v.data() + v.size() == p); if (v.size()) sym_observe("l", (uint8_t)v[v.size() - 1])); break; case 1: RD(auto v = read_octet(p, e); SYM_ASSERT(v.data() + v.size() == p)); break; default: RD(auto v = read_bit(p, e); SYM_ASSERT(v.block_data() + v.block_size() == p)); }
}
HARNESS(c05_interval) { size_t n = sym_size("n", 0, QT(6, 8)); sym_buf b(n, "b"); B = &b; if (n) sym_assume(b[0] == 0xf6); RD(read_datetime_interval(p, e)); }
HARNESS(c05_lob) { size_t n = sym_size("n", 0, 26); sym_buf b(n, "b"); B = &b; bool ok = sym_choose(2, "c") ? RD(read_clob(p, e)) : RD(read_blob(p, e)); if (ok) SYM_ASSERT(n >= 25); }

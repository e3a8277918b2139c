//@property C04
//@src src/jogasaki/serializer/value_output.cpp src/jogasaki/serializer/value_input.cpp src/jogasaki/serializer/value_input_exception.cpp src/jogasaki/serializer/base128v.cpp
//@stubs
//@entry c04_int quick=60 thorough=120 | every 64-bit integer, every available space from 0 to the encoded length, written at the start and in the middle of a buffer
//@entry c04_float quick=30 thorough=60 | every 32- and 64-bit pattern (bit-exact), every available space
//@entry c04_decimal_small quick=60 thorough=120 | every coefficient below 2^63, both signs, every 32-bit exponent, every available space
//@entry c04_decimal_large quick=90 thorough=200 | every coefficient of 2^63..2^128-1, both signs, exponents of one byte (thorough: every 32-bit exponent), every available space
//@entry c04_text quick=60 thorough=200 | character and octet strings of 0,1,2,16,17,64,65,127,128 (thorough also 1000, 16384) symbolic bytes, space one byte short, exact, more
//@entry c04_bit quick=60 thorough=120 | bit strings of 0..20 and 64, 72 bits of symbolic content, both entry points, too many bits requested
//@entry c04_date_time quick=90 thorough=300 | every 64-bit date, every time of day, every time point (64-bit seconds, nanoseconds), 32-bit zone offsets within +-1439
//@entry c04_interval quick=90 thorough=300 | every 32-bit year/month/day below 2^20 in magnitude (thorough 2^31) with 64-bit nanosecond part
//@entry c04_lob quick=30 thorough=60 | every 64-bit provider, id and reference tag, every available space
//@entry c04_begin quick=30 thorough=60 | every row/array size below 2^31, null and end of contents, every available space
//@entry c04_sequence quick=60 thorough=200 | a row of five entries written one after the other and read back in order
//@entry c04_writer quick=60 thorough=120 | every kind of entry through the value writer (symbolic values), two entries after each other, a text longer than the writer's first buffer
#include "sym.h"
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/serializer/value_writer.h>
using namespace jogasaki::serializer; using it_t = takatori::util::buffer_view::iterator; using cit_t = takatori::util::buffer_view::const_iterator;
// writes with w into every amount of space, reads back with r and compares with same
template <class W, class R> static void round(entry_type ty, W w, R r, size_t mx, bool alltrunc = true) {
    sym_buf big(mx, sym_buf::raw{}); it_t p = big.p; SYM_ASSERT(w(p, (cit_t)(big.p + mx))); size_t n = (size_t)(p - big.p); SYM_ASSERT(n >= 1 && n <= mx); sym_observe_bytes("enc", big.p, n);
    sym_buf in(n + 1, sym_buf::raw{}); for (size_t i = 0; i < n; i++) in.p[i] = big.p[i]; in.p[n] = 0x55; cit_t q = in.p; SYM_ASSERT(peek_type(q, in.p + n + 1) == ty); r(q, in.p + n + 1); SYM_ASSERT(q == in.p + n);
    size_t pre = sym_choose(2, "pre"), cap = alltrunc ? sym_size("cap", 0, n) : n - sym_choose(2, "short"); sym_buf b(pre + cap, sym_buf::raw{}); for (size_t i = 0; i < pre + cap; i++) b.p[i] = (char)0xA5; it_t s = b.p + pre; bool threw = false, ok = false; try { ok = w(s, (cit_t)(b.p + pre + cap)); } catch (...) { threw = true; } SYM_ASSERT(!threw);
    SYM_ASSERT(ok == (cap == n)); SYM_ASSERT(s == b.p + pre + (ok ? n : 0)); for (size_t i = 0; i < pre; i++) SYM_ASSERT(b.p[i] == (char)0xA5); if (ok) sym_assert(sym_eq(b.p + pre, big.p, n), "same bytes in exactly the space"); else for (size_t i = 0; i < cap; i++) SYM_ASSERT(b.p[pre + i] == (char)0xA5);
    if (ok) { cit_t e = b.p + pre; r(e, b.p + pre + n); SYM_ASSERT(e == b.p + pre + n); } else if (cap) { sym_buf t(cap, sym_buf::raw{}); for (size_t i = 0; i < cap; i++) t.p[i] = big.p[i]; cit_t u = t.p; bool under = false; try { r(u, t.p + cap); } catch (value_input_exception const&) { under = true; } SYM_ASSERT(under && u == t.p); }
}
#define W(call) [&](it_t& p, cit_t e) { return call; }
HARNESS(c04_int) { int64_t v = sym_i64("v"); round(entry_type::int_, W(write_int(v, p, e)), [&](cit_t& p, cit_t e) { sym_assert(read_int(p, e) == v, "same integer"); }, 12); }
HARNESS(c04_float) {
    if (sym_choose(2, "w")) { uint64_t b = sym_u64("b"); double v; memcpy(&v, &b, 8); round(entry_type::float8, W(write_float8(v, p, e)), [&](cit_t& p, cit_t e) { double g = read_float8(p, e); uint64_t x; memcpy(&x, &g, 8); sym_assert(x == b, "same double"); }, 12); }
    else { uint32_t b = sym_u32("b"); float v; memcpy(&v, &b, 4); round(entry_type::float4, W(write_float4(v, p, e)), [&](cit_t& p, cit_t e) { float g = read_float4(p, e); uint32_t x; memcpy(&x, &g, 4); sym_assert(x == b, "same float"); }, 12); }
}
static void dec(uint64_t hi, uint64_t lo, int sign, int32_t ex) {
    takatori::decimal::triple v(sign, hi, lo, ex); entry_type ty = entry_type::decimal; if (hi == 0 && lo < 0x8000000000000000ULL && ex == 0) ty = entry_type::int_; if (hi == 0 && lo == 0x8000000000000000ULL && sign < 0 && ex == 0) ty = entry_type::int_;
    round(ty, W(write_decimal(v, p, e)), [&](cit_t& p, cit_t e) { auto g = read_decimal(p, e); sym_assert(g.sign() == v.sign(), "same sign"); sym_assert(g.coefficient_high() == hi && g.coefficient_low() == lo, "same coefficient"); sym_assert(g.exponent() == ex, "same exponent"); }, 30);
}
HARNESS(c04_decimal_small) { uint64_t lo = sym_u64("lo"); sym_assume(lo < 0x8000000000000000ULL); int s = sym_choose(2, "neg") ? -1 : 1; if (s < 0) sym_assume(lo != 0); dec(0, lo, s, sym_i32("ex")); }
HARNESS(c04_decimal_large) { uint64_t lo = sym_u64("lo"), hi = sym_u64("hi"); sym_assume(sym_or(hi != 0, lo >= 0x8000000000000000ULL)); int s = sym_choose(2, "neg") ? -1 : 1; int32_t ex = QT((int32_t)sym_i8("ex"), sym_i32("ex")); dec(hi, lo, s, ex); }
HARNESS(c04_text) {
    static const size_t L[] = {0, 1, 2, 16, 17, 64, 65, 127, 128, 1000, 16384}; size_t n = L[sym_choose(QT(9, 11), "len")]; std::string v(n, '\0'); if (n) sym_bytes(&v[0], n, "v");
    if (sym_choose(2, "octet")) round(entry_type::octet, W(write_octet(v, p, e)), [&](cit_t& p, cit_t e) { auto g = read_octet(p, e); sym_assert(sym_same(std::string(g), v), "same octets"); }, n + 6, false);
    else round(entry_type::character, W(write_character(v, p, e)), [&](cit_t& p, cit_t e) { auto g = read_character(p, e); sym_assert(sym_same(std::string(g), v), "same characters"); }, n + 6, false);
}
HARNESS(c04_bit) {
    size_t k = sym_choose(23, "bits"), n = k < 21 ? k : k == 21 ? 64 : 72, bytes = (n + 7) / 8; std::string v(bytes, '\0'); if (bytes) sym_bytes(&v[0], bytes, "v"); auto rd = [&](cit_t& p, cit_t e) { auto g = read_bit(p, e); SYM_ASSERT(g.size() == n); for (size_t i = 0; i < n; i++) sym_assert(((unsigned char)g.block_data()[i / 8] >> (i % 8) & 1) == ((unsigned char)v[i / 8] >> (i % 8) & 1), "same bit"); };
    if (sym_choose(2, "raw")) { round(entry_type::bit, W(write_bit(std::string_view(v), n, p, e)), rd, bytes + 6, false); char tmp[4]; it_t p = tmp; bool thr = false; try { write_bit(std::string_view(v), bytes * 8 + 1, p, tmp + 4); } catch (std::out_of_range const&) { thr = true; } SYM_ASSERT(thr && p == tmp); }
    else round(entry_type::bit, W(write_bit(takatori::util::const_bitset_view(v.data(), n), p, e)), rd, bytes + 6, false);
}
HARNESS(c04_date_time) {
    using namespace takatori::datetime; size_t k = sym_choose(5, "kind"); int64_t s = sym_i64("s"); uint64_t n = sym_u64("n"); int32_t z = sym_i16("z"); sym_assume(sym_and(z >= -1439, z <= 1439));
    if (k == 0) { date v(s); round(entry_type::date, W(write_date(v, p, e)), [&](cit_t& p, cit_t e) { sym_assert(read_date(p, e).days_since_epoch() == s, "same date"); }, 12); return; }
    if (k <= 2) { sym_assume(n < time_of_day::day_ns); time_of_day v{std::chrono::nanoseconds{(int64_t)n}}; if (k == 1) round(entry_type::time_of_day, W(write_time_of_day(v, p, e)), [&](cit_t& p, cit_t e) { sym_assert(read_time_of_day(p, e).time_since_epoch().count() == n, "same time"); }, 12);
        else round(entry_type::time_of_day_with_offset, W(write_time_of_day_with_offset(v, z, p, e)), [&](cit_t& p, cit_t e) { auto g = read_time_of_day_with_offset(p, e); sym_assert(g.first.time_since_epoch().count() == n, "same time"); sym_assert(g.second == z, "same offset"); }, 16); return; }
    sym_assume(n < 1000000000); time_point v{std::chrono::seconds{s}, std::chrono::nanoseconds{(int64_t)n}}; if (k == 3) round(entry_type::time_point, W(write_time_point(v, p, e)), [&](cit_t& p, cit_t e) { auto g = read_time_point(p, e); sym_assert(g.seconds_since_epoch().count() == s, "same seconds"); sym_assert((uint64_t)g.subsecond().count() == n, "same subsecond"); }, 20, QT(false, true));
    else round(entry_type::time_point_with_offset, W(write_time_point_with_offset(v, z, p, e)), [&](cit_t& p, cit_t e) { auto g = read_time_point_with_offset(p, e); sym_assert(g.first.seconds_since_epoch().count() == s, "same seconds"); sym_assert((uint64_t)g.first.subsecond().count() == n, "same subsecond"); sym_assert(g.second == z, "same offset"); }, 24, false);
}
HARNESS(c04_interval) {
    using namespace takatori::datetime; int32_t y = sym_i32("y"), m = sym_i32("m"), d = sym_i32("d"); int64_t t = sym_i64("t"); if (QT(1, 0)) { int32_t B = 1 << 20; sym_assume(sym_and(y > -B, y < B)); sym_assume(sym_and(m > -128, m < 128)); sym_assume(sym_and(d > -8192, d < 8192)); } datetime_interval v{{y, m, d}, time_interval{std::chrono::nanoseconds{t}}};
    round(entry_type::datetime_interval, W(write_datetime_interval(v, p, e)), [&](cit_t& p, cit_t e) { auto g = read_datetime_interval(p, e); sym_assert(g.date().year() == y, "year"); sym_assert(g.date().month() == m, "month"); sym_assert(g.date().day() == d, "day"); sym_assert(g.time().offset().count() == t, "time"); }, 30, false);
}
HARNESS(c04_lob) {
    uint64_t a = sym_u64("a"), b = sym_u64("b"), c = sym_u64("c"); auto chk = [&](std::tuple<uint64_t, uint64_t, uint64_t> g) { sym_assert(std::get<0>(g) == a, "provider"); sym_assert(std::get<1>(g) == b, "id"); sym_assert(std::get<2>(g) == c, "tag"); };
    if (sym_choose(2, "clob")) round(entry_type::clob, W(write_clob(a, b, c, p, e)), [&](cit_t& p, cit_t e) { chk(read_clob(p, e)); }, 26); else round(entry_type::blob, W(write_blob(a, b, c, p, e)), [&](cit_t& p, cit_t e) { chk(read_blob(p, e)); }, 26);
}
HARNESS(c04_begin) {
    size_t k = sym_choose(4, "kind"); if (k == 0) { round(entry_type::null, W(write_null(p, e)), [&](cit_t& p, cit_t e) { read_null(p, e); }, 2); return; } if (k == 1) { round(entry_type::end_of_contents, W(write_end_of_contents(p, e)), [&](cit_t& p, cit_t e) { read_end_of_contents(p, e); }, 2); return; }
    uint64_t n = sym_u32("n"); sym_assume(n < 0x80000000ULL); if (k == 2) round(entry_type::row, W(write_row_begin(n, p, e)), [&](cit_t& p, cit_t e) { sym_assert(read_row_begin(p, e) == n, "row size"); }, 8); else round(entry_type::array, W(write_array_begin(n, p, e)), [&](cit_t& p, cit_t e) { sym_assert(read_array_begin(p, e) == n, "array size"); }, 8);
}
HARNESS(c04_sequence) {
    int64_t a = sym_i64("a"); sym_assume(sym_and(a > -100, a < 20000)); std::string s(2, '\0'); sym_bytes(&s[0], 2, "s"); uint64_t x = sym_u64("x"); int32_t ex = sym_i8("ex"); uint64_t lo = sym_u16("lo"); sym_buf b(64, sym_buf::raw{}); it_t p = b.p; cit_t e = b.p + 64; SYM_ASSERT(write_row_begin(5, p, e)); SYM_ASSERT(write_int(a, p, e)); SYM_ASSERT(write_character(s, p, e)); SYM_ASSERT(write_null(p, e)); takatori::decimal::triple d(1, 0, lo, ex); SYM_ASSERT(write_decimal(d, p, e)); SYM_ASSERT(write_blob(x, x, x, p, e)); SYM_ASSERT(write_end_of_contents(p, e)); cit_t end = p;
    cit_t q = b.p; SYM_ASSERT(read_row_begin(q, end) == 5); sym_assert(read_int(q, end) == a, "int"); auto g = read_character(q, end); sym_assert(sym_same(std::string(g), s), "text"); read_null(q, end); auto t = read_decimal(q, end); sym_assert(t.coefficient_low() == lo && t.exponent() == ex, "decimal"); auto l = read_blob(q, end); sym_assert(std::get<2>(l) == x, "lob"); SYM_ASSERT(peek_type(q, end) == entry_type::end_of_contents); read_end_of_contents(q, end); SYM_ASSERT(q == end);
}
struct sink_t { std::string all; std::size_t calls{}; int write(char const* d, std::size_t n) { all.append(d, n); calls++; return 7; } };
HARNESS(c04_writer) {
    using namespace takatori::datetime; sink_t k; value_writer<sink_t, std::size_t> w(k); sym_buf b(3200, sym_buf::raw{}); it_t p = b.p; cit_t e = b.p + 3200; size_t cnt = 0;
    for (int r = 0; r < 2; r++) {
        uint64_t x = r ? sym_u8("x") : sym_u16("x"); int32_t z = (int32_t)sym_u8("z") - 60; int ret = 0; time_of_day tod{std::chrono::nanoseconds{(int64_t)x}}; time_point tp{std::chrono::seconds{(int64_t)x}, std::chrono::nanoseconds{z & 15}}; takatori::decimal::triple d(1, x, x, z); std::string s(sym_choose(2, "long") ? 1200 : 3, 'a'); s[0] = (char)x; cnt++;
        switch (sym_choose(18, "kind")) {
        case 0: ret = w.write_end_of_contents(); write_end_of_contents(p, e); break; case 1: ret = w.write_null(); write_null(p, e); break; case 2: ret = w.write_int((int64_t)x); write_int((int64_t)x, p, e); break; case 3: { uint32_t q = (uint32_t)x; float f; memcpy(&f, &q, 4); ret = w.write_float4(f); write_float4(f, p, e); break; } case 4: { double f; memcpy(&f, &x, 8); ret = w.write_float8(f); write_float8(f, p, e); break; }
        case 5: ret = w.write_decimal(d); write_decimal(d, p, e); break; case 6: ret = w.write_character(s); write_character(s, p, e); break; case 7: ret = w.write_octet(s); write_octet(s, p, e); break; case 8: ret = w.write_bit(takatori::util::const_bitset_view(s.data(), 20)); write_bit(std::string_view(s), 20, p, e); break; case 9: ret = w.write_bit(std::string_view(s), s.size() * 8); write_bit(std::string_view(s), s.size() * 8, p, e); break;
        case 10: ret = w.write_date(date((int64_t)x)); write_date(date((int64_t)x), p, e); break; case 11: ret = w.write_time_of_day(tod); write_time_of_day(tod, p, e); break; case 12: ret = w.write_time_of_day_with_offset(tod, z); write_time_of_day_with_offset(tod, z, p, e); break; case 13: ret = w.write_time_point(tp); write_time_point(tp, p, e); break; case 14: ret = w.write_time_point_with_offset(tp, z); write_time_point_with_offset(tp, z, p, e); break;
        case 15: { datetime_interval v{{1, z, 3}, time_interval{std::chrono::nanoseconds{(int64_t)x}}}; ret = w.write_datetime_interval(v); write_datetime_interval(v, p, e); break; } case 16: if (z & 1) { ret = w.write_array_begin(x); write_array_begin(x, p, e); } else { ret = w.write_row_begin(x); write_row_begin(x, p, e); } break; default: if (z & 1) { ret = w.write_blob(x, 2, 3); write_blob(x, 2, 3, p, e); } else { ret = w.write_clob(1, x, 3); write_clob(1, x, 3, p, e); } }
        SYM_ASSERT(ret == 7 && k.calls == cnt); SYM_ASSERT(k.all.size() == (size_t)(p - b.p)); sym_assert(sym_eq(k.all.data(), b.p, k.all.size()), "the writer passes on exactly the entry");
    }
}

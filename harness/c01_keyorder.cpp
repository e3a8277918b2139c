//@property C01
//@src src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c01_int quick=60 thorough=120 | every pair of 8/16/32/64-bit integers and booleans, both orders, nullable and not
//@entry c01_float quick=90 thorough=200 | every pair of 32-bit and 64-bit reals including NaN, infinities and both zeros, both orders, nullable and not
//@entry c01_datetime quick=60 thorough=120 | every pair of dates, times of day and time points (64-bit), both orders, nullable and not
//@entry c01_decimal quick=120 thorough=300 | precisions 1,2,3,5,9,18,19,38 (thorough all 1..38) with scale 0 and another; every coefficient pair below 10^precision, both signs, exponent equal to the scale
//@entry c01_decimal_exp quick=120 thorough=300 | two decimals of different exponents (the scale against 1 or 2 digits less, thorough every pair of 0..2) and every coefficient, precision 5 (thorough also 9, 18, 38), ascending and not nullable
//@entry c01_text quick=120 thorough=400 | varying and fixed-length character strings of 0..3 symbolic bytes (thorough 0..5), both orders, nullable and not
//@entry c01_octet quick=60 thorough=200 | fixed-length octet strings of 0..3 symbolic bytes in columns of length 3 (thorough 0..5)
//@entry c01_composite quick=120 thorough=400 | two-column keys (text, int4), (int2, text), (text, text) in all order combinations with symbolic content
#include "sym.h"
#include <cmath>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/data/any.h>
#include "kvs_env.h"
using namespace jogasaki; using kvs::order; using K = meta::field_type_kind; using data::any;
struct ov { any v; bool null; };
// encode a and b the same way and compare the byte strings with the given order of the values
static void check(meta::field_type const& ft, any const& a, any const& b, bool lt, bool gt, size_t mx, bool plain = false) {
    bool nullable = !plain && sym_choose(2, "nullable"), desc = !plain && sym_choose(2, "desc"); kvs::coding_spec sp = desc ? kvs::spec_key_descending : kvs::spec_key_ascending; enc x(mx), y(mx);
    if (nullable) { SYM_ASSERT(x.add_nullable(a, ft, sp) == status::ok && y.add_nullable(b, ft, sp) == status::ok); enc z(mx); SYM_ASSERT(z.add_nullable(any{}, ft, sp) == status::ok); bool l = lex_lt(z, x); sym_assert(l == !desc, "null first ascending, last descending"); sym_assert(lex_lt(x, z) == desc, "null first ascending, last descending (2)"); }
    else SYM_ASSERT(x.add(a, ft, sp) == status::ok && y.add(b, ft, sp) == status::ok);
    sym_observe_bytes("x", x.b.p, x.size()); sym_observe_bytes("y", y.b.p, y.size());
    sym_assert(lex_lt(x, y) == (desc ? gt : lt), "encoded less exactly when the value comes first"); sym_assert(lex_lt(y, x) == (desc ? lt : gt), "encoded greater exactly when the value comes last");
}
template <class T> static any mk(T v) { return any{std::in_place_type<T>, v}; }
HARNESS(c01_int) {
    size_t k = sym_choose(5, "kind"); uint64_t a = sym_u64("a"), b = sym_u64("b");
    if (k == 0) { int8_t p = a & 1, q = b & 1; check(meta::field_type{meta::field_enum_tag<K::boolean>}, mk(p), mk(q), p < q, p > q, 16); }
    if (k == 1) { int32_t p = (int8_t)a, q = (int8_t)b; check(meta::field_type{meta::field_enum_tag<K::int1>}, mk(p), mk(q), p < q, p > q, 16); }
    if (k == 2) { int32_t p = (int16_t)a, q = (int16_t)b; check(meta::field_type{meta::field_enum_tag<K::int2>}, mk(p), mk(q), p < q, p > q, 16); }
    if (k == 3) { int32_t p = (int32_t)a, q = (int32_t)b; check(meta::field_type{meta::field_enum_tag<K::int4>}, mk(p), mk(q), p < q, p > q, 16); }
    if (k == 4) { int64_t p = (int64_t)a, q = (int64_t)b; check(meta::field_type{meta::field_enum_tag<K::int8>}, mk(p), mk(q), p < q, p > q, 16); }
}
template <class F, class U, K k> static void flt(U ua, U ub) { F a, b; memcpy(&a, &ua, sizeof a); memcpy(&b, &ub, sizeof b); constexpr U inf = sizeof(U) == 4 ? (U)0x7f800000 : (U)0x7ff0000000000000ULL, ab = (U)(~(U)0) >> 1; bool na = (U)(ua & ab) > inf, nb = (U)(ub & ab) > inf;
    // order of the reals by sign and magnitude of the bit pattern; zeros equal, NaN equal to itself and above everything
    using S = std::make_signed_t<U>; auto key = [&](U u) { S m = (S)(u & ab); return (S)sym_ite((u & ~ab) != 0, (uint64_t)(int64_t)-m, (uint64_t)(int64_t)m); }; S ka = key(ua), kb = key(ub); bool lt = sym_and(!na, sym_or(nb, ka < kb)), gt = sym_and(!nb, sym_or(na, ka > kb)); check(meta::field_type{meta::field_enum_tag<k>}, mk(a), mk(b), lt, gt, 16); }
HARNESS(c01_float) { if (sym_choose(2, "w")) flt<double, uint64_t, K::float8>(sym_u64("a"), sym_u64("b")); else flt<float, uint32_t, K::float4>(sym_u32("a"), sym_u32("b")); }
HARNESS(c01_datetime) {
    using namespace takatori::datetime; size_t k = sym_choose(3, "kind"); int64_t a = sym_i64("a"), b = sym_i64("b"); if (k == 0) { check(meta::field_type{meta::field_enum_tag<K::date>}, mk(date(a)), mk(date(b)), a < b, a > b, 16); return; }
    if (k == 1) { sym_assume(sym_and((uint64_t)a < time_of_day::day_ns, (uint64_t)b < time_of_day::day_ns)); check(meta::field_type{std::make_shared<meta::time_of_day_field_option>()}, mk(time_of_day{std::chrono::nanoseconds{a}}), mk(time_of_day{std::chrono::nanoseconds{b}}), a < b, a > b, 16); return; }
    uint32_t n = sym_u32("na"), m = sym_u32("nb"); sym_assume(sym_and(n < 1000000000, m < 1000000000)); check(meta::field_type{std::make_shared<meta::time_point_field_option>()}, mk(time_point{std::chrono::seconds{a}, std::chrono::nanoseconds{n}}), mk(time_point{std::chrono::seconds{b}, std::chrono::nanoseconds{m}}), sym_or(a < b, sym_and(a == b, n < m)), sym_or(a > b, sym_and(a == b, n > m)), 24);
}
using i128 = __int128; using u128 = unsigned __int128; using triple = takatori::decimal::triple;
static u128 p10(int k) { u128 r = 1; while (k--) r *= 10; return r; }
static void dec(int prec, int scale, int ea, int eb, bool plain = false) {
    u128 ca = (u128)(prec > 19 ? sym_u64("ah") : 0) << 64 | sym_u64("al"), cb = (u128)(prec > 19 ? sym_u64("bh") : 0) << 64 | sym_u64("bl"); bool na = sym_choose(2, "aneg"), nb = sym_choose(2, "bneg"); sym_assume(ca < p10(prec - ea)); sym_assume(cb < p10(prec - eb));
    triple a(na ? -1 : 1, (uint64_t)(ca >> 64), (uint64_t)ca, ea - scale), b(nb ? -1 : 1, (uint64_t)(cb >> 64), (uint64_t)cb, eb - scale); i128 va = (i128)(ca * p10(ea)), vb = (i128)(cb * p10(eb)); if (na) va = -va; if (nb) vb = -vb;
    check(meta::field_type{std::make_shared<meta::decimal_field_option>((size_t)prec, (size_t)scale)}, mk(a), mk(b), va < vb, va > vb, 32, plain);
}
HARNESS(c01_decimal) { static const int P[] = {1, 2, 3, 5, 9, 18, 19, 38}; int prec = QT(P[sym_choose(8, "prec")], (int)sym_size("prec", 1, 38)); int scale = sym_choose(2, "scale") ? (prec + 1) / 2 : 0; dec(prec, scale, 0, 0); }
HARNESS(c01_decimal_exp) { static const int P[] = {5, 9, 18, 38}; int prec = P[sym_choose(QT(1, 4), "prec")]; int ea = 1 + (int)sym_choose(2, "ea"), eb = QT(0, (int)sym_choose(3, "eb")); if (ea == eb) sym_stop(); dec(prec, 4, ea, eb, true); }
HARNESS(c01_text) {
    size_t mx = QT(3, 5), n = sym_size("n", 0, mx), m = sym_size("m", 0, mx); bool fixed = sym_choose(2, "fixed"); sym_buf a(n, "a"), b(m, "b"); for (size_t i = 0; i < n; i++) sym_assume(a[i] != 0); for (size_t i = 0; i < m; i++) sym_assume(b[i] != 0);
    sym_buf pa(fixed ? mx : n, sym_buf::raw{}), pb(fixed ? mx : m, sym_buf::raw{}); for (size_t i = 0; i < pa.n; i++) pa.p[i] = i < n ? a.p[i] : ' '; for (size_t i = 0; i < pb.n; i++) pb.p[i] = i < m ? b.p[i] : ' ';
    meta::field_type ft{fixed ? std::make_shared<meta::character_field_option>(false, mx) : sym_choose(2, "len") ? std::make_shared<meta::character_field_option>(true, mx) : std::make_shared<meta::character_field_option>(true, std::nullopt)};
    check(ft, mk(accessor::text{a.p, n}), mk(accessor::text{b.p, m}), lex_lt(pa.p, pa.n, pb.p, pb.n), lex_lt(pb.p, pb.n, pa.p, pa.n), 16);
}
HARNESS(c01_octet) {
    size_t mx = QT(3, 5), n = sym_size("n", 0, mx), m = sym_size("m", 0, mx); sym_buf a(n, "a"), b(m, "b"), pa(mx, sym_buf::raw{}), pb(mx, sym_buf::raw{}); for (size_t i = 0; i < mx; i++) { pa.p[i] = i < n ? a.p[i] : 0; pb.p[i] = i < m ? b.p[i] : 0; }
    meta::field_type ft{std::make_shared<meta::octet_field_option>(false, mx)}; check(ft, mk(accessor::binary{a.p, n}), mk(accessor::binary{b.p, m}), lex_lt(pa.p, mx, pb.p, mx), lex_lt(pb.p, mx, pa.p, mx), 16);
}
HARNESS(c01_composite) {
    size_t shape = sym_choose(3, "shape"); bool d1 = sym_choose(2, "d1"), d2 = sym_choose(2, "d2"); kvs::coding_spec s1 = d1 ? kvs::spec_key_descending : kvs::spec_key_ascending, s2 = d2 ? kvs::spec_key_descending : kvs::spec_key_ascending; enc x(32), y(32); bool lt[2], gt[2]; meta::field_type tt{std::make_shared<meta::character_field_option>(true, std::nullopt)}, i4{meta::field_enum_tag<K::int4>};
    for (int f = 0; f < 2; f++) {
        auto sp = f ? s2 : s1; bool text = shape == 2 || (f == 0) == (shape == 0), nl = sym_choose(2, "nullable");
        if (text) { size_t n = sym_size("n", 0, QT(2, 3)), m = sym_size("m", 0, QT(2, 3)); auto* a = new sym_buf(n, "a"); auto* b = new sym_buf(m, "b"); for (size_t i = 0; i < n; i++) sym_assume((*a)[i] != 0); for (size_t i = 0; i < m; i++) sym_assume((*b)[i] != 0); any va = mk(accessor::text{a->p, n}), vb = mk(accessor::text{b->p, m}); SYM_ASSERT((nl ? x.add_nullable(va, tt, sp) : x.add(va, tt, sp)) == status::ok); SYM_ASSERT((nl ? y.add_nullable(vb, tt, sp) : y.add(vb, tt, sp)) == status::ok); lt[f] = lex_lt(a->p, n, b->p, m); gt[f] = lex_lt(b->p, m, a->p, n); delete a; delete b; }
        else { int32_t a = sym_i32("ia"), b = sym_i32("ib"); any va = mk(a), vb = mk(b); SYM_ASSERT((nl ? x.add_nullable(va, i4, sp) : x.add(va, i4, sp)) == status::ok); SYM_ASSERT((nl ? y.add_nullable(vb, i4, sp) : y.add(vb, i4, sp)) == status::ok); lt[f] = a < b; gt[f] = a > b; }
    }
    if (d1) std::swap(lt[0], gt[0]); if (d2) std::swap(lt[1], gt[1]); bool el = sym_or(lt[0], sym_and(!gt[0], lt[1])), eg = sym_or(gt[0], sym_and(!lt[0], gt[1]));
    sym_observe_bytes("x", x.b.p, x.size()); sym_assert(lex_lt(x, y) == el, "composite key less exactly when the first differing column comes first"); sym_assert(lex_lt(y, x) == eg, "composite key greater exactly when the first differing column comes last");
}

//@property C02
//@src src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c02_int quick=60 thorough=120 | every value of boolean, int1, int2, int4, int8; key ascending, key descending, value; nullable and not, NULL included; through values and through records, decoded to a value, a record, or skipped; followed by a second field
//@entry c02_float quick=60 thorough=120 | every 32-bit and 64-bit real (NaNs and zeros by the documented normalisation, everything else bit-exact), same combinations
//@entry c02_datetime quick=60 thorough=200 | every date, time of day, time point, same combinations
//@entry c02_decimal quick=120 thorough=400 | precisions 1,2,3,5,9,18,19,38 (thorough all 1..38), scale 0 and another, every coefficient below 10^precision, both signs
//@entry c02_text quick=120 thorough=400 | character strings of 0..3, 16, 17 symbolic bytes, varying and fixed (padded), padding switched off for search keys
//@entry c02_octet quick=120 thorough=400 | octet strings of 0..3, 16, 17 symbolic bytes, fixed (padded) and varying (values only)
//@entry c02_lob quick=30 thorough=60 | every 64-bit object id, blob and clob
//@entry c02_encode_any quick=60 thorough=200 | utils::encode_any over 1..3 fields (int8, text, null) into buffers of every capacity 0..24
#include "sym.h"
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/utils/coder.h>
#include <jogasaki/data/aligned_buffer.h>
#include "kvs_env.h"
#include "mem_res.h"
using namespace jogasaki; using kvs::order; using K = meta::field_type_kind; using data::any;
template <class T> static any mk(T v) { return any{std::in_place_type<T>, v}; }
// a record with one nullity byte at 0 and one 8-aligned value at 16, surrounded by marked bytes
struct rec { sym_buf b; accessor::record_ref r; rec() : b(80, sym_buf::raw{}), r(b.p, 80) { for (size_t i = 0; i < 80; i++) b.p[i] = 0x5A; } bool rest_kept(size_t n) const { bool ok = true; for (size_t i = 0; i < 80; i++) if (i != 1 && (i < 16 || i >= 16 + n)) ok = sym_and(ok, b.p[i] == 0x5A); ok = sym_and(ok, (b.p[1] & ~4) == (0x5A & ~4)); return ok; } };
constexpr size_t VO = 16, NO = 10; // nullity bit 2 of byte 1
static kvs::coding_spec spec(size_t k) { return k == 0 ? kvs::spec_key_ascending : k == 1 ? kvs::spec_key_descending : kvs::spec_value; }
// encode v under a chosen spec, nullability and source kind, followed by a sentinel; decode and hand the result to cmp
template <class T, class Cmp> static void rt(meta::field_type const& ft, T v, Cmp cmp, size_t mx, int specs = 3, bool write = true) {
    auto sp = spec(sym_choose(specs, "spec")); bool nullable = sym_choose(2, "nullable"), null = nullable && sym_choose(2, "null"), from_rec = sym_choose(2, "from_record"); int32_t tail = sym_i32("tail"); meta::field_type i4{meta::field_enum_tag<K::int4>}; enc x(mx); x.ctx.coding_for_write(write); status st;
    if (from_rec) { rec s; s.r.set_value<T>(VO, v); s.r.set_null(NO, null); accessor::const_record_ref cr{s.b.p, 80}; st = nullable ? kvs::encode_nullable(cr, VO, NO, ft, sp, x.ctx, x.s) : kvs::encode(cr, VO, ft, sp, x.ctx, x.s); } else { any a = null ? any{} : mk(v); st = nullable ? x.add_nullable(a, ft, sp) : x.add(a, ft, sp); }
    SYM_ASSERT(st == status::ok); size_t len = x.size(); SYM_ASSERT(x.add(mk(tail), i4, sp) == status::ok); size_t all = x.size(); SYM_ASSERT(all == len + 4 && all <= mx);
    sym_buf in(all, sym_buf::raw{}); for (size_t i = 0; i < all; i++) in.p[i] = x.b.p[i]; sym_observe_bytes("enc", in.p, all); kvs::readable_stream r(in.p, all); kvs::coding_context ctx{}; exact_resource res; size_t how = sym_choose(3, "decode");
    if (how == 0) { any d = mk<int64_t>(7); SYM_ASSERT((nullable ? kvs::decode_nullable(r, ft, sp, ctx, d, &res) : kvs::decode(r, ft, sp, ctx, d, &res)) == status::ok); SYM_ASSERT(d.empty() == null); if (!null) cmp(d.to<T>()); }
    else if (how == 1) { rec d; if (sym_choose(2, "prior")) d.r.set_null(NO, !null); SYM_ASSERT((nullable ? kvs::decode_nullable(r, ft, sp, ctx, d.r, VO, NO, &res) : kvs::decode(r, ft, sp, ctx, d.r, VO, &res)) == status::ok); if (nullable) SYM_ASSERT(d.r.is_null(NO) == null); if (!null) cmp(d.r.get_value<T>(VO)); sym_assert(d.rest_kept(sizeof(T)), "decoding a field changes nothing else in the record"); }
    else SYM_ASSERT((nullable ? kvs::consume_stream_nullable(r, ft, sp, ctx) : kvs::consume_stream(r, ft, sp, ctx)) == status::ok);
    SYM_ASSERT(r.size() == len); SYM_ASSERT(r.rest().data() == in.p + len && r.rest().size() == 4); any t; SYM_ASSERT(kvs::decode(r, i4, sp, ctx, t) == status::ok); sym_assert(t.to<int32_t>() == tail, "following field undisturbed"); SYM_ASSERT(r.rest().empty());
}
HARNESS(c02_int) {
    size_t k = sym_choose(5, "kind"); int64_t v = sym_i64("v");
    if (k == 0) rt<int8_t>(meta::field_type{meta::field_enum_tag<K::boolean>}, (int8_t)(v & 1), [&](int8_t g) { sym_assert(g == (v & 1), "same boolean"); }, 16);
    if (k == 1) rt<int32_t>(meta::field_type{meta::field_enum_tag<K::int1>}, (int8_t)v, [&](int32_t g) { sym_assert(g == (int8_t)v, "same int1"); }, 16);
    if (k == 2) rt<int32_t>(meta::field_type{meta::field_enum_tag<K::int2>}, (int16_t)v, [&](int32_t g) { sym_assert(g == (int16_t)v, "same int2"); }, 16);
    if (k == 3) rt<int32_t>(meta::field_type{meta::field_enum_tag<K::int4>}, (int32_t)v, [&](int32_t g) { sym_assert(g == (int32_t)v, "same int4"); }, 16);
    if (k == 4) rt<int64_t>(meta::field_type{meta::field_enum_tag<K::int8>}, v, [&](int64_t g) { sym_assert(g == v, "same int8"); }, 16);
}
template <class F, class U, K k> static void flt(U u) { F v; memcpy(&v, &u, sizeof v); constexpr U inf = sizeof(U) == 4 ? (U)0x7f800000 : (U)0x7ff0000000000000ULL, ab = (U)(~(U)0) >> 1; bool nan = (U)(u & ab) > inf, zero = (u & ab) == 0; rt<F>(meta::field_type{meta::field_enum_tag<k>}, v, [&](F g) { U b; memcpy(&b, &g, sizeof b); bool gnan = (U)(b & ab) > inf; sym_assert(sym_or(sym_and(nan, gnan), sym_or(sym_and(zero, b == 0), b == u)), "same real"); }, 16); }
HARNESS(c02_float) { if (sym_choose(2, "w")) flt<double, uint64_t, K::float8>(sym_u64("v")); else flt<float, uint32_t, K::float4>(sym_u32("v")); }
HARNESS(c02_datetime) {
    using namespace takatori::datetime; size_t k = sym_choose(3, "kind"); int64_t a = sym_i64("a"); if (k == 0) { rt<date>(meta::field_type{meta::field_enum_tag<K::date>}, date(a), [&](date g) { sym_assert(g.days_since_epoch() == a, "same date"); }, 16); return; }
    if (k == 1) { sym_assume((uint64_t)a < time_of_day::day_ns); rt<time_of_day>(meta::field_type{std::make_shared<meta::time_of_day_field_option>()}, time_of_day{std::chrono::nanoseconds{a}}, [&](time_of_day g) { sym_assert(g.time_since_epoch().count() == (uint64_t)a, "same time"); }, 16); return; }
    uint32_t n = sym_u32("n"); sym_assume(n < 1000000000); rt<time_point>(meta::field_type{std::make_shared<meta::time_point_field_option>()}, time_point{std::chrono::seconds{a}, std::chrono::nanoseconds{n}}, [&](time_point g) { sym_assert(g.seconds_since_epoch().count() == a, "same seconds"); sym_assert(g.subsecond().count() == n, "same subsecond"); }, 24);
}
using u128 = unsigned __int128; using triple = takatori::decimal::triple; static u128 p10(int k) { u128 r = 1; while (k--) r *= 10; return r; }
HARNESS(c02_decimal) {
    static const int P[] = {1, 2, 3, 5, 9, 18, 19, 38}; int prec = QT(P[sym_choose(8, "prec")], (int)sym_size("prec", 1, 38)), scale = sym_choose(2, "scale") ? (prec + 1) / 2 : 0; u128 c = (u128)(prec > 19 ? sym_u64("h") : 0) << 64 | sym_u64("l"); sym_assume(c < p10(prec)); triple v(sym_choose(2, "neg") ? -1 : 1, (uint64_t)(c >> 64), (uint64_t)c, -scale);
    rt<triple>(meta::field_type{std::make_shared<meta::decimal_field_option>((size_t)prec, (size_t)scale)}, v, [&](triple g) { sym_assert(sym_and(g.coefficient_high() == v.coefficient_high(), g.coefficient_low() == v.coefficient_low()), "same coefficient"); sym_assert(g.sign() == v.sign(), "same sign"); SYM_ASSERT(g.exponent() == -scale); }, 32);
}
HARNESS(c02_text) {
    static const size_t L[] = {0, 1, 2, 3, 16, 17, 32}; size_t n = L[sym_choose(QT(6, 7), "n")]; bool fixed = sym_choose(2, "fixed"), write = sym_choose(2, "write"); size_t cap = fixed ? n + 2 * sym_choose(2, "room") : 100; sym_buf a(n, "a"); for (size_t i = 0; i < n; i++) sym_assume(a[i] != 0); std::string want = a.str(); if (fixed && write) want.resize(cap, ' ');
    meta::field_type ft{std::make_shared<meta::character_field_option>(!fixed, cap)}; rt<accessor::text>(ft, accessor::text{a.p, n}, [&](accessor::text g) { sym_assert(sym_same(std::string(std::string_view(g)), want), "same characters"); }, 64, 3, write);
}
HARNESS(c02_octet) {
    static const size_t L[] = {0, 1, 2, 3, 16, 17, 32}; size_t n = L[sym_choose(QT(6, 7), "n")]; bool fixed = sym_choose(2, "fixed"); size_t cap = fixed ? n + 2 * sym_choose(2, "room") : 100; sym_buf a(n, "a"); std::string want = a.str(); if (fixed) want.resize(cap, '\0');
    meta::field_type ft{std::make_shared<meta::octet_field_option>(!fixed, cap)}; rt<accessor::binary>(ft, accessor::binary{a.p, n}, [&](accessor::binary g) { sym_assert(sym_same(std::string(std::string_view(g)), want), "same octets"); }, 64);
}
HARNESS(c02_lob) { uint64_t id = sym_u64("id"); if (sym_choose(2, "clob")) rt<lob::clob_reference>(meta::field_type{meta::field_enum_tag<K::clob>}, lob::clob_reference{id, lob::lob_data_provider::datastore}, [&](lob::clob_reference g) { sym_assert(g.object_id() == id, "same id"); SYM_ASSERT(g.kind() == lob::lob_reference_kind::fetched); }, 24); else rt<lob::blob_reference>(meta::field_type{meta::field_enum_tag<K::blob>}, lob::blob_reference{id, lob::lob_data_provider::datastore}, [&](lob::blob_reference g) { sym_assert(g.object_id() == id, "same id"); SYM_ASSERT(g.kind() == lob::lob_reference_kind::fetched); }, 24); }
HARNESS(c02_encode_any) {
    size_t cap = sym_size("cap", 0, 24); bool text = sym_choose(2, "text"), nullable = sym_choose(2, "nullable"); auto sp = spec(sym_choose(2, "spec")); size_t n = 1 + sym_choose(3, "n"); int64_t v[2] = {sym_i64("v0"), sym_i64("v1")}; sym_buf tx(2, "t"); sym_assume(sym_and(tx[0] != 0, tx[1] != 0)); meta::field_type ft = text ? meta::field_type{std::make_shared<meta::character_field_option>(true, std::nullopt)} : meta::field_type{meta::field_enum_tag<K::int8>};
    any f0 = text ? mk(accessor::text{tx.p, 2}) : mk(v[0]), f1 = sym_choose(2, "null1") ? any{} : text ? mk(accessor::text{tx.p, 1}) : mk(v[1]), f2 = f0; kvs::coding_context ctx{}; data::aligned_buffer b(cap, 8); bool thr = false; status st{}; try { st = n == 1 ? utils::encode_any(b, ft, nullable, sp, ctx, {f0}) : n == 2 ? utils::encode_any(b, ft, nullable, sp, ctx, {f0, f1}) : utils::encode_any(b, ft, nullable, sp, ctx, {f0, f1, f2}); } catch (std::logic_error const&) { thr = true; }
    bool bad = n >= 2 && f1.empty() && !nullable; SYM_ASSERT(thr == bad); if (bad) return; SYM_ASSERT(st == status::ok); enc x(64); any fs[3] = {f0, f1, f2}; for (size_t i = 0; i < n; i++) SYM_ASSERT((nullable ? x.add_nullable(fs[i], ft, sp) : x.add(fs[i], ft, sp)) == status::ok); SYM_ASSERT(b.size() == x.size()); SYM_ASSERT(b.capacity() >= b.size()); sym_assert(sym_eq(b.data(), x.b.p, x.size()), "fields one after the other"); sym_observe_bytes("enc", b.data(), b.size());
}

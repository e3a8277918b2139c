//@property C11
//@src src/jogasaki/executor/partitioner.cpp src/jogasaki/executor/compare_info.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c11_equal quick=90 thorough=400 | two records of two columns of every kind whose columns compare equal: same symbolic values in different memory, strings stored inline or outside and of 0..17 bytes, NULLs over different left-over content, both zeros, symbolic padding; partition counts 1..5 and symbolic powers of two
//@entry c11_decimal quick=90 thorough=400 | decimal columns: every 8-bit coefficient (thorough 14-bit, and 128-bit multiples), both signs and zero, against the same number written with 1..3 more digits (thorough 1..8)
//@entry c11_pairs quick=60 thorough=200 | every pair of symbolic boolean, int4, int8, float4, float8, date, time of day records: comparing equal implies the same hash and partition (NaNs excluded, see docs: they are normalised before)
//@entry c11_range quick=30 thorough=60 | every symbolic int8 key, every partition count 1..16 (thorough 1..64): the partition number is below the count
#include "rec.h"
#include "fail_env.h"
#include <jogasaki/executor/partitioner.h>
#include <jogasaki/executor/comparator.h>
using namespace jogasaki; using rec::K;
static void junk(rec::mem& m) { for (size_t i = 0; i < m.b.n; i++) m.b.p[i] = (char)sym_u8("junk"); }
static void agree(std::shared_ptr<meta::record_meta> const& m, rec::mem& a, rec::mem& b, bool eq, size_t parts) {
    executor::hash h{m.get()}; auto x = h(a.r), y = h(b.r); sym_assert(sym_or(!eq, x == y), "equal keys, equal hash"); sym_assert(h(static_cast<void*>(a.r.data())) == x, "same hash through the pointer"); if (!parts) return; executor::partitioner p{parts, m}; auto px = p(a.r); sym_assert(px < parts, "partition number in range"); sym_assert(sym_or(!eq, p(b.r) == px), "equal keys, same partition"); sym_observe("p", px);
}
template <K k> static void put(rec::mem& m, meta::record_meta const& mm, size_t i, runtime_t<k> v, bool null) { if (null) { m.r.set_null(mm.nullity_offset(i), true); return; } m.r.set_value<runtime_t<k>>(mm.value_offset(i), v); if (mm.nullable(i)) m.r.set_null(mm.nullity_offset(i), false); }
HARNESS(c11_equal) {
    K ks[] = {rec::kinds[sym_choose(15, "kind")], K::character}; if (sym_choose(2, "order")) std::swap(ks[0], ks[1]); size_t nm = sym_choose(4, "nullable"), null = sym_choose(4, "null"); if (null & ~nm) sym_stop(); rec::def d; for (size_t i = 0; i < 2; i++) d.add(ks[i], nm >> i & 1); auto m = d.meta(); rec::mem a(m->record_size()), b(m->record_size()); junk(a); junk(b); static const size_t L[] = {0, 3, 15, 16, 17};
    for (size_t i = 0; i < 2; i++) rec::with(ks[i], [&](auto c_) { constexpr K k = decltype(c_)::value; bool nl = null >> i & 1; auto v = rec::val<k>("v", L[k == K::character || k == K::octet ? sym_choose(i ? QT(2, 5) : 5, "len") : 0]); if constexpr (k == K::decimal) v = rec::triple(v.sign(), 0, v.coefficient_low() & 31, v.exponent()); auto w = v; if constexpr (k == K::character || k == K::octet) { auto sv = std::string_view(v); char* p = new char[sv.size() + 1]; memcpy(p, sv.data(), sv.size()); w = runtime_t<k>(p, sv.size()); }
        if constexpr (k == K::float4 || k == K::float8) if (sym_choose(2, "zero")) { v = 0.0; w = -v; } put<k>(a, *m, i, v, nl); put<k>(b, *m, i, w, nl); });
    executor::compare_info ci{*m}; if (ks[0] != K::float4 && ks[0] != K::float8 && ks[1] != K::float4 && ks[1] != K::float8) SYM_ASSERT(executor::comparator{ci}(a.r, b.r) == 0); agree(m, a, b, true, (size_t)1 << sym_choose(3, "parts"));
}
HARNESS(c11_decimal) {
    rec::def d; d.add(K::decimal, sym_choose(2, "nullable")); auto m = d.meta(); rec::mem a(m->record_size()), b(m->record_size()); int s = sym_choose(2, "neg") ? -1 : 1, e = -(int)sym_choose(2, "e"), k = (int)sym_size("digits", 1, QT(3, 8)); uint64_t c = sym_u64("c") & QT(0xff, 0x3fff); unsigned __int128 w = (unsigned __int128)c * decimal::stub_pow10(k); if (QT(0, sym_choose(2, "wide"))) { w = decimal::stub_pow10(30) * (c | 1); unsigned __int128 v = decimal::stub_pow10(30 - k) * (c | 1); put<K::decimal>(a, *m, 0, {s, (uint64_t)(v >> 64), (uint64_t)v, e}, false); } else put<K::decimal>(a, *m, 0, {s, 0, c, e}, false); put<K::decimal>(b, *m, 0, {s, (uint64_t)(w >> 64), (uint64_t)w, e - k}, false);
    executor::compare_info ci{*m}; SYM_ASSERT(executor::comparator{ci}(a.r, b.r) == 0); agree(m, a, b, true, 8);
}
HARNESS(c11_pairs) {
    static const K P[] = {K::int8, K::float4, K::float8, K::date, K::boolean, K::int4, K::time_of_day}; K kd = P[sym_choose(7, "kind")]; rec::def d; d.add(kd, true); auto m = d.meta(); rec::mem a(m->record_size()), b(m->record_size()); bool an = sym_choose(2, "an"), bn = sym_choose(2, "bn");
    rec::with(kd, [&](auto c_) { constexpr K k = decltype(c_)::value; auto x = rec::val<k>("a"), y = rec::val<k>("b"); if constexpr (k == K::float4 || k == K::float8) { sym_assume(x == x); sym_assume(y == y); } put<k>(a, *m, 0, x, an); put<k>(b, *m, 0, y, bn); }); executor::compare_info ci{*m}; bool eq = executor::comparator{ci}(a.r, b.r) == 0;
    // two reals compare equal only when they are the same bits or both zero; c11_equal decides the hash of those
    if (!an && !bn && (kd == K::float4 || kd == K::float8)) { size_t o = m->value_offset(0), w = kd == K::float4 ? 4 : 8; bool bits = sym_eq(a.b.p + o, b.b.p + o, w), z = true; for (auto* r : {&a, &b}) for (size_t i = 0; i < w; i++) z = sym_and(z, (uint8_t)(r->b.p[o + i] & (i == w - 1 ? 0x7f : 0xff)) == 0); sym_assert(eq == sym_or(bits, z), "equal reals are the same bits or both zero"); return; } agree(m, a, b, eq, 4);
}
HARNESS(c11_range) { rec::def d; d.add(K::int8, sym_choose(2, "nullable")); auto m = d.meta(); rec::mem a(m->record_size()); put<K::int8>(a, *m, 0, rec::val<K::int8>("a"), d.nl[0] && sym_choose(2, "null")); size_t n = sym_size("parts", 1, QT(16, 64)); executor::partitioner p{n, m}; auto r = p(a.r); sym_assert(r < n, "partition number in range"); sym_assert(p(a.r) == r, "the same every time"); }

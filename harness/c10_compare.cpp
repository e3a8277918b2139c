//@property C10
//@src src/jogasaki/executor/compare_info.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c10_field quick=90 thorough=400 | one column of every kind, both sides nullable or not, NULL or not, no order / undefined / ascending / descending; all values symbolic (reals: every bit pattern; decimals: 40-bit coefficients with exponents 0..-2, thorough 104-bit and 0..-15; strings of 0..3 and 16..17 bytes, thorough 0..5 and 14..17)
//@entry c10_records quick=90 thorough=400 | records of 3 columns (int8/text/float4 and others), symbolic values and nullity, every ascending/descending combination, different nullability and layout on the two sides; first differing column decides
//@entry c10_laws quick=60 thorough=200 | every triple of symbolic records of two columns (int4, float8): antisymmetric, transitive, total
//@entry c10_equal quick=60 thorough=200 | equal_to and less of every kind on symbolic values agree (exactly one of x<y, x==y, y<x)
//@entry c10_refuse quick=20 thorough=20 | compare_info refuses differing field counts or types and order lists of the wrong length
#include "rec.h"
#include "fail_env.h"
#include <jogasaki/executor/compare_info.h>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/executor/equal_to.h>
using namespace jogasaki; using rec::K; using executor::ordering;
static int sgn(bool lt, bool gt) { return (int)(int64_t)sym_ite(lt, ~0ULL, sym_ite(gt, 1, 0)); }
template <class U> static int cmp(U a, U b) { return sgn(a < b, b < a); }
static int then(int a, int b) { return (int)(int64_t)sym_ite(a == 0, (uint64_t)(int64_t)b, (uint64_t)(int64_t)a); }
// order of real numbers from their bits: NaN above everything and equal to itself, both zeros equal
template <class U> static int real(U a, U b) { constexpr U top = (U)1 << (sizeof(U) * 8 - 1), inf = sizeof(U) == 4 ? (U)0x7f800000 : (U)0x7ff0000000000000ULL; auto key = [](U x) { U m = x & ~top; U k = (U)sym_ite((x & top) != 0, (U)(top - m), (U)(top + m)); return (U)sym_ite(m > inf, (U)~(U)0, k); }; return cmp<U>(key(a), key(b)); }
template <K k> static int want(runtime_t<k> const& a, runtime_t<k> const& b) {
    if constexpr (k == K::float4) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return real(x, y); } else if constexpr (k == K::float8) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return real(x, y); }
    else if constexpr (k == K::decimal) { decimal::Decimal x{a}, y{b}; return sgn(x < y, y < x); } // numeric order as libmpdec++ defines it
    else if constexpr (k == K::character || k == K::octet) { auto x = std::string_view(a), y = std::string_view(b); int r = cmp<size_t>(x.size(), y.size()); for (size_t i = std::min(x.size(), y.size()); i-- > 0;) r = then(cmp<unsigned char>((unsigned char)x[i], (unsigned char)y[i]), r); return r; }
    else if constexpr (k == K::date) return cmp<int64_t>(a.days_since_epoch(), b.days_since_epoch()); else if constexpr (k == K::time_of_day) return cmp<uint64_t>(a.time_since_epoch().count(), b.time_since_epoch().count());
    else if constexpr (k == K::time_point) return then(cmp<int64_t>(a.seconds_since_epoch().count(), b.seconds_since_epoch().count()), cmp<uint64_t>(a.subsecond().count(), b.subsecond().count()));
    else if constexpr (k == K::blob || k == K::clob) return then(cmp<int>((int)a.provider(), (int)b.provider()), cmp<uint64_t>(a.object_id(), b.object_id()));
    else if constexpr (k == K::pointer) return 0; else return cmp<runtime_t<k>>(a, b);
}
static size_t slen() { size_t i = sym_choose(QT(6, 10), "len"); return i < QT(4, 6) ? i : i + QT(12, 8); }
template <K k> static runtime_t<k> mk(const char* nm) { if constexpr (k == K::decimal) { int e = -(int)sym_choose(QT(3, 16), "scale"); return rec::triple(sym_choose(2, "neg") ? -1 : 1, QT(0, sym_u64(nm) >> 24), QT(sym_u64(nm) & 0xffffffffff, sym_u64(nm)), e); } else return rec::val<k>(nm, k == K::character || k == K::octet ? slen() : 0); }
HARNESS(c10_field) {
    K kd = rec::kinds[sym_choose(16, "kind")]; size_t mode = sym_choose(3, "nullable"); bool ln = mode & 1, rn = mode != 0, an = ln && sym_choose(2, "anull"), bn = rn && sym_choose(2, "bnull"); size_t o = sym_choose(4, "order"); std::vector<ordering> os; if (o) os.push_back((ordering)(o - 1)); bool desc = o == 3, swap = mode == 2 && sym_choose(2, "swap"); if (swap) { std::swap(ln, rn); std::swap(an, bn); }
    rec::def l, r; l.add(kd, ln); if (rn && !ln) {} r.add(kd, rn); auto lm = l.meta(), rm = r.meta(); executor::compare_info ci = !o && ln == rn ? executor::compare_info(*lm) : !o ? executor::compare_info(*lm, *rm) : executor::compare_info(*lm, *rm, os); executor::comparator c{ci};
    rec::with(kd, [&](auto c_) { constexpr K k = decltype(c_)::value; using T = runtime_t<k>; rec::mem a(lm->record_size()), b(rm->record_size()); auto x = mk<k>("a"), y = mk<k>("b"); a.r.set_value<T>(lm->value_offset(0), x); b.r.set_value<T>(rm->value_offset(0), y); if (ln) a.r.set_null(lm->nullity_offset(0), an); if (rn) b.r.set_null(rm->nullity_offset(0), bn);
        int w = k == K::pointer ? 0 : an && bn ? 0 : an ? -1 : bn ? 1 : want<k>(x, y); if (desc) w = -w; int g = c(a.r, b.r); sym_assert(sym_and((g < 0) == (w < 0), (g > 0) == (w > 0)), "order of the column"); sym_observe("g", (uint64_t)(g < 0) * 2 + (g > 0)); });
}
template <K k> static void put(rec::mem& m, meta::record_meta const& mm, size_t i, runtime_t<k> v, bool null) { m.r.set_value<runtime_t<k>>(mm.value_offset(i), v); if (mm.nullable(i)) m.r.set_null(mm.nullity_offset(i), null); }
HARNESS(c10_records) {
    static const K P[][3] = {{K::int8, K::character, K::float4}, {K::boolean, K::time_point, K::pointer}, {K::pointer, K::date, K::int4}}; auto& ks = P[sym_choose(3, "fields")]; static const size_t LN[] = {0, 3, 5, 7}; size_t lnul = QT(LN[sym_choose(4, "lnull")], sym_choose(8, "lnull")), rnul = QT(sym_choose(2, "r") ? lnul ^ 5 : lnul, sym_choose(8, "rnull")), desc = sym_choose(8, "desc"); bool one = lnul == rnul && desc == 0; rec::def l, r; for (size_t i = 0; i < 3; i++) { l.add(ks[i], lnul >> i & 1); r.add(ks[i], rnul >> i & 1); } auto lm = l.meta(), rm = r.meta(lnul & 1 ? r.meta()->record_size() + 8 : meta::record_meta::npos); std::vector<ordering> os; for (size_t i = 0; i < 3; i++) os.push_back(desc >> i & 1 ? ordering::descending : ordering::ascending);
    executor::compare_info ci = one ? executor::compare_info(*lm, *rm) : executor::compare_info(*lm, *rm, os); executor::comparator c{ci}; rec::mem a(lm->record_size()), b(rm->record_size()); int w = 0; std::vector<int> fs; uint8_t nb = sym_u8("nulls");
    for (size_t i = 0; i < 3; i++) rec::with(ks[i], [&](auto c_) { constexpr K k = decltype(c_)::value; auto x = rec::val<k>("a", 2), y = rec::val<k>("b", 2); bool an = sym_and(lm->nullable(i), nb >> i & 1), bn = sym_and(rm->nullable(i), nb >> (i + 3) & 1); put<k>(a, *lm, i, x, an); put<k>(b, *rm, i, y, bn); int f = want<k>(x, y); f = (int)(int64_t)sym_ite(an, sym_ite(bn, 0, ~0ULL), sym_ite(bn, 1, (uint64_t)(int64_t)f)); if (k == K::pointer) f = 0; fs.push_back(desc >> i & 1 ? -f : f); });
    for (size_t i = 3; i-- > 0;) w = then(fs[i], w); int g = c(a.r, b.r); sym_assert(sym_and((g < 0) == (w < 0), (g > 0) == (w > 0)), "the first differing column decides"); sym_observe("g", (uint64_t)(g < 0) * 2 + (g > 0));
}
HARNESS(c10_laws) {
    rec::def d; d.add(K::int4, sym_choose(2, "n0")); d.add(K::float8, sym_choose(2, "n1")); auto m = d.meta(); std::vector<ordering> os{sym_choose(2, "d0") ? ordering::descending : ordering::ascending, sym_choose(2, "d1") ? ordering::descending : ordering::ascending}; executor::compare_info ci(*m, os); executor::comparator c{ci}; std::vector<std::unique_ptr<rec::mem>> r; for (int i = 0; i < 3; i++) { r.push_back(std::make_unique<rec::mem>(m->record_size())); put<K::int4>(*r[i], *m, 0, rec::val<K::int4>("x"), sym_u8("n") & 1); put<K::float8>(*r[i], *m, 1, rec::val<K::float8>("y"), sym_u8("n") & 1); }
    int ab = c(r[0]->r, r[1]->r), ba = c(r[1]->r, r[0]->r), bc = c(r[1]->r, r[2]->r), ac = c(r[0]->r, r[2]->r); SYM_ASSERT(c(r[0]->r, r[0]->r) == 0); sym_assert(sym_and((ab < 0) == (ba > 0), (ab > 0) == (ba < 0)), "antisymmetric"); if (ab <= 0 && bc <= 0) { sym_assert(ac <= 0, "transitive"); if (ab < 0 || bc < 0) sym_assert(ac < 0, "strictly"); }
}
HARNESS(c10_equal) { K kd = rec::kinds[sym_choose(16, "kind")]; if (kd == K::pointer || kd == K::blob || kd == K::clob) sym_stop(); rec::with(kd, [&](auto c_) { constexpr K k = decltype(c_)::value; if constexpr (k != K::pointer && k != K::blob && k != K::clob) { using T = runtime_t<k>; auto x = mk<k>("a"), y = mk<k>("b"); executor::less L; int e = executor::equal_to<T>(x, y) ? 1 : 0, lt = L(x, y) ? 1 : 0, gt = L(y, x) ? 1 : 0; sym_assert(e + lt + gt == 1, "exactly one of less, equal, greater"); sym_observe("e", e); } }); }
HARNESS(c10_refuse) {
    K a = rec::kinds[sym_choose(15, "a")], b = rec::kinds[sym_choose(15, "b")]; size_t n = sym_size("n", 1, 2), m = sym_size("m", 1, 2), o = sym_size("o", 0, 3); bool orders = o && o != 3; rec::def l, r; for (size_t i = 0; i < n; i++) l.add(i ? K::int8 : a, false); for (size_t i = 0; i < m; i++) r.add(i ? K::int8 : b, true); auto lm = l.meta(), rm = r.meta(); bool t = false; std::vector<ordering> os(orders ? o : 0, ordering::ascending); try { if (o == 3) executor::compare_info ci(*lm, *rm); else executor::compare_info ci(*lm, *rm, os); } catch (std::exception const&) { t = true; } SYM_ASSERT(t == (a != b || n != m || (orders && o != n)));
}

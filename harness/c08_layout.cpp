//@property C08
//@src src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c08_layout quick=60 thorough=400 | every list of 0..2 fields of all 18 kinds, nullable or not, and of 3 fields (thorough 4) over the kinds of every distinct size and alignment; given and computed record sizes
//@entry c08_many quick=60 thorough=200 | 0..18 fields (thorough 0..40, 63..66) with the first and last k nullable, every k, mixed kinds
//@entry c08_setget quick=60 thorough=400 | records of 2..3 fields of all kinds, nullable or not, sequences of 3 (thorough 4) operations (set a value, set nullity to true or false), all values symbolic, over zeroed or uninitialised memory
//@entry c08_bits quick=30 thorough=60 | records of 0..9 bytes (thorough 40) with symbolic content, set_null/is_null on every bit number below and above the record
#include "rec.h"
#include "fail_env.h"
#include <jogasaki/logging.h>
using namespace jogasaki; using rec::K;
static size_t sz(K k) { size_t r = 0; if (k == K::unknown || k == K::undefined) return 0; rec::with(k, [&](auto c) { r = sizeof(runtime_t<c()>); }); return r; }
static size_t al(K k) { size_t r = 1; if (k == K::unknown || k == K::undefined) return 1; rec::with(k, [&](auto c) { r = alignof(runtime_t<c()>); }); return r; }
static void layout(rec::def const& d, size_t given = meta::record_meta::npos) {
    auto m = d.meta(given); size_t n = d.k.size(), S = m->record_size(); std::vector<int> owner(S * 8, -1); SYM_ASSERT(m->field_count() == n); if (given != meta::record_meta::npos) SYM_ASSERT(S == given); SYM_ASSERT(m->record_alignment() >= 1 && S % m->record_alignment() == 0);
    for (size_t i = 0; i < n; i++) {
        SYM_ASSERT(m->at(i).kind() == d.k[i] && m->nullable(i) == d.nl[i]); SYM_ASSERT(m->at(i).runtime_type_size() == sz(d.k[i]) && m->at(i).runtime_type_alignment() == al(d.k[i]));
        size_t o = m->value_offset(i); SYM_ASSERT(o % al(d.k[i]) == 0 && m->record_alignment() % al(d.k[i]) == 0); SYM_ASSERT(o <= S && sz(d.k[i]) <= S - o); for (size_t b = o * 8; b < (o + sz(d.k[i])) * 8; b++) { sym_assert(owner[b] == -1, "value overlaps nothing"); owner[b] = (int)i; }
        if (d.nl[i]) { size_t b = m->nullity_offset(i); SYM_ASSERT(b < S * 8); sym_assert(owner[b] == -1, "nullity bit overlaps nothing"); owner[b] = 1000 + (int)i; } else SYM_ASSERT(m->nullity_offset(i) == meta::record_meta::npos);
    }
    sym_observe("S", S);
}
HARNESS(c08_layout) {
    static const K ALL[] = {K::boolean, K::int1, K::int2, K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::octet, K::date, K::time_of_day, K::time_point, K::blob, K::clob, K::pointer, K::unknown, K::undefined}, SOME[] = {K::boolean, K::int4, K::int8, K::time_point, K::decimal, K::unknown};
    size_t n = sym_size("n", 0, QT(3, 4)); rec::def d; for (size_t i = 0; i < n; i++) d.add(n <= 2 ? ALL[sym_choose(18, "k")] : SOME[sym_choose(n == 4 ? 4 : 6, "k")], sym_choose(2, "nullable")); size_t need = d.meta()->record_size(); layout(d);
    if (n <= 1) { layout(d, need + 64); bool t = !need; if (need) try { d.meta(need - 1); } catch (std::exception const&) { t = true; } sym_assert(t, "a record size too small for the fields is refused"); }
}
HARNESS(c08_many) {
    static const K M[] = {K::int8, K::boolean, K::int4, K::character, K::boolean, K::time_point}; size_t n = sym_choose(2, "big") ? QT(17, 63 + sym_size("n", 0, 3)) : sym_size("n", 0, QT(18, 40)), k = sym_size("k", 0, n); bool last = sym_choose(2, "last"); size_t off = sym_choose(2, "off"); rec::def d; for (size_t i = 0; i < n; i++) d.add(M[(i + off) % 6], last ? i >= n - k : i < k); layout(d);
}
// up to three fields; every operation changes exactly what it names
struct slot { K k; bool nl; std::function<void(accessor::record_ref)> check; bool null; };
HARNESS(c08_setget) {
    static const K P[][3] = {{K::boolean, K::int1, K::int2}, {K::int4, K::character, K::boolean}, {K::int8, K::float4, K::octet}, {K::boolean, K::decimal, K::date}, {K::time_of_day, K::boolean, K::time_point}, {K::blob, K::clob, K::pointer}, {K::float8, K::int4, K::unknown}}; auto& ks = P[sym_choose(7, "fields")]; size_t nm = sym_choose(8, "nullable"), n = 3; rec::def d; std::vector<slot> s; for (size_t i = 0; i < n; i++) { if (ks[i] == K::unknown) continue; bool nl = nm >> i & 1; d.add(ks[i], nl); s.push_back({ks[i], nl, [](accessor::record_ref) {}, false}); } n = d.k.size();
    auto m = d.meta(); rec::mem r(m->record_size());
    for (size_t step = 0; step < QT(3, 4); step++) {
        size_t i = sym_choose(n, "field"); if (s[i].nl && sym_choose(2, "set_null")) { bool to = sym_choose(2, "to"); r.r.set_null(m->nullity_offset(i), to); s[i].null = to; continue; }
        rec::with(s[i].k, [&](auto c_) { using c = decltype(c_); constexpr K ck = c::value; auto v = rec::val<ck>("v"); size_t o = m->value_offset(i); r.r.set_value<runtime_t<ck>>(o, v); s[i].check = [v, o](accessor::record_ref x) { sym_assert(rec::same<ck>(x.get_value<runtime_t<ck>>(o), v), "the value last set"); accessor::const_record_ref cx{x}; sym_assert(rec::same<ck>(cx.get_value<runtime_t<ck>>(o), v), "the value last set (const)"); sym_assert(rec::same<ck>(x.get_reference<runtime_t<ck>>(o), v), "the value last set (reference)"); }; });
    }
    accessor::const_record_ref c{r.r}; for (size_t i = 0; i < n; i++) { s[i].check(r.r); if (s[i].nl) { SYM_ASSERT(r.r.is_null(m->nullity_offset(i)) == s[i].null); SYM_ASSERT(c.is_null(m->nullity_offset(i)) == s[i].null); rec::with(s[i].k, [&](auto kk) { SYM_ASSERT(r.r.get_if<runtime_t<kk()>>(m->nullity_offset(i), m->value_offset(i)).has_value() == !s[i].null); }); } } sym_observe_bytes("r", r.b.p, 1);
}
HARNESS(c08_bits) {
    size_t n = sym_size("n", 0, QT(9, 40)), bit = sym_size("bit", 0, n * 8 + 9); sym_buf b(n, "b"); std::vector<uint8_t> was(n); for (size_t i = 0; i < n; i++) was[i] = b[i]; accessor::record_ref r{b.p, n}; bool v = sym_u8("v") & 1, thrown = false; try { r.set_null(bit, v); } catch (std::exception const&) { thrown = true; } SYM_ASSERT(thrown == (bit >= n * 8));
    for (size_t i = 0; i < n; i++) { uint8_t want = was[i]; if (i == bit / 8) want = (uint8_t)sym_ite(v, was[i] | 1u << bit % 8, was[i] & ~(1u << bit % 8)); sym_assert(b[i] == want, "exactly one bit"); } if (!thrown) { sym_assert(r.is_null(bit) == v, "reads back"); sym_assert(accessor::const_record_ref{r}.is_null(bit) == v, "reads back"); size_t other = sym_size("other", 0, n * 8 - 1); if (other != bit) sym_assert(r.is_null(other) == ((was[other / 8] >> other % 8 & 1) != 0), "others keep"); }
}

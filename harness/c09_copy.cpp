//@property C09
//@src src/jogasaki/accessor/record_copier.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c09_record quick=60 thorough=400 | records of 4 fields (two character/octet, two others of every kind), all nullabilities and nullities, strings of 0,1,15,16,33 symbolic bytes, with and without a resource; the source and the source strings are overwritten afterwards
//@entry c09_field quick=60 thorough=400 | copy_field and copy_nullable_field from record and from value, copy to value, every kind, NULL or not, symbolic contents, with and without a resource
#include "rec.h"
#include "mem_res.h"
#include "fail_env.h"
#include <jogasaki/accessor/record_copier.h>
#include <jogasaki/utils/copy_field_data.h>
using namespace jogasaki; using rec::K; using data::any;
static const size_t L[] = {0, 1, 15, 16, 33};
// character and octet values are kept as strings so that the original bytes can be destroyed after the copy
static std::vector<std::pair<char*, size_t>> strs;
template <K k> static runtime_t<k> mk(size_t n) { auto v = rec::val<k>("v", n); if constexpr (k == K::character || k == K::octet) strs.push_back({rec::last_str, n}); return v; }
template <K k> static runtime_t<k> hold(runtime_t<k> const& v) { if constexpr (k == K::character || k == K::octet) { auto sv = std::string_view(v); char* p = new char[sv.size() + 1]; memcpy(p, sv.data(), sv.size()); return runtime_t<k>(p, sv.size()); } else return v; }
static void trash() { for (auto& s : strs) for (size_t i = 0; i < s.second; i++) s.first[i] = '#'; }
HARNESS(c09_record) {
    static const K O[] = {K::boolean, K::int1, K::int2, K::int4, K::int8, K::float4, K::float8, K::decimal, K::date, K::time_of_day, K::time_point, K::blob, K::clob, K::pointer}; size_t oi = sym_choose(14, "other"), nm = sym_choose(16, "nullable"); K ks[] = {K::character, O[oi], K::octet, O[(oi + 5) % 14]}; size_t null = sym_choose(16, "null"), len = L[sym_choose(5, "len")]; if (null & ~nm) sym_stop(); bool deep = sym_choose(2, "deep"), ptr = sym_choose(2, "ptr"); if (QT(1, 0) && nm != 15 && nm != 0 && oi != 3) sym_stop();
    rec::def d; for (size_t i = 0; i < 4; i++) d.add(ks[i], nm >> i & 1); auto m = d.meta(); size_t S = m->record_size(); rec::mem s(S + 8); exact_resource res; std::vector<std::function<void(accessor::const_record_ref)>> chk;
    for (size_t i = 0; i < 4; i++) { if (nm >> i & 1) s.r.set_null(m->nullity_offset(i), null >> i & 1); if (null >> i & 1) { if (sym_choose(2, "junk")) for (size_t j = 0; j < 8; j++) s.b.p[m->value_offset(i)] = 0x55; continue; } size_t o = m->value_offset(i); rec::with(ks[i], [&](auto c_) { constexpr K k = decltype(c_)::value; auto v = mk<k>(i == 0 ? len : 17); auto w = hold<k>(v); s.r.set_value<runtime_t<k>>(o, v); chk.push_back([o, w](accessor::const_record_ref x) { sym_assert(rec::same<k>(x.get_value<runtime_t<k>>(o), w), "copied value"); }); }); }
    std::vector<uint8_t> before(S + 8); for (size_t i = 0; i < S; i++) before[i] = s.b.p[i];
    accessor::record_copier c{m, deep ? &res : nullptr}; rec::mem t(S + 16); for (size_t i = 0; i < S + 16; i++) t.b.p[i] = 0x5A;
    accessor::const_record_ref cs{s.b.p, S}; if (ptr) c(t.b.p + 8, S, cs); else c(accessor::record_ref{t.b.p + 8, S}, cs);
    for (size_t i = 0; i < 8; i++) SYM_ASSERT(t.b.p[i] == 0x5A && t.b.p[S + 8 + i] == 0x5A);
    for (size_t i = 0; i < 4; i++) if (nm >> i & 1) SYM_ASSERT(s.r.is_null(m->nullity_offset(i)) == (bool)(null >> i & 1)); for (auto& f : chk) f(cs); // the source keeps its content
    if (deep) trash(); for (size_t i = 0; i < S + 8; i++) s.b.p[i] = 0x33;
    accessor::const_record_ref ct{t.b.p + 8, S}; for (size_t i = 0; i < 4; i++) if (nm >> i & 1) sym_assert(ct.is_null(m->nullity_offset(i)) == (bool)(null >> i & 1), "copied nullity"); for (auto& f : chk) f(ct); sym_observe("n", (uint64_t)t.b.p[8]);
}
HARNESS(c09_field) {
    size_t how = sym_choose(6, "how"); K kd = rec::kinds[sym_choose(16, "kind")]; if (kd == K::pointer && how > 1) sym_stop(); bool deep = sym_choose(2, "deep"), nullable = how & 1, null = nullable && sym_choose(2, "null"); size_t len = kd == K::character || kd == K::octet ? L[sym_choose(5, "len")] : 0; auto ft = rec::type_of(kd); exact_resource res, *rp = deep ? &res : nullptr; constexpr size_t VO = 16, NO = 9, TV = 24, TN = 12;
    rec::with(kd, [&](auto c_) { constexpr K k = decltype(c_)::value; using T = runtime_t<k>; auto v = mk<k>(len), w = hold<k>(v); rec::mem s(VO + sizeof(T)), t(TV + sizeof(T) + 8); for (size_t i = 0; i < t.b.n; i++) t.b.p[i] = 0x5A; bool prior = sym_choose(2, "prior"); t.r.set_null(TN, prior);
        if (!null) s.r.set_value<T>(VO, v); s.r.set_null(NO, null); accessor::const_record_ref cs{s.r}; any out{}; if constexpr (k != K::pointer) { if (prior) out = any{std::in_place_type<int64_t>, 5}; any in = null ? any{} : any{std::in_place_type<T>, v}; if (how == 2) utils::copy_field(ft, t.r, TV, in, rp); if (how == 3) utils::copy_nullable_field(ft, t.r, TV, TN, in, rp); if (how == 4) utils::copy_field_as_any(ft, cs, VO, out, rp); if (how == 5) utils::copy_nullable_field_as_any(ft, cs, VO, NO, out, rp); }
        if (how == 0) utils::copy_field(ft, t.r, TV, cs, VO, rp); if (how == 1) utils::copy_nullable_field(ft, t.r, TV, TN, cs, VO, NO, rp); if (deep) trash(); for (size_t i = 0; i < s.b.n; i++) s.b.p[i] = 0x33;
        if (how >= 4) { SYM_ASSERT(out.empty() == null); if constexpr (k != K::pointer) if (!null) { SYM_ASSERT(out.type_index() == any(std::in_place_type<T>, v).type_index()); sym_assert(rec::same<k>(out.to<T>(), w), "copied value"); } }
        else { SYM_ASSERT(t.r.is_null(TN) == (nullable ? null : prior)); if (!null) sym_assert(rec::same<k>(t.r.get_value<T>(TV), w), "copied value"); for (size_t i = 0; i < t.b.n; i++) if (i != 1 && (i < TV || i >= TV + sizeof(T))) SYM_ASSERT(t.b.p[i] == 0x5A); SYM_ASSERT((t.b.p[1] & ~16) == (0x5A & ~16)); sym_observe("b", (uint64_t)(uint8_t)t.b.p[1]); } });
}

//@property C45
//@src src/jogasaki/executor/process/impl/ops/take_cogroup.cpp src/jogasaki/executor/process/impl/ops/take_cogroup_context.cpp src/jogasaki/executor/process/impl/ops/take_group.cpp src/jogasaki/executor/process/impl/ops/take_group_context.cpp src/jogasaki/executor/process/impl/ops/flatten.cpp src/jogasaki/executor/process/impl/ops/flatten_context.cpp src/jogasaki/executor/process/impl/ops/aggregate_group.cpp src/jogasaki/executor/process/impl/ops/aggregate_group_context.cpp src/jogasaki/executor/function/aggregate_function_info.cpp src/jogasaki/executor/function/aggregate_function_repository.cpp src/jogasaki/executor/function/field_locator.cpp src/jogasaki/data/iterable_record_store.cpp src/jogasaki/executor/compare_info.cpp src/jogasaki/meta/variable_order.cpp src/jogasaki/meta/group_meta.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/process/impl/ops/context_base.cpp src/jogasaki/executor/process/impl/ops/context_container.cpp src/jogasaki/executor/process/impl/ops/context_helper.cpp src/jogasaki/executor/process/impl/ops/operator_base.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/executor/process/impl/work_context.cpp src/jogasaki/executor/process/abstract/task_context.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/data/any.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/data/record_store.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp
//@stubs
//@inc stubs_index stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c45_cogroup quick=60 thorough=400 | 2..3 inputs of 0..2 groups of 1..2 records with symbolic nullable keys, values (number, text) symbolic; downstream suspends or aborts at any call
//@entry c45_join quick=60 thorough=400 | every join kind over 1..2 cogroups of two inputs with 0..2 records each; the condition is true, false, unknown or failing for every pair; downstream suspends or aborts at any call
//@entry c45_join3 quick=60 thorough=400 | inner join of three inputs with 0..2 records each
//@entry c45_flatten quick=60 thorough=400 | 0..3 groups of 1..2 records through take_group and flatten
//@entry c45_aggregate quick=60 thorough=400 | 0..3 groups of 1..3 records through take_group and aggregate_group with two functions sharing an argument; a missing input for the whole group
#include "sym.h"
#include "op_world.h"
#include <jogasaki/executor/process/impl/ops/take_cogroup.h>
#include <jogasaki/executor/process/impl/ops/take_group.h>
#include <jogasaki/executor/process/impl/ops/join.h>
#include <jogasaki/executor/process/impl/ops/flatten.h>
#include <jogasaki/executor/process/impl/ops/aggregate_group.h>
#include <jogasaki/executor/function/aggregate_function_repository.h>
#include <set>
#include <map>
executor::function::aggregate_function_repository repo; executor::function::aggregate_function_repository& global::aggregate_function_repository() { return repo; }
using cg_it = data::iterable_record_store::iterator;
// input: a key column (10) and value columns (11: number of the record, 12: text), sorted groups in the reader's own memory
static const types in_types{&t_i4, &t_i4, &t_ch}; static const types key_types{&t_i4}; static const types val_types{&t_i4, &t_ch};
struct member { int id; data::any text; }; struct keyed { data::any key; std::vector<member> m; };
struct source : executor::io::group_reader { std::shared_ptr<meta::group_meta> gm = std::make_shared<meta::group_meta>(meta_of(key_types), meta_of(val_types)); std::vector<keyed> g; size_t gi = 0, mi = 0; int released = 0; data::small_record_store k{meta_of(key_types)}; std::vector<std::unique_ptr<data::small_record_store>> vs;
    bool next_group() override { if (gi >= g.size()) return false; ++gi; mi = 0; store(k.ref(), gm->key(), 0, g[gi - 1].key); return true; } accessor::record_ref get_group() const override { return k.ref(); }
    bool next_member() override { if (mi >= g[gi - 1].m.size()) return false; auto& x = g[gi - 1].m[mi++]; vs.push_back(std::make_unique<data::small_record_store>(meta_of(val_types))); store(vs.back()->ref(), gm->value(), 0, I(x.id)); store(vs.back()->ref(), gm->value(), 1, x.text); return true; } accessor::record_ref get_member() const override { return vs.back()->ref(); } void release() override { ++released; }
    // groups with ascending keys; the ids are distinct numbers
    void fill(size_t groups, size_t members, int& id, bool may_null = true, bool fixed = false) { size_t n = fixed ? groups : sym_choose(groups + 1, "groups"); for (size_t i = 0; i < n; i++) { keyed x; x.key = value(t_i4, may_null && i == 0); if (i) sym_assume(lt(g.back().key, x.key)); for (size_t k = 1 + sym_choose(members, "members"); k > 0; k--) { ++id; x.m.push_back({id, id % 2 ? value(t_ch, false) : data::any{}}); } g.push_back(std::move(x)); } } };
static meta::variable_order order() { std::vector<var> c{{10}, {11}, {12}}, k{{10}}; return meta::variable_order{meta::variable_ordering_enum_tag<meta::variable_ordering_kind::group_from_keys>, sequence_view<var const>(c), sequence_view<var const>(k)}; }
// columns of input i go to variables 3i, 3i+1, 3i+2 (from the given base)
static std::vector<tr::details::map_column> columns(size_t i) { std::vector<tr::details::map_column> c; for (size_t k = 0; k < 3; k++) c.push_back({{10 + (int)k}, block::v(3 * i + k)}); return c; }
static types repeated(size_t n) { types t; while (n--) t.insert(t.end(), in_types.begin(), in_types.end()); return t; }
struct cogroups : block { std::vector<std::unique_ptr<source>> src; task t; std::unique_ptr<ops::take_cogroup> op; meta::variable_order ord = order(); std::vector<std::vector<tr::details::map_column>> cols;
    explicit cogroups(size_t n) : block(repeated(n)) { for (size_t i = 0; i < n; i++) { src.push_back(std::make_unique<source>()); cols.push_back(columns(i)); } }
    void start(std::unique_ptr<ops::operator_base> down) { std::vector<ops::group_element> ge; for (size_t i = 0; i < src.size(); i++) { ge.emplace_back(ord, src[i]->gm, sequence_view<tr::details::map_column const>(cols[i]), i, info.blocks[0]); t.in.emplace_back(src[i].get()); } op = std::make_unique<ops::take_cogroup>(0, info, 0, std::move(ge), std::move(down)); t.ready(*this); }
    // distinct keys in order
    std::vector<data::any> keys() { std::vector<data::any> r; std::vector<size_t> p(src.size()); for (;;) { data::any const* k = nullptr; for (size_t i = 0; i < src.size(); i++) if (p[i] < src[i]->g.size() && (!k || lt(src[i]->g[p[i]].key, *k))) k = &src[i]->g[p[i]].key; if (!k) return r; r.push_back(*k); for (size_t i = 0; i < src.size(); i++) if (p[i] < src[i]->g.size() && same(src[i]->g[p[i]].key, r.back())) ++p[i]; } }
    std::vector<member> const* group(size_t i, data::any const& k) { static const std::vector<member> none; for (auto& x : src[i]->g) if (same(x.key, k)) return &x.m; return &none; } };
struct cogroup_out : ops::cogroup_operator<cg_it>, interruption { struct one { bool empty; row key; std::vector<row> m; }; std::vector<std::vector<one>> got; cogroups& w; explicit cogroup_out(cogroups& x) : cogroup_operator(14, x.info, 0), w(x) {} ops::operator_kind kind() const noexcept override { return ops::operator_kind::join; } void finish(executor::process::abstract::task_context*) override { ++finished; }
    operation_status process_cogroup(executor::process::abstract::task_context*, ops::cogroup<cg_it>& c) override { auto k = hit(); if (k != OK::ok) return k; std::vector<one> r; size_t i = 0; for (auto& g : c.groups()) { one o{g.empty(), {}, {}}; if (!o.empty) o.key = load(g.key(), w.src[i]->gm->key()); for (auto it = g.begin(); it != g.end(); ++it) o.m.push_back(load(*it, w.src[i]->gm->value())); r.push_back(std::move(o)); ++i; } got.push_back(std::move(r)); return OK::ok; } };
HARNESS(c45_cogroup) { size_t n = 2 + sym_choose(2, "inputs"); cogroups w(n); int id = 0; for (size_t i = 0; i < n; i++) w.src[i]->fill(n == 2 ? 2 : QT(1 + (i == 0), 2), n == 2 ? 2 : 1, id); int stop = (int)sym_choose(3, "stop"); auto d = std::make_unique<cogroup_out>(w); auto& o = *d; if (stop == 1) o.yield_at = (int)sym_choose(3, "at"); if (stop == 2) o.abort_at = (int)sym_choose(3, "at"); w.start(std::move(d)); auto st = run_to_end(*w.op, w.t); auto keys = w.keys();
    size_t expect = keys.size(); if (stop == 2 && (size_t)o.abort_at < expect) { SYM_ASSERT(st == OK::aborted); expect = (size_t)o.abort_at; } else SYM_ASSERT(st == OK::ok); SYM_ASSERT(o.got.size() == expect); SYM_ASSERT(o.finished >= 1); for (auto& s : w.src) SYM_ASSERT(s->released >= 1);
    for (size_t c = 0; c < o.got.size(); c++) { SYM_ASSERT(o.got[c].size() == n); for (size_t i = 0; i < n; i++) { auto& m = *w.group(i, keys[c]); auto& g = o.got[c][i]; SYM_ASSERT(g.empty == m.empty() && g.m.size() == m.size()); if (!m.empty()) sym_assert(same(g.key, row{keys[c]}), "key of the group"); for (size_t k = 0; k < m.size(); k++) sym_assert(same(g.m[k], row{I(m[k].id), m[k].text}), "members in order"); } } }
// joins: every pair of ids has its own truth value
struct truth { std::map<std::pair<int, int>, int> v; int at(int l, int r, size_t kinds) { auto [it, fresh] = v.try_emplace({l, r}, 0); if (fresh) it->second = (int)sym_choose(kinds, "truth"); return it->second; } };
static int id_of(data::any const& a) { return a.empty() ? 0 : a.to<std::int32_t>(); }
HARNESS(c45_join) { static const JK kinds[] = {JK::inner, JK::left_outer, JK::left_outer_at_most_one, JK::full_outer, JK::semi, JK::anti}; auto jk = kinds[sym_choose(6, "kind")]; cogroups w(2); int id = 0; bool two = sym_choose(2, "cogroups"); if (two) { w.src[0]->fill(2, 1, id, false, true); w.src[1]->fill(2, 1, id, false, true); } else for (auto& s : w.src) s->fill(1, 2, id, false); if (w.src[0]->g.empty() && w.src[1]->g.empty()) sym_stop();
    bool cond = sym_choose(2, "condition"); int stop = (int)sym_choose(3, "stop"); size_t tk = cond && !two && !stop && id <= 3 ? 4 : 3; truth tv; expr e([&](im::variables_view const& v) -> data::any { int l = id_of(load(v.ref(), *w.m, 1)), r = id_of(load(v.ref(), *w.m, 4)); switch (tv.at(l, r, tk)) { case 0: return data::any{std::in_place_type<bool>, true}; case 1: return data::any{std::in_place_type<bool>, false}; case 2: return {}; default: return failing(); } });
    auto d = std::make_unique<rows_out>(w); auto& o = *d; if (stop == 1) o.yield_at = (int)sym_choose(QT(3, 5), "at"); if (stop == 2) o.abort_at = (int)sym_choose(2, "at"); w.start(std::make_unique<ops::join<cg_it>>(1, w.info, 0, jk, takatori::util::optional_ptr<takatori::scalar::expression const>(cond ? &e : nullptr), std::move(d))); auto st = run_to_end(*w.op, w.t);
    std::vector<std::pair<int, int>> want; bool fails = false, many = false; for (auto& k : w.keys()) { auto &L = *w.group(0, k), &R = *w.group(1, k); auto t = [&](int l, int r) { if (!cond) return true; int x = tv.at(l, r, tk); if (x == 3) fails = true; return x == 0; };
        std::vector<bool> hit(R.size()); for (auto& l : L) { int n = 0; for (size_t r = 0; r < R.size(); r++) if (t(l.id, R[r].id)) { ++n; hit[r] = true; if (jk == JK::inner || jk == JK::left_outer || jk == JK::full_outer || jk == JK::left_outer_at_most_one) want.push_back({l.id, R[r].id}); if (jk == JK::semi) break; };
            if (jk == JK::left_outer_at_most_one && n > 1) many = true; if (n == 0 && (jk == JK::left_outer || jk == JK::left_outer_at_most_one || jk == JK::full_outer || jk == JK::anti)) want.push_back({l.id, 0}); if (n && jk == JK::semi) want.push_back({l.id, 0}); }
        if (jk == JK::full_outer) for (size_t r = 0; r < R.size(); r++) if (!hit[r]) want.push_back({0, R[r].id}); }
    bool error = w.rq->err != nullptr; if (error) { SYM_ASSERT(st == OK::aborted); SYM_ASSERT(fails || many); if (!fails) SYM_ASSERT(w.rq->err->code() == error_code::scalar_subquery_evaluation_exception); return; }
    if (stop == 2 && (size_t)o.abort_at < want.size()) { SYM_ASSERT(st == OK::aborted); SYM_ASSERT(o.got.size() == (size_t)o.abort_at); } else { SYM_ASSERT(!many); if (jk != JK::anti) SYM_ASSERT(!fails); SYM_ASSERT(st == OK::ok); SYM_ASSERT(o.got.size() == want.size()); SYM_ASSERT(o.finished >= 1); }
    // every delivered row is a wanted pair not delivered before, with the values of its records
    std::vector<bool> used(want.size()); for (auto& g : o.got) { std::pair<int, int> p{id_of(g[1]), id_of(g[4])}; bool found = false; for (size_t i = 0; i < want.size() && !found; i++) if (!used[i] && want[i] == p) used[i] = found = true; SYM_ASSERT(found); for (int side = 0; side < 2; side++) { int rid = side ? p.second : p.first; row x{{}, {}, {}}; for (auto& k : w.src[(size_t)side]->g) for (auto& m : k.m) if (m.id == rid) x = row{k.key, I(m.id), m.text}; sym_assert(same(row(g.begin() + 3 * side, g.begin() + 3 * side + 3), x), side ? "columns of the right record" : "columns of the left record"); } } }
HARNESS(c45_join3) { cogroups w(3); int id = 0; std::vector<int> n; for (auto& s : w.src) { s->fill(1, 2, id, false); n.push_back(s->g.empty() ? 0 : (int)s->g[0].m.size()); if (!s->g.empty() && &s != &w.src[0] && !w.src[0]->g.empty()) sym_assume(same(s->g[0].key, w.src[0]->g[0].key)); } auto d = std::make_unique<rows_out>(w); auto& o = *d; o.yield_at = (int)sym_choose(4, "at") - 1; w.start(std::make_unique<ops::join<cg_it>>(1, w.info, 0, JK::inner, takatori::util::optional_ptr<takatori::scalar::expression const>(), std::move(d))); SYM_ASSERT(run_to_end(*w.op, w.t) == OK::ok);
    SYM_ASSERT(o.got.size() == (size_t)(n[0] * n[1] * n[2])); std::set<std::vector<int>> seen; for (auto& g : o.got) { std::vector<int> p; for (size_t i = 0; i < 3; i++) { p.push_back(id_of(g[3 * i + 1])); bool found = false; for (auto& m : w.src[i]->g[0].m) if (m.id == p[i]) { found = true; sym_assert(same(g[3 * i + 2], m.text), "columns of the record"); } SYM_ASSERT(found); sym_assert(same(g[3 * i], w.src[i]->g[0].key), "key"); } SYM_ASSERT(seen.insert(p).second); } }
// groups one after the other
struct groups : block { source src; task t; meta::variable_order ord = order(); std::vector<tr::details::map_column> cols = columns(0); std::unique_ptr<ops::take_group> op; explicit groups(size_t extra) : block([&] { auto x = in_types; while (extra--) x.push_back(&t_i8); return x; }()) {}
    void start(std::unique_ptr<ops::operator_base> down, bool whole = false, bool empty = false) { t.in.emplace_back(static_cast<executor::io::group_reader*>(&src)); op = std::make_unique<ops::take_group>(0, info, 0, ord, src.gm, sequence_view<tr::details::map_column const>(cols), 0, whole, std::move(down)); t.ready(*this, empty); } };
HARNESS(c45_flatten) { groups w(0); int id = 0; w.src.fill(3, 2, id); int stop = (int)sym_choose(4, "stop"); auto d = std::make_unique<rows_out>(w); auto& o = *d; if (stop == 1) o.yield_at = (int)sym_choose(5, "at"); if (stop == 2) o.abort_at = (int)sym_choose(3, "at"); bool whole = sym_choose(2, "whole"); if (stop == 3) { w.rq->info.rs = std::make_shared<stub_response>(); w.rq->info.rs->cancel = true; } w.start(std::make_unique<ops::flatten>(1, w.info, 0, std::move(d)), whole, whole && w.src.g.empty()); auto st = run_to_end(*w.op, w.t); std::vector<row> want; for (auto& g : w.src.g) for (auto& m : g.m) want.push_back({g.key, I(m.id), m.text});
    size_t n = want.size(); SYM_ASSERT(o.finished >= 1); if (stop == 3 && (n || (whole && w.src.g.empty()))) { SYM_ASSERT(st == OK::aborted && w.rq->err && o.got.empty()); return; } if (stop == 2 && (size_t)o.abort_at < n) { SYM_ASSERT(st == OK::aborted); n = (size_t)o.abort_at; } else SYM_ASSERT(st == OK::ok); SYM_ASSERT(o.got.size() == n); for (size_t i = 0; i < n; i++) sym_assert(same(o.got[i], want[i]), "records in order"); }
// aggregate functions that record what they are given and answer with the number of the call
struct seen_call { int fn; std::vector<std::vector<row>> args; }; static std::vector<seen_call> calls;
static data::any nth(data::value_store& s, size_t n) { return s.type().kind() == K::int4 ? [&] { auto it = s.begin<std::int32_t>(); while (n--) ++it; return it.is_null() ? data::any{} : I(*it); }() : [&] { auto it = s.begin<accessor::text>(); while (n--) ++it; if (it.is_null()) return data::any{}; auto tx = *it; std::string_view v(tx); auto* b = new std::string(v); return data::any{std::in_place_type<accessor::text>, accessor::text(b->data(), b->size())}; }(); }
static void answer(accessor::record_ref r, executor::function::field_locator const& l, std::int64_t v) { r.set_null(l.nullity_offset(), false); r.set_value<std::int64_t>(l.value_offset(), v); }
HARNESS(c45_aggregate) { groups w(2); calls.clear(); int id = 0; w.src.fill(QT(2, 3), QT(2, 3), id); using F = executor::function::aggregate_function_info; repo.clear(); for (int f = 0; f < 2; f++) repo.add((size_t)f + 7, std::make_shared<F>(executor::function::aggregate_function_kind{}, [f](accessor::record_ref r, executor::function::field_locator const& l) { answer(r, l, -1 - f); }, [f](accessor::record_ref r, executor::function::field_locator const& l, sequence_view<std::reference_wrapper<data::value_store> const> a) { seen_call c{f, {}}; for (auto& s : a) { std::vector<row> v; for (size_t i = 0; i < s.get().count(); i++) v.push_back({nth(s.get(), i)}); c.args.push_back(std::move(v)); } calls.push_back(std::move(c)); answer(r, l, (std::int64_t)calls.size()); }));
    using decl = yugawara::aggregate::declaration; auto f0 = std::make_shared<decl>(), f1 = std::make_shared<decl>(); f0->id = 7; f1->id = 8; std::vector<tr::details::aggregate_column> ac{{f0, {block::v(1), block::v(2)}, block::v(3)}, {f1, {block::v(2)}, block::v(4)}};
    int stop = (int)sym_choose(3, "stop"); auto d = std::make_unique<rows_out>(w); auto& o = *d; if (stop == 1) o.yield_at = (int)sym_choose(3, "at"); if (stop == 2) o.abort_at = (int)sym_choose(2, "at"); bool whole = sym_choose(2, "whole"); w.start(std::make_unique<ops::aggregate_group>(1, w.info, 0, sequence_view<tr::details::aggregate_column const>(ac), std::move(d)), whole, whole && w.src.g.empty()); auto st = run_to_end(*w.op, w.t);
    size_t n = w.src.g.size(); if (n == 0 && whole) { if (stop == 2 && o.abort_at == 0) { SYM_ASSERT(st == OK::aborted); return; } SYM_ASSERT(st == OK::ok && calls.empty() && o.got.size() == 1); SYM_ASSERT(o.got[0][3].to<std::int64_t>() == -1 && o.got[0][4].to<std::int64_t>() == -2); return; }
    if (stop == 2 && (size_t)o.abort_at < n) { SYM_ASSERT(st == OK::aborted); n = (size_t)o.abort_at; SYM_ASSERT(o.got.size() == n); } else { SYM_ASSERT(st == OK::ok); SYM_ASSERT(o.got.size() == n && calls.size() == 2 * n); SYM_ASSERT(o.finished >= 1); }
    for (size_t i = 0; i < n; i++) { auto& g = w.src.g[i]; auto &a = calls[2 * i], &b = calls[2 * i + 1]; SYM_ASSERT(a.fn == 0 && b.fn == 1 && a.args.size() == 2 && b.args.size() == 1); SYM_ASSERT(a.args[0].size() == g.m.size() && a.args[1].size() == g.m.size() && b.args[0].size() == g.m.size()); for (size_t k = 0; k < g.m.size(); k++) { SYM_ASSERT(same(a.args[0][k], row{I(g.m[k].id)})); sym_assert(sym_and(same(a.args[1][k], row{g.m[k].text}), same(b.args[0][k], row{g.m[k].text})), "arguments of the group"); } sym_assert(same(o.got[i][0], g.key), "key of the group"); SYM_ASSERT(o.got[i][3].to<std::int64_t>() == (std::int64_t)(2 * i + 1) && o.got[i][4].to<std::int64_t>() == (std::int64_t)(2 * i + 2)); } }

//@property C44
//@src src/jogasaki/executor/process/impl/ops/find.cpp src/jogasaki/executor/process/impl/ops/find_context.cpp src/jogasaki/executor/process/impl/ops/scan.cpp src/jogasaki/executor/process/impl/ops/scan_context.cpp src/jogasaki/executor/process/impl/ops/index_field_mapper.cpp src/jogasaki/executor/process/impl/ops/details/encode_key.cpp src/jogasaki/executor/process/impl/scan_range.cpp src/jogasaki/executor/process/impl/bound.cpp src/jogasaki/utils/convert_any.cpp src/jogasaki/utils/from_endpoint.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/index/primary_target.cpp src/jogasaki/index/secondary_target.cpp src/jogasaki/index/field_info.cpp src/jogasaki/index/field_factory.cpp src/jogasaki/index/utils.cpp src/jogasaki/index/index_accessor.cpp src/jogasaki/index/primary_context.cpp src/jogasaki/index/secondary_context.cpp    src/jogasaki/executor/process/impl/ops/context_base.cpp src/jogasaki/executor/process/impl/ops/context_container.cpp src/jogasaki/executor/process/impl/ops/context_helper.cpp src/jogasaki/executor/process/impl/ops/operator_base.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/executor/process/impl/work_context.cpp src/jogasaki/executor/process/abstract/task_context.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/handle_encode_errors.cpp src/jogasaki/utils/handle_generic_error.cpp src/jogasaki/utils/handle_kvs_errors.cpp src/jogasaki/utils/modify_status.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/request_statistics.cpp src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp
//@stubs
//@inc stubs_index stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c44_find quick=60 thorough=400 | point search through the primary or a secondary index (1..n key columns) of a table of 0..2 symbolic rows, symbolic search keys (NULL included), 4 schemas; downstream yields or aborts at any call
//@entry c44_scan_0 quick=60 thorough=400 | range search with every combination of bounds (none, inclusive, exclusive, lower, upper, both) on the first key column or the second below an equal first, 0..2 symbolic rows, ascending and descending, nullable and not; the scan itself or its downstream yields (schema 1 of 4)
//@entry c44_scan_1 quick=60 thorough=400 | range search with every combination of bounds (none, inclusive, exclusive, lower, upper, both) on the first key column or the second below an equal first, 0..2 symbolic rows, ascending and descending, nullable and not; the scan itself or its downstream yields (schema 2 of 4)
//@entry c44_scan_2 quick=60 thorough=400 | range search with every combination of bounds (none, inclusive, exclusive, lower, upper, both) on the first key column or the second below an equal first, 0..2 symbolic rows, ascending and descending, nullable and not; the scan itself or its downstream yields (schema 3 of 4)
//@entry c44_scan_3 quick=60 thorough=400 | range search with every combination of bounds (none, inclusive, exclusive, lower, upper, both) on the first key column or the second below an equal first, 0..2 symbolic rows, ascending and descending, nullable and not; the scan itself or its downstream yields (schema 4 of 4)
//@entry c44_join_find_0 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 1 of 3, inner and left outer)
//@entry c44_join_find_1 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 1 of 3, semi and anti)
//@entry c44_join_find_2 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 2 of 3, inner and left outer)
//@entry c44_join_find_3 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 2 of 3, semi and anti)
//@entry c44_join_find_4 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 3 of 3, inner and left outer)
//@entry c44_join_find_5 quick=60 thorough=400 | inner, left outer, semi and anti join of 1..2 left rows by keys with 0..2 right rows, with or without a condition (true, false or unknown) (schema 3 of 3, semi and anti)
//@entry c44_join_scan_0 quick=60 thorough=400 | the same joins by a range of keys (schema 1 of 3, inner and left outer)
//@entry c44_join_scan_1 quick=60 thorough=400 | the same joins by a range of keys (schema 1 of 3, semi and anti)
//@entry c44_join_scan_2 quick=60 thorough=400 | the same joins by a range of keys (schema 2 of 3, inner and left outer)
//@entry c44_join_scan_3 quick=60 thorough=400 | the same joins by a range of keys (schema 2 of 3, semi and anti)
//@entry c44_join_scan_4 quick=60 thorough=400 | the same joins by a range of keys (schema 3 of 3, inner and left outer)
//@entry c44_join_scan_5 quick=60 thorough=400 | the same joins by a range of keys (schema 3 of 3, semi and anti)
//@entry c44_gone quick=60 thorough=400 | an entry of the scan disappears or is being modified concurrently; both configurations
//@entry c44_cancel quick=30 thorough=60 | point and range search with and without a cancelled request
//@entry c44_fault quick=60 thorough=400 | one storage operation, an expression or the condition fails
#include <jogasaki/datastore/assign_lob_id.h>
#include "sym.h"
#include <jogasaki/executor/process/impl/ops/find.h>
#include "index_world.h"
#include <jogasaki/executor/process/impl/ops/scan.h>
#include <jogasaki/executor/process/impl/ops/index_join.h>
#include <jogasaki/executor/process/impl/ops/index_matcher.h>
#include <jogasaki/executor/process/impl/ops/details/encode_key.h>
#include <jogasaki/executor/process/impl/scan_range.h>
#include <jogasaki/executor/expr/error.h>
#include <jogasaki/utils/from_endpoint.h>
#include <jogasaki/utils/cancel_request.h>
namespace tr = takatori::relation; using EK = tr::endpoint_kind; using JK = tr::join_kind; using ops::operation_status_kind; using takatori::util::sequence_view; using key_list = takatori::tree::tree_fragment_vector<tr::details::search_key>;
status datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { return status::err_unsupported; }
static status entry_status[4]; static int entry_at = -1; // status of reading the entry delivered as number entry_at
void utils::cancel_request_impl(request_context& r, std::string_view, std::string_view) { set_error_context(r, error_code::request_canceled, "", status::request_canceled); if (r.tx) ++r.tx->aborted; }
bool utils::request_cancel_enabled(request_cancel_kind) noexcept { return true; }
// a scan delivers the entries between the bounds in the order of their keys
static bool starts(std::string const& k, std::string_view p) { return k.size() >= p.size() && sym_index_same(k.data(), p.data(), p.size()); }
static bool less(std::string_view a, std::string_view b) { return lex_lt(a.data(), a.size(), b.data(), b.size()); }
struct entries : kvs::iterator { kvs::content& c; std::vector<size_t> at; size_t pos = 0; explicit entries(kvs::content& x) : c(x) {}
    status next() override { if (kvs::fault::hit()) return kvs::fault::fail_status; if (pos >= at.size()) return status::not_found; ++pos; return status::ok; }
    status read_key(std::string_view& k) override { if (entry_at == (int)at[pos - 1]) return entry_status[0]; if (kvs::fault::hit()) return kvs::fault::fail_status; k = c.x[at[pos - 1]].first; return status::ok; }
    status read_value(std::string_view& v) override { if (kvs::fault::hit()) return kvs::fault::fail_status; v = c.x[at[pos - 1]].second; return status::ok; } };
std::unique_ptr<kvs::iterator> kvs::storage::open(content& c, std::string_view b, end_point_kind bk, std::string_view e, end_point_kind ek, std::size_t, bool) {
    auto r = std::make_unique<entries>(c); using P = end_point_kind;
    for (size_t i = 0; i < c.x.size(); i++) { auto& k = c.x[i].first; bool in = true;
        switch (bk) { case P::unbound: break; case P::inclusive: case P::prefixed_inclusive: in = !less(k, b); break; case P::exclusive: in = less(b, k); break; case P::prefixed_exclusive: in = sym_and(!less(k, b), !starts(k, b)); break; }
        switch (ek) { case P::unbound: break; case P::inclusive: in = sym_and(in, !less(e, k)); break; case P::exclusive: case P::prefixed_exclusive: in = sym_and(in, less(k, e)); break; case P::prefixed_inclusive: in = sym_and(in, sym_or(less(k, e), starts(k, e))); break; }
        if (in) { size_t p = 0; while (p < r->at.size() && less(c.x[r->at[p]].first, k)) ++p; r->at.insert(r->at.begin() + (long)p, i); } }
    return r; }
// expressions: a given value, or the value of a variable of the current block
struct given : takatori::scalar::expression { data::any v; data::any eval(im::variables_view const&) const override { return v; } };
static data::any load(accessor::const_record_ref r, meta::record_meta const& m, size_t f) { if (r.is_null(m.nullity_offset(f))) return {}; data::any a; rec::with(m.at(f).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::character || k == K::date || k == K::decimal || k == K::blob) a = data::any{std::in_place_type<runtime_t<k>>, r.get_value<runtime_t<k>>(m.value_offset(f))}; }); return a; }
struct from_var : takatori::scalar::expression { meta::record_meta const* m; size_t f; bool fail = false; data::any eval(im::variables_view const& v) const override { if (fail) return data::any{std::in_place_type<executor::expr::error>, executor::expr::error_kind::undefined}; return load(v.ref(), *m, f); } };
// the condition of a join: a value column is at least a constant; unknown for null
struct at_least : from_var { std::int64_t c; data::any eval(im::variables_view const& v) const override { if (fail) return data::any{std::in_place_type<executor::expr::error>, executor::expr::error_kind::overflow}; auto a = load(v.ref(), *m, f); if (a.empty()) return {}; return data::any{std::in_place_type<bool>, value(a) >= c}; }
    static std::int64_t value(data::any const& a) { return a.type_index() == data::any::index<std::int32_t> ? a.to<std::int32_t>() : a.to<std::int64_t>(); } };
// order of two non-null values of the same type
static bool lt(data::any const& a, data::any const& b) { if (a.type_index() == data::any::index<std::int32_t>) return a.to<std::int32_t>() < b.to<std::int32_t>(); if (a.type_index() == data::any::index<std::int64_t>) return a.to<std::int64_t>() < b.to<std::int64_t>();
    if (a.type_index() == data::any::index<takatori::datetime::date>) return a.to<takatori::datetime::date>().days_since_epoch() < b.to<takatori::datetime::date>().days_since_epoch(); if (a.type_index() == data::any::index<takatori::decimal::triple>) return a.to<takatori::decimal::triple>().coefficient_low() < b.to<takatori::decimal::triple>().coefficient_low();
    auto x = a.to<accessor::text>(), y = b.to<accessor::text>(); std::string_view p(x), q(y); return less(p, q); }
static bool same(data::any const& a, data::any const& b) { if (a.empty() || b.empty()) return a.empty() == b.empty(); bool r = false; rec::with(a.type_index() == data::any::index<std::int32_t> ? K::int4 : a.type_index() == data::any::index<std::int64_t> ? K::int8 : a.type_index() == data::any::index<takatori::datetime::date> ? K::date : a.type_index() == data::any::index<takatori::decimal::triple> ? K::decimal : a.type_index() == data::any::index<lob::blob_reference> ? K::blob : K::character, [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::character || k == K::date || k == K::decimal) { auto x = a.to<runtime_t<k>>(), y = b.to<runtime_t<k>>(); r = rec::same<k>(x, y); } else if constexpr (k == K::blob) r = a.to<lob::blob_reference>().object_id() == b.to<lob::blob_reference>().object_id(); }); return r; }
static bool same(row const& a, row const& b) { bool r = true; for (size_t i = 0; i < a.size(); i++) r = sym_and(r, same(a[i], b[i])); return r; }
static data::any keep(data::any const& a) { if (a.empty() || a.type_index() != data::any::index<accessor::text>) return a; auto t = a.to<accessor::text>(); std::string_view s(t); auto* b = new std::string(s); return data::any{std::in_place_type<accessor::text>, accessor::text(b->data(), b->size())}; }
struct task : executor::process::abstract::task_context { im::scan_range* r{}; executor::io::reader_container reader(reader_index) override { return {}; } executor::io::record_writer* downstream_writer(writer_index) override { return nullptr; } void deactivate_writer(writer_index) override {} executor::io::record_writer* external_writer() override { return nullptr; } class executor::process::abstract::range const* range() override { return r; } };
struct sink : ops::record_operator { std::vector<row> got; std::vector<size_t> fields; meta::record_meta const* m{}; int yield_at = -1, abort_at = -1, calls = 0, finished = 0; using record_operator::record_operator;
    ops::operator_kind kind() const noexcept override { return ops::operator_kind::emit; } void finish(executor::process::abstract::task_context*) override { ++finished; }
    ops::operation_status process_record(executor::process::abstract::task_context* c) override { int n = calls++; if (n == yield_at) return operation_status_kind::yield; if (n == abort_at) return operation_status_kind::aborted; ops::context_helper h{*c}; row r; auto ref = h.variable_table(0).store().ref(); for (auto f : fields) r.push_back(f == (size_t)-1 ? data::any{} : keep(load(ref, *m, f))); got.push_back(std::move(r)); return operation_status_kind::ok; } };
// one block: the columns of the table as output, then the variables the keys come from
struct search { world& w; size_t ix; executor::process::processor_info info; std::shared_ptr<meta::record_meta> m; std::vector<tr::details::map_column> cols; sink* out{}; std::unique_ptr<ops::record_operator> op; task tc; im::work_context* wk{}; std::vector<std::unique_ptr<from_var>> ex; std::vector<std::unique_ptr<given>> gv; std::unique_ptr<at_least> cond; size_t left0 = 0; std::vector<bool> used;
    explicit search(world& x, size_t i, std::vector<int> const& left = {}, std::vector<bool> use = {}) : w(x), ix(i), used(std::move(use)) { used.resize(w.t.cols.size(), true); std::vector<meta::field_type> ft; boost::dynamic_bitset<std::uint64_t> nl; im::variable_table_info::variable_indices vi; for (auto& c : w.t.cols) if (used[(size_t)c.id]) { vi[{300 + c.id}] = ft.size(); cols.push_back({{c.id}, {300 + c.id}}); ft.push_back(utils::type_for(c.type())); nl.push_back(true); }
        left0 = ft.size(); for (int c : left) { vi[{100 + (int)(ft.size() - left0)}] = ft.size(); ft.push_back(utils::type_for(w.t.cols[(size_t)c].type())); nl.push_back(true); } m = std::make_shared<meta::record_meta>(std::move(ft), std::move(nl)); info.blocks.reserve(1); info.blocks.emplace_back(vi, m, im::region_id{0}); }
    std::unique_ptr<sink> downstream() { auto s = std::make_unique<sink>(1, info, 0); s->m = m.get(); size_t f = 0; for (auto& c : w.t.cols) s->fields.push_back(used[(size_t)c.id] ? f++ : (size_t)-1); out = s.get(); return s; }
    ys::index const* second() { return ix ? w.idx[ix].get() : nullptr; }
    takatori::scalar::expression const* val(data::any v) { gv.push_back(std::make_unique<given>()); gv.back()->v = v; return gv.back().get(); }
    takatori::scalar::expression const* var(size_t f) { ex.push_back(std::make_unique<from_var>()); ex.back()->m = m.get(); ex.back()->f = left0 + f; return ex.back().get(); }
    tr::details::search_key key(size_t k, takatori::scalar::expression const* e) { return {{w.idx[ix]->k[k].c->id}, e}; }
    sequence_view<tr::details::map_column const> columns() { return sequence_view<tr::details::map_column const>(cols); }
    void ready(bool strand = false) { auto wc = std::make_unique<im::work_context>(w.rq.get(), 2, 1, std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_shared<kvs::database>(), w.rq->tx, false, strand); wk = wc.get(); for (auto& b : info.blocks) wc->variable_tables().emplace_back(b); tc.work_context(std::move(wc)); }
    operation_status_kind run(int limit = 6) { ops::operation_status st{}; do { st = op->process_record(&tc); } while (st.kind() == operation_status_kind::yield && --limit > 0); SYM_ASSERT(st.kind() != operation_status_kind::yield); sym_observe("status", (uint64_t)st.kind()); return st.kind(); }
    row shown(row r) { for (size_t i = 0; i < r.size(); i++) if (!used[i]) r[i] = {}; return r; }
    // every row delivered as often as the statement selects it, and nothing else
    void check(std::vector<row> const& rows, std::vector<bool> const& sel, bool nulls, bool upto = false) { sym_observe("rows", out->got.size()); row none(w.t.cols.size()); bool ok_all = true; size_t expect = nulls ? 1 : 0; for (bool s : sel) expect += sym_ite(s, 1, 0);
        if (!upto) sym_assert(out->got.size() == expect, "as many rows as match"); for (auto& g : out->got) { bool any = nulls ? same(g, none) : false; for (size_t i = 0; i < rows.size(); i++) any = sym_or(any, sym_and(sel[i], same(g, shown(rows[i])))); ok_all = sym_and(ok_all, any); } sym_assert(ok_all, "every delivered row matches");
        if (!upto) for (size_t i = 0; i < rows.size(); i++) { bool any = false; for (auto& g : out->got) any = sym_or(any, same(g, shown(rows[i]))); sym_assert(sym_or(!sel[i], any), "every matching row is delivered"); } }
};
static ys::column const& kcol(world& w, size_t ix, size_t k) { return *w.idx[ix]->k[k].c; }
static bool equal_prefix(world& w, size_t ix, row const& r, std::vector<data::any> const& key) { bool m = true; for (size_t k = 0; k < key.size(); k++) { auto& v = r[(size_t)kcol(w, ix, k).id]; if (key[k].empty() || v.empty()) return false; m = sym_and(m, same(key[k], v)); } return m; }
static data::any nullable_value(world& w, ys::column const& c) { return w.value(c, true); }
static world* fresh(int schema) { entry_at = -1; kvs_aborts = 0; auto* w = new world(schema); w->L = {2, 1, 2}; return w; }
static int schema_of(size_t n) { static const int S[] = {0, 1, 3, 2}; return S[n]; }
static size_t pick_index(world& w) { return sym_choose(w.idx.size(), "index"); }
HARNESS(c44_find) { auto& w = *fresh(schema_of(sym_choose(4, "schema"))); size_t ix = pick_index(w); auto n = ix ? 1 + sym_choose(w.idx[ix]->k.size(), "keys") : w.idx[ix]->k.size(); w.fill(2); int stop = w.rows.empty() ? 0 : (int)sym_choose(4, "stop"); search s(w, ix, {}, {true, (bool)(stop != 1)}); key_list ks; std::vector<data::any> key; for (size_t k = 0; k < n; k++) { key.push_back(nullable_value(w, kcol(w, ix, k))); ks.push_back(s.key(k, s.val(key.back()))); }
    s.op = std::make_unique<ops::find>(0, s.info, 0, ks, *w.idx[0], s.columns(), s.second(), s.downstream()); s.ready(stop == 1); s.out->yield_at = stop == 2 ? (int)sym_choose(2, "at") : -1; s.out->abort_at = stop == 3 ? 0 : -1;
    auto st = s.run(); std::vector<bool> sel; bool any = false; for (auto& r : w.rows) { sel.push_back(equal_prefix(w, ix, r, key)); any = sym_or(any, sel.back()); } if (stop == 3 && any) { SYM_ASSERT(st == operation_status_kind::aborted); SYM_ASSERT(s.out->got.empty()); return; } SYM_ASSERT(st == operation_status_kind::ok); SYM_ASSERT(!w.rq->err && w.rq->tx->aborted == 0); SYM_ASSERT(s.out->finished >= 1); s.check(w.rows, sel, false); }
// a range on key column `at`, the columns before it equal to given values
struct range_spec { size_t at; int lo, hi; std::vector<data::any> eq; data::any l, h; // lo, hi: 0 none, 1 inclusive, 2 exclusive
    static range_spec make(world& w, size_t ix) { range_spec r; r.at = sym_choose(w.idx[ix]->k.size(), "column"); size_t c = sym_choose(9, "bounds"); r.lo = (int)(c % 3); r.hi = (int)(c / 3); for (size_t k = 0; k < r.at; k++) r.eq.push_back(nullable_value(w, kcol(w, ix, k))); if (r.lo) r.l = nullable_value(w, kcol(w, ix, r.at)); if (r.hi) r.h = nullable_value(w, kcol(w, ix, r.at)); return r; }
    bool match(world& w, size_t ix, row const& r) const { bool m = equal_prefix(w, ix, r, eq); auto& v = r[(size_t)kcol(w, ix, at).id]; if ((lo && l.empty()) || (hi && h.empty())) return false; if ((lo || hi) && v.empty()) return false; if (lo) m = sym_and(m, lo == 1 ? !lt(v, l) : lt(l, v)); if (hi) m = sym_and(m, hi == 1 ? !lt(h, v) : lt(v, h)); return m; }
    // the end points as the query compiler gives them: a bound without its own column keeps the equal columns as prefix
    EK kind(int b, bool pref) const { if (b) return b == 1 ? EK::prefixed_inclusive : EK::prefixed_exclusive; return at == 0 && !pref ? EK::unbound : EK::prefixed_inclusive; }
    EK lkind() const { return kind(lo, false); } EK hkind() const { return kind(hi, false); } };
static im::bound bound_of(kvs::end_point_kind k, size_t n, std::unique_ptr<data::aligned_buffer> b) { return im::bound{k, n, std::move(b)}; }
static std::unique_ptr<im::scan_range> open_range(world& w, search& s, key_list const& lk, EK le, key_list const& hk, EK he) { auto res = std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()); executor::expr::evaluator_context ectx{res.get(), w.rq->tx.get()}; auto b = std::make_unique<data::aligned_buffer>(), e = std::make_unique<data::aligned_buffer>(); size_t bl = 0, el = 0; kvs::end_point_kind bk{}, ek{};
    auto st = ops::details::encode_scan_keys(ectx, w.rq.get(), ops::details::create_search_key_fields(*w.idx[s.ix], lk, s.info), utils::from(le), ops::details::create_search_key_fields(*w.idx[s.ix], hk, s.info), utils::from(he), im::variables_view{}, *res, *b, bl, bk, *e, el, ek); SYM_ASSERT(st == status::ok || st == status::err_integrity_constraint_violation);
    return std::make_unique<im::scan_range>(bound_of(bk, bl, std::move(b)), bound_of(ek, el, std::move(e)), st != status::ok); }
static void keys_of(search& s, range_spec const& r, key_list& lk, key_list& hk) { for (size_t k = 0; k < r.at; k++) { lk.push_back(s.key(k, s.val(r.eq[k]))); hk.push_back(s.key(k, s.val(r.eq[k]))); } if (r.lo) lk.push_back(s.key(r.at, s.val(r.l))); if (r.hi) hk.push_back(s.key(r.at, s.val(r.h))); }
static void run_scan(int schema, size_t rows) { auto& w = *fresh(schema); size_t ix = pick_index(w); auto r = range_spec::make(w, ix); w.fill(QT(r.lo && r.hi && (r.lo != 1 || r.hi != 2) ? (size_t)1 : rows, rows)); int stop = w.rows.empty() || (QT(true, false) && w.rows.size() == 2 && r.lo + r.hi > 0) ? 0 : (int)sym_choose(4, "stop"); search s(w, ix, {}, {true, (bool)(stop != 1)}); key_list lk, hk; keys_of(s, r, lk, hk);
    auto range = open_range(w, s, lk, r.lkind(), hk, r.hkind()); s.tc.r = range.get(); s.op = std::make_unique<ops::scan>(0, s.info, 0, *w.idx[0], s.columns(), s.second(), s.downstream()); s.ready(stop == 1); auto conf = global::config_pool(); conf->scan_block_size(stop == 1 ? 1 : 0); conf->scan_yield_interval(0); s.out->yield_at = stop == 2 ? (int)sym_choose(2, "at") : -1; s.out->abort_at = stop == 3 ? 0 : -1;
    auto st = s.run(); std::vector<bool> sel; bool any = false; for (auto& x : w.rows) { sel.push_back(r.match(w, ix, x)); any = sym_or(any, sel.back()); } if (stop == 3 && any) { SYM_ASSERT(st == operation_status_kind::aborted); SYM_ASSERT(s.out->got.empty()); return; } SYM_ASSERT(st == operation_status_kind::ok); SYM_ASSERT(!w.rq->err && w.rq->tx->aborted == 0); SYM_ASSERT(s.out->finished >= 1); s.check(w.rows, sel, false); }
HARNESS(c44_scan_0) { run_scan(schema_of(0), 2); }
HARNESS(c44_scan_1) { run_scan(schema_of(1), 2); }
HARNESS(c44_scan_2) { run_scan(schema_of(2), 2); }
HARNESS(c44_scan_3) { run_scan(schema_of(3), 2); }
static void put_left(search& s, std::vector<data::any> const& key) { auto ref = s.wk->variables(0).store().ref(); for (size_t i = 0; i < key.size(); i++) { size_t f = s.left0 + i; ref.set_null(s.m->nullity_offset(f), key[i].empty()); if (!key[i].empty()) rec::with(s.m->at(f).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::character || k == K::date || k == K::decimal) ref.set_value<runtime_t<k>>(s.m->value_offset(f), key[i].to<runtime_t<k>>()); }); } }
static JK joins[] = {JK::inner, JK::left_outer, JK::semi, JK::anti};
// one left row after the other through the same operator
static void check_left(world& w, search& s, JK jk, std::vector<bool> sel, operation_status_kind st) { bool any = false; for (auto& r : w.rows) { size_t i = (size_t)(&r - w.rows.data()); if (s.cond) { auto& v = r[(size_t)s.out->fields.size() > 0 ? 1 : 0]; sel[i] = v.empty() ? false : sym_and(sel[i], at_least::value(v) >= s.cond->c); } any = sym_or(any, sel[i]); }
    SYM_ASSERT(st == operation_status_kind::ok); SYM_ASSERT(!w.rq->err && w.rq->tx->aborted == 0); std::vector<bool> none(w.rows.size(), false); bool has = any; // decided before looking at the output
    switch (jk) { case JK::inner: s.check(w.rows, sel, false); break; case JK::left_outer: s.check(w.rows, sel, !has); break; case JK::semi: s.check(w.rows, none, has); break; default: s.check(w.rows, none, !has); break; } s.out->got.clear(); }
static void set_condition(world& w, search& s) { int f = w.t.cols[1].t == &t_ch ? -1 : 1; if (f < 0) sym_stop(); s.cond = std::make_unique<at_least>(); s.cond->m = s.m.get(); s.cond->f = (size_t)f; s.cond->c = (std::int32_t)sym_u32("condition"); }
template <class J> static void left_rows(world& w, search& s, JK jk, std::function<std::vector<bool>(std::vector<data::any> const&)> match, std::function<std::vector<data::any>()> make, bool few, bool one = false) { size_t n = one ? 1 : 1 + sym_choose(2, "left"); bool stop = sym_choose(2, "yield"); if (n == 2 && w.rows.size() == 2 && (QT(true, false) || stop || s.cond)) sym_stop(); if (QT(true, false) && few && (n == 2 || stop) && w.rows.size() == 2) sym_stop(); s.ready(stop); if (stop) s.out->yield_at = (int)sym_choose(2, "at");
    for (size_t i = 0; i < n; i++) { auto key = make(); put_left(s, key); auto st = s.run(); check_left(w, s, jk, match(key), st); } }
static void run_join_find(int schema, int half) { auto& w = *fresh(schema); size_t ix = pick_index(w); size_t n = ix ? 1 + sym_choose(w.idx[ix]->k.size(), "keys") : w.idx[ix]->k.size(); auto jk = joins[2 * half + (int)sym_choose(2, "kind")]; w.fill(2); std::vector<int> left; for (size_t k = 0; k < n; k++) left.push_back(kcol(w, ix, k).id); search s(w, ix, left); key_list ks; for (size_t k = 0; k < n; k++) ks.push_back(s.key(k, s.var(k))); if (sym_choose(2, "condition")) set_condition(w, s);
    s.op = std::make_unique<ops::join_find>(jk, 0, s.info, 0, *w.idx[0], s.columns(), ks, takatori::util::optional_ptr<takatori::scalar::expression const>(s.cond.get()), s.second(), s.downstream());
    left_rows<ops::join_find>(w, s, jk, [&](auto& key) { std::vector<bool> sel; for (auto& r : w.rows) sel.push_back(equal_prefix(w, ix, r, key)); return sel; }, [&] { std::vector<data::any> k; for (size_t i = 0; i < n; i++) k.push_back(nullable_value(w, kcol(w, ix, i))); return k; }, QT(true, false) && jk != JK::left_outer && jk != JK::inner); }
static void run_join_scan(int schema, int half) { auto& w = *fresh(schema); size_t ix = pick_index(w); size_t at = sym_choose(w.idx[ix]->k.size(), "column"); size_t c = sym_choose(9, "bounds"); int lo = (int)(c % 3), hi = (int)(c / 3); auto jk = joins[2 * half + (int)sym_choose(2, "kind")]; if (QT(true, false) && at > 0 && lo + hi > 1) sym_stop(); w.fill(QT((size_t)(lo + hi > 1 ? 1 : 2), (size_t)2)); std::vector<int> left; for (size_t k = 0; k < at; k++) left.push_back(kcol(w, ix, k).id); size_t fl = left.size(); if (lo) left.push_back(kcol(w, ix, at).id); size_t fh = left.size(); if (hi) left.push_back(kcol(w, ix, at).id);
    search s(w, ix, left); range_spec r; r.at = at; r.lo = lo; r.hi = hi; key_list lk, hk; for (size_t k = 0; k < at; k++) { lk.push_back(s.key(k, s.var(k))); hk.push_back(s.key(k, s.var(k))); } if (lo) lk.push_back(s.key(at, s.var(fl))); if (hi) hk.push_back(s.key(at, s.var(fh))); if (sym_choose(2, "condition")) set_condition(w, s);
    s.op = std::make_unique<ops::join_scan>(jk, 0, s.info, 0, *w.idx[0], s.columns(), lk, utils::from(r.lkind()), hk, utils::from(r.hkind()), takatori::util::optional_ptr<takatori::scalar::expression const>(s.cond.get()), s.second(), s.downstream());
    left_rows<ops::join_scan>(w, s, jk, [&](auto& key) { r.eq.assign(key.begin(), key.begin() + (long)at); if (lo) r.l = key[fl]; if (hi) r.h = key[fh]; std::vector<bool> sel; for (auto& x : w.rows) sel.push_back(r.match(w, ix, x)); return sel; }, [&] { std::vector<data::any> k; for (int cc : left) k.push_back(nullable_value(w, w.t.cols[(size_t)cc])); return k; }, true, QT(lo + hi > 0, false)); }
HARNESS(c44_join_find_0) { run_join_find(schema_of(0), 0); }
HARNESS(c44_join_find_1) { run_join_find(schema_of(0), 1); }
HARNESS(c44_join_find_2) { run_join_find(schema_of(1), 0); }
HARNESS(c44_join_find_3) { run_join_find(schema_of(1), 1); }
HARNESS(c44_join_find_4) { run_join_find(schema_of(2), 0); }
HARNESS(c44_join_find_5) { run_join_find(schema_of(2), 1); }
HARNESS(c44_join_scan_0) { run_join_scan(schema_of(0), 0); }
HARNESS(c44_join_scan_1) { run_join_scan(schema_of(0), 1); }
HARNESS(c44_join_scan_2) { run_join_scan(schema_of(1), 0); }
HARNESS(c44_join_scan_3) { run_join_scan(schema_of(1), 1); }
HARNESS(c44_join_scan_4) { run_join_scan(schema_of(2), 0); }
HARNESS(c44_join_scan_5) { run_join_scan(schema_of(2), 1); }
// one operator over a table of two rows, every row selected by the search: point search, range search and joins, through the primary index or a secondary one
struct all_rows { world& w; size_t ix; search s; key_list ks; std::unique_ptr<im::scan_range> range; std::vector<data::any> left; bool join, point; from_var* fail_key = nullptr;
    static std::vector<int> lefts(world& w, size_t ix) { std::vector<int> r; for (size_t k = 0; k < (ix ? 1 : w.idx[ix]->k.size()); k++) r.push_back(kcol(w, ix, k).id); return r; }
    all_rows(world& x, size_t i, int kind, JK jk, bool cond = false) : w(x), ix(i), s(x, i, kind >= 2 ? lefts(x, i) : std::vector<int>{}), join(kind >= 2), point(kind % 2 == 0) { auto cols = lefts(w, ix); for (size_t k = 0; k < cols.size(); k++) { auto v = w.rows[0][(size_t)cols[k]]; if (join) { left.push_back(v); ks.push_back(s.key(k, s.var(k))); fail_key = s.ex.back().get(); } else ks.push_back(s.key(k, s.val(v))); } if (cond) set_condition(w, s); takatori::util::optional_ptr<takatori::scalar::expression const> c(s.cond.get()); auto sec = s.second(); auto down = s.downstream();
        if (kind == 0) s.op = std::make_unique<ops::find>(0, s.info, 0, ks, *w.idx[0], s.columns(), sec, std::move(down)); else if (kind == 1) { range = open_range(w, s, ks, EK::prefixed_inclusive, ks, EK::prefixed_inclusive); s.tc.r = range.get(); s.op = std::make_unique<ops::scan>(0, s.info, 0, *w.idx[0], s.columns(), sec, std::move(down)); }
        else if (kind == 2) s.op = std::make_unique<ops::join_find>(jk, 0, s.info, 0, *w.idx[0], s.columns(), ks, c, sec, std::move(down)); else s.op = std::make_unique<ops::join_scan>(jk, 0, s.info, 0, *w.idx[0], s.columns(), ks, kvs::end_point_kind::prefixed_inclusive, ks, kvs::end_point_kind::prefixed_inclusive, c, sec, std::move(down)); s.ready(sym_choose(2, "strand")); if (join) put_left(s, left); }
    std::vector<bool> sel() { std::vector<bool> r; std::vector<data::any> k; for (int c : lefts(w, ix)) k.push_back(w.rows[0][(size_t)c]); for (auto& x : w.rows) r.push_back(equal_prefix(w, ix, x, k)); return r; } };
static world& two_rows(size_t n) { auto& w = *fresh(sym_choose(2, "schema") ? 3 : 0); auto full = [&] { row r; for (auto& c : w.t.cols) r.push_back(w.value(c, false)); return r; }; for (size_t i = 0; i < n; i++) { auto r = full(); for (auto& o : w.rows) sym_assume(!w.eq(w.key(0, o), w.key(0, r))); w.put(r); } return w; }
HARNESS(c44_gone) { auto& w = two_rows(2); size_t ix = sym_choose(2, "index"); int kind = (int)sym_choose(4, "operator"); auto jk = kind >= 2 ? joins[sym_choose(4, "join")] : JK::inner; auto c = global::config_pool(); bool flag = sym_choose(2, "as_not_found"); c->scan_concurrent_operation_as_not_found(flag); c->point_read_concurrent_operation_as_not_found(flag); bool conc = sym_choose(2, "concurrent"); auto st0 = conc ? status::concurrent_operation : status::not_found; bool point = kind % 2 == 0 && !ix;
    all_rows a(w, ix, kind, jk); auto sel = a.sel(); size_t victim = sym_choose(2, "victim"); if (point) { if (!conc || victim) sym_stop(); kvs::fault::fail_at = 0; kvs::fault::ops = 0; kvs::fault::fail_status = st0; } else { entry_at = (int)victim; entry_status[0] = st0; }
    auto st = a.s.run(); bool seen = sel[victim]; sel[victim] = false;
    bool early = (jk == JK::semi || jk == JK::anti) && sel[1 - victim] && st == operation_status_kind::ok; // decided by the other row before reaching this one
    if (seen && conc && !flag && !early) { SYM_ASSERT(st == operation_status_kind::aborted); SYM_ASSERT(w.rq->err && w.rq->err->status() == status::err_serialization_failure); SYM_ASSERT(kvs_aborts >= 1); return; }
    SYM_ASSERT(st == operation_status_kind::ok); SYM_ASSERT(!w.rq->err && kvs_aborts == 0); bool any = sym_or(sel[0], sel[1]); std::vector<bool> none(2, false); if (kind < 2 || jk == JK::inner) a.s.check(w.rows, sel, false); else if (jk == JK::left_outer) a.s.check(w.rows, sel, any ? false : true); else a.s.check(w.rows, none, (jk == JK::semi) == any); }
HARNESS(c44_fault) { auto& w = two_rows(1); size_t ix = sym_choose(2, "index"); int kind = (int)sym_choose(4, "operator"); auto jk = kind >= 2 ? joins[sym_choose(4, "join")] : JK::inner; static const status F[] = {status::err_serialization_failure, status::err_io_error, status::err_inactive_transaction}; int what = (int)sym_choose(kind >= 2 ? 7 : 5, "fault"); auto fs = what < 3 ? F[what] : what == 3 ? status::concurrent_operation : status::err_unknown; if (what == 3 && !ix) sym_stop();
    all_rows a(w, ix, kind, jk, what == 6); kvs::fault::ops = 0; kvs::fault::fail_status = fs; if (what < 3) kvs::fault::fail_at = (int)sym_choose(6, "at"); bool scan_first = kind % 2 == 1 || ix; if (what == 3) { kvs::fault::fail_at = kind == 0 ? 3 - 0 : 4; } if (what == 4) { if (!ix) sym_stop(); w.data[0].x.clear(); } if (what == 5) { if (!a.fail_key) sym_stop(); a.fail_key->fail = true; } if (what == 6) { a.s.cond->fail = true; }
    (void)scan_first; auto st = a.s.run(); sym_observe("got", a.s.out->got.size()); bool fault = what <= 3 ? kvs::fault::ops > kvs::fault::fail_at : true; if (what == 3 && fault) fs = status::concurrent_operation;
    if (!fault) { SYM_ASSERT(st == operation_status_kind::ok); SYM_ASSERT(!w.rq->err); a.s.check(w.rows, {jk != JK::semi && jk != JK::anti}, jk == JK::semi); return; }
    SYM_ASSERT(w.rq->err != nullptr); SYM_ASSERT(st == operation_status_kind::aborted); if (what <= 3) SYM_ASSERT(w.rq->err->status() == fs); if (what == 3) SYM_ASSERT(w.rq->err->code() == error_code::blocked_by_concurrent_operation_exception && kvs_aborts == 1); if (what == 4) SYM_ASSERT(w.rq->err->status() == status::err_inconsistent_index && kvs_aborts == 1); }
HARNESS(c44_cancel) { auto& w = two_rows(2); int kind = (int)sym_choose(2, "operator"); bool cancel = sym_choose(2, "cancel"); all_rows a(w, sym_choose(2, "index"), kind, JK::inner); w.rq->info.rs = std::make_shared<stub_response>(); w.rq->info.rs->cancel = cancel; auto st = a.s.run(); if (cancel) { SYM_ASSERT(st == operation_status_kind::aborted); SYM_ASSERT(w.rq->err && w.rq->err->status() == status::request_canceled); SYM_ASSERT(a.s.out->got.empty()); } else { SYM_ASSERT(st == operation_status_kind::ok); a.s.check(w.rows, a.sel(), false); } }

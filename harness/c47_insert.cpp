//@property C47
//@src src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/common/write_statement.cpp src/jogasaki/executor/wrt/fill_record_fields.cpp src/jogasaki/executor/process/impl/ops/write_create.cpp src/jogasaki/executor/process/impl/ops/write_create_context.cpp src/jogasaki/utils/validate_any_type.cpp src/jogasaki/index/primary_target.cpp src/jogasaki/index/secondary_target.cpp src/jogasaki/index/field_info.cpp src/jogasaki/index/field_factory.cpp src/jogasaki/index/utils.cpp src/jogasaki/index/primary_context.cpp src/jogasaki/index/secondary_context.cpp src/jogasaki/executor/wrt/insert_new_record.cpp src/jogasaki/executor/process/impl/ops/write_existing.cpp src/jogasaki/executor/process/impl/ops/write_existing_context.cpp src/jogasaki/executor/process/impl/ops/context_base.cpp src/jogasaki/executor/process/impl/ops/context_container.cpp src/jogasaki/executor/process/impl/ops/context_helper.cpp src/jogasaki/executor/process/impl/ops/operator_base.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/executor/process/impl/work_context.cpp src/jogasaki/executor/process/abstract/task_context.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/handle_encode_errors.cpp src/jogasaki/utils/handle_generic_error.cpp src/jogasaki/utils/handle_kvs_errors.cpp src/jogasaki/utils/modify_status.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/request_statistics.cpp src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp
//@stubs
//@inc stubs_index stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c47_insert quick=60 thorough=400 | INSERT of one row into a table of 0..1 rows: every column given (same or converted type, null, failing) or left to its default (none, constant, sequence, function), nullable or not, columns listed in any order
//@entry c47_tuples quick=60 thorough=400 | INSERT of 1..3 rows, the first of which may fail, a duplicate being an error or skipped
//@entry c47_create quick=60 thorough=400 | the same for rows computed by a query
//@entry c47_sequence quick=60 thorough=400 | 1..3 rows drawing from a sequence that is missing, exhausted at any row, or fails to record its use
#include "sym.h"
#include "index_world.h"
#include <jogasaki/executor/common/write_statement.h>
#include <jogasaki/executor/process/impl/ops/write_create.h>
#include <jogasaki/executor/wrt/fill_record_fields.h>
#include <jogasaki/executor/conv/create_default_value.h>
#include <jogasaki/executor/conv/assignment.h>
#include <jogasaki/executor/conv/unify.h>
#include <jogasaki/datastore/assign_lob_id.h>
#include <set>

std::unique_ptr<kvs::iterator> kvs::storage::open(content&, std::string_view, end_point_kind, std::string_view, end_point_kind, std::size_t, bool) { return {}; }
status datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { return status::err_unsupported; }
static bool conv_fails = false;
status executor::conv::conduct_assignment_conversion(tt::data const& s, tt::data const& t, data::any const& in, data::any& out, request_context& r, memory::lifo_paged_memory_resource*) { SYM_ASSERT(s.kind() == tt::type_kind::int4 && t.kind() == tt::type_kind::int8); if (conv_fails && !in.empty()) { set_error_context(r, error_code::value_evaluation_exception, "", status::err_expression_evaluation_failure); return status::err_expression_evaluation_failure; } if (in.empty()) out = {}; else out = data::any{std::in_place_type<std::int64_t>, (std::int64_t)in.to<std::int32_t>()}; return status::ok; }
status executor::conv::conduct_unifying_conversion(tt::data const&, tt::data const&, data::any const&, data::any&, memory::lifo_paged_memory_resource*) { SYM_ASSERT(false); return status::ok; }
data::any executor::conv::create_immediate_default_value(takatori::value::data const& v, tt::data const&, memory::lifo_paged_memory_resource*) { return v.a; }
std::shared_ptr<yugawara::function::configurable_provider> const& global::regular_function_provider(std::shared_ptr<yugawara::function::configurable_provider>) { static char d[8]; static std::shared_ptr<yugawara::function::configurable_provider> p{std::make_shared<int>(), reinterpret_cast<yugawara::function::configurable_provider*>(d)}; return p; }
struct expr : takatori::scalar::expression { std::function<data::any()> f; explicit expr(std::function<data::any()> x) : f(std::move(x)) {} data::any eval(im::variables_view const&) const override { return f(); } };
using DK = yugawara::storage::column_value_kind; using EC = error_code;
// where the value of a column comes from, and what goes wrong
enum origin { given, converted, failing, none, constant, sequence, function, function_bad };
struct ins : world { std::vector<origin> from{3}; executor::sequence::manager mgr; std::vector<std::unique_ptr<expr>> es; bool rev = false; memory::lifo_paged_memory_resource res{&global::page_pool()}; std::vector<row> rows_in; data::any fn; int fn_calls = 0;
    ins() : world(4) { from.resize(3); conv_fails = false; rq->seqs = &mgr; rq->db = std::make_shared<kvs::database>(); mgr.m[9].cur = (std::int64_t)(sym_u64("next") >> 20); executor::expr::single_function_evaluator::hook = [this](size_t id) { SYM_ASSERT(id == 5); ++fn_calls; return from[2] == function_bad ? data::any{std::in_place_type<std::int64_t>, 1} : fn; }; }
    void set(size_t c, origin o, bool nullable, bool null_const = false) { auto& k = t.cols[c]; from[c] = o; k.c = {{nullable}}; if (o == constant) { k.dv.k = DK::immediate; auto v = std::make_shared<takatori::value::data>(); if (!null_const) v->a = value(k, false); k.dv.i = v; } if (o == sequence) { k.dv.k = DK::sequence; auto s = std::make_shared<ys::sequence>(); s->d = 9; k.dv.s = s; } if (o == function || o == function_bad) { k.dv.k = DK::function; k.dv.f = std::make_shared<ys::default_function>(ys::default_function{5}); if (!null_const) fn = value(k, false); } }
    bool is_given(size_t c) const { return from[c] <= failing; }
    // the tuple: given values, int4 where converted
    row tuple() { row r(3); for (size_t c = 0; c < 3; c++) if (from[c] == given) r[c] = value(t.cols[c], true); else if (from[c] == converted && !sym_choose(2, "null")) r[c] = data::any{std::in_place_type<std::int32_t>, rec::val<K::int4>("int4")}; return r; }
    // the row it makes, and the errors that can be reported for it
    row made(row const& in, std::set<EC>& errors) { row r(3); for (size_t c = 0; c < 3; c++) { auto& k = t.cols[c]; switch (from[c]) { case given: r[c] = in[c]; break; case converted: if (conv_fails && !in[c].empty()) { errors.insert(EC::value_evaluation_exception); continue; } if (!in[c].empty()) r[c] = data::any{std::in_place_type<std::int64_t>, (std::int64_t)in[c].to<std::int32_t>()}; break; case failing: errors.insert(EC::value_evaluation_exception); continue; case none: break; case constant: r[c] = k.dv.i->a; break;
            case sequence: { auto it = mgr.m.find(9); if (it == mgr.m.end()) { errors.insert(EC::sql_execution_exception); continue; } if (it->second.left <= 0) { errors.insert(EC::value_evaluation_exception); continue; } if (mgr.notify_fails) { errors.insert(EC::sql_service_exception); continue; } r[c] = data::any{std::in_place_type<std::int64_t>, it->second.cur}; break; } case function: r[c] = fn; break; default: errors.insert(EC::invalid_runtime_value_exception); continue; }
            if (r[c].empty() && !k.c.nullity().nullable()) errors.insert(EC::not_null_constraint_violation_exception); } return r; }
    std::vector<size_t> listed() const { std::vector<size_t> l; for (size_t c = 0; c < 3; c++) if (is_given(c)) l.push_back(c); if (rev) std::reverse(l.begin(), l.end()); return l; }
    // rows one after the other as the model has them; true when the statement succeeds
    bool model(std::vector<row> const& in, W kind, std::set<EC>& errors) { auto m = mgr; bool ok = true; for (auto& x : in) { auto r = made(x, errors); if (from[0] == sequence && mgr.m.count(9)) { auto& s = mgr.m[9]; ++s.draws; if (s.left-- > 0) ++s.cur; ++mgr.notified; } if (!errors.empty()) { ok = false; break; } long at = find(r); if (at >= 0) { if (kind == W::insert_skip) continue; errors.insert(EC::unique_constraint_violation_exception); ok = false; break; } rows.push_back(r); } std::swap(m, mgr); after = m; return ok; }
    executor::sequence::manager after;
    void verify(bool ok, bool got, std::set<EC> const& errors) { sym_observe("ok", got); if (rq->err) sym_observe("error", (uint64_t)rq->err->code()); sym_assert(got == ok, "outcome of the insert"); sym_assert((rq->err != nullptr) == !ok, "error is reported"); if (!ok) { SYM_ASSERT(rq->tx->aborted >= 1); SYM_ASSERT(errors.count(rq->err->code()) == 1); } else SYM_ASSERT(rq->tx->aborted == 0); check(); if (mgr.m.count(9)) { SYM_ASSERT(mgr.m[9].draws == after.m[9].draws); SYM_ASSERT(mgr.notified >= mgr.m[9].draws); } }
    void statement(std::vector<row> const& in, W kind) { takatori::statement::write st; yugawara::compiled_info ci; auto l = listed(); for (auto c : l) st.c.push_back({(int)c}); for (auto& x : in) { takatori::statement::write::tuple tp; for (auto c : l) { auto v = x[c]; bool bad = from[c] == failing; es.push_back(std::make_unique<expr>([v, bad] { return bad ? data::any{std::in_place_type<executor::expr::error>, executor::expr::error_kind::overflow} : v; })); ci.etypes[es.back().get()] = from[c] == converted ? (tt::data const*)&t_i4 : t.cols[c].t; tp.l.e.push_back(es.back().get()); } st.t.push_back(tp); }
        std::set<EC> errors; executor::common::write_statement w(kind, *idx[0], st, res, ci, nullptr); bool ok = model(in, kind, errors), got = w(*rq); verify(ok, got, errors); }
    void create(std::vector<row> const& in, W kind);
};
static void columns(ins& w, bool query) { static const origin o0[] = {given, sequence, converted, failing}, o1[] = {given, converted, none, constant, failing}, o2[] = {given, none, constant, function, function_bad}; size_t a = sym_choose(query ? 3 : 4, "key"), b = sym_choose(query ? 4 : 5, "number"), c = sym_choose(5, "text"); bool n1 = sym_choose(2, "nullable"), n2 = sym_choose(2, "nullable"), nc = sym_choose(2, "null default"); w.set(0, o0[a], false); w.set(1, o1[b], n1, nc); w.set(2, o2[c], n2, nc); w.rev = sym_choose(2, "order"); if ((a == 2 || b == 1) && sym_choose(2, "conversion fails")) conv_fails = true; if (nc && o1[b] != constant && o2[c] != constant && o2[c] != function) sym_stop(); if (a && (o1[b] != given || o2[c] != given) && !(o1[b] == constant && o2[c] == function)) sym_stop(); }
HARNESS(c47_insert) { ins w; columns(w, false); if (sym_choose(2, "filled")) w.put(w.make()); auto r = w.tuple(); w.statement({r}, W::insert); }
static std::vector<row> several(ins& w, size_t max) { std::vector<row> in; for (size_t n = 1 + sym_choose(max, "tuples"); n > 0; n--) in.push_back(w.tuple()); return in; }
HARNESS(c47_tuples) { ins w; size_t m = sym_choose(3, "mode"); w.set(0, given, false); w.set(1, m ? constant : converted, m != 1); w.set(2, m == 2 ? given : function, m == 2); auto in = several(w, QT(2, 3)); for (auto& r : in) if (&r != &in[0]) sym_assume(!r[0].empty()); w.statement(in, sym_choose(2, "skip") ? W::insert_skip : W::insert); }
HARNESS(c47_sequence) { ins w; bool query = sym_choose(2, "query"); w.set(0, sequence, false); w.set(1, given, sym_choose(2, "nullable")); w.set(2, none, true); switch (sym_choose(4, "fault")) { case 0: break; case 1: w.mgr.m.clear(); break; case 2: w.mgr.m[9].left = (int)sym_choose(3, "left"); break; default: w.mgr.notify_fails = true; } auto in = several(w, QT(2, 3)); if (query) w.create(in, W::insert); else w.statement(in, W::insert); }
struct task : executor::process::abstract::task_context { executor::io::reader_container reader(reader_index) override { return {}; } executor::io::record_writer* downstream_writer(writer_index) override { return nullptr; } void deactivate_writer(writer_index) override {} executor::io::record_writer* external_writer() override { return nullptr; } class executor::process::abstract::range const* range() override { return nullptr; } };
void ins::create(std::vector<row> const& in, W kind) { executor::process::processor_info info; std::vector<meta::field_type> ft; im::variable_table_info::variable_indices vi; std::vector<takatori::relation::write::column> cs; auto l = listed(); for (auto c : l) { auto* ty = from[c] == converted ? (tt::data const*)&t_i4 : t.cols[c].t; vi[{300 + (int)c}] = ft.size(); ft.push_back(utils::type_for(*ty)); info.ci.types[{300 + (int)c}] = ty; cs.push_back({{300 + (int)c}, {(int)c}}); } boost::dynamic_bitset<std::uint64_t> nl(ft.size()); nl.flip(); auto m = std::make_shared<meta::record_meta>(std::move(ft), std::move(nl)); info.blocks.reserve(1); info.blocks.emplace_back(vi, m, im::region_id{0});
    ops::write_create op(0, info, 0, kind, *idx[0], takatori::util::sequence_view<takatori::relation::write::column const>(cs), &res); task tc; auto wc = std::make_unique<im::work_context>(rq.get(), 1, 1, std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_shared<kvs::database>(), rq->tx, false, false); auto* wk = wc.get(); wc->variable_tables().emplace_back(info.blocks[0]); tc.work_context(std::move(wc));
    std::set<EC> errors; bool ok = model(in, kind, errors), got = true; for (auto& x : in) { for (size_t i = 0; i < l.size(); i++) store(wk->variables(0).store().ref(), *m, i, x[l[i]]); auto st = op.process_record(&tc); SYM_ASSERT(st.kind() != ops::operation_status_kind::yield); if (st.kind() != ops::operation_status_kind::ok) { got = false; break; } } verify(ok, got, errors); op.finish(&tc); }
HARNESS(c47_create) { ins w; columns(w, true); bool filled = sym_choose(2, "filled"); if (filled) w.put(w.make()); auto in = std::vector<row>{w.tuple()}; w.create(in, filled && sym_choose(2, "skip") ? W::insert_skip : W::insert); }

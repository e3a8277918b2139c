//@property C46
//@src src/jogasaki/meta/external_record_meta.cpp src/jogasaki/utils/string_manipulation.cpp src/jogasaki/executor/process/impl/ops/filter.cpp src/jogasaki/executor/process/impl/ops/filter_context.cpp src/jogasaki/executor/process/impl/ops/project.cpp src/jogasaki/executor/process/impl/ops/project_context.cpp src/jogasaki/executor/process/impl/ops/values.cpp src/jogasaki/executor/process/impl/ops/values_context.cpp src/jogasaki/executor/process/impl/ops/buffer.cpp src/jogasaki/executor/process/impl/ops/buffer_context.cpp src/jogasaki/executor/process/impl/ops/take_flat.cpp src/jogasaki/executor/process/impl/ops/take_flat_context.cpp src/jogasaki/executor/process/impl/ops/emit.cpp src/jogasaki/executor/process/impl/ops/emit_context.cpp src/jogasaki/executor/process/impl/ops/offer.cpp src/jogasaki/executor/process/impl/ops/offer_context.cpp src/jogasaki/executor/process/impl/ops/apply.cpp src/jogasaki/executor/process/impl/ops/apply_context.cpp src/jogasaki/executor/function/table_valued_function_info.cpp src/jogasaki/data/any_sequence.cpp src/jogasaki/meta/variable_order.cpp src/jogasaki/meta/group_meta.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/process/impl/ops/context_base.cpp src/jogasaki/executor/process/impl/ops/context_container.cpp src/jogasaki/executor/process/impl/ops/context_helper.cpp src/jogasaki/executor/process/impl/ops/operator_base.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/executor/process/impl/work_context.cpp src/jogasaki/executor/process/abstract/task_context.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/data/any.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/data/record_store.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp
//@stubs
//@inc stubs_index stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c46_filter quick=60 thorough=400 | 1..2 records; the condition compares a column with any bound (true, false or unknown) or fails; downstream suspends or aborts at any call
//@entry c46_project quick=60 thorough=400 | two computed columns over 1..2 records, null, failing or of another type; downstream suspends or aborts at any call
//@entry c46_values quick=60 thorough=400 | 0..3 rows of two columns, null, failing or of a type to be converted; downstream suspends or aborts at any call; cancellation
//@entry c46_buffer quick=60 thorough=400 | 1..3 downstream operators, 1..2 records; any of them suspends or aborts at any call
//@entry c46_take quick=60 thorough=400 | up to 3 records arriving at any time relative to the reads, columns in any order; downstream suspends or aborts at any call; cancellation
//@entry c46_emit quick=60 thorough=400 | 1..2 records, columns repeated or generated; writer missing or failing
//@entry c46_offer quick=60 thorough=400 | 1..2 records, columns in any order, same or converted types, conversion or writer failing
//@entry c46_apply quick=60 thorough=400 | 1..2 records; a function yielding 0..2 rows, not ready at any call, ending or failing anywhere; cross and outer; downstream suspends or aborts at any call; cancellation
#include "sym.h"
#include "op_world.h"
#include <jogasaki/executor/process/impl/ops/filter.h>
#include <jogasaki/executor/process/impl/ops/project.h>
#include <jogasaki/executor/process/impl/ops/values.h>
#include <jogasaki/executor/process/impl/ops/buffer.h>
#include <jogasaki/executor/process/impl/ops/take_flat.h>
#include <jogasaki/executor/process/impl/ops/emit.h>
#include <jogasaki/executor/process/impl/ops/offer.h>
#include <jogasaki/executor/process/impl/ops/apply.h>
#include <jogasaki/executor/expr/lob_processing.h>
#include <jogasaki/executor/conv/unify.h>
#include <jogasaki/executor/conv/assignment.h>

static bool conversion_fails; static int lob_calls, lob_fail_at;
status executor::conv::conduct_unifying_conversion(tt::data const& s, tt::data const& d, data::any const& in, data::any& out, memory::lifo_paged_memory_resource*) { SYM_ASSERT(utils::type_for(s).kind() == K::int4 && utils::type_for(d).kind() == K::int8); if (conversion_fails) return status::err_expression_evaluation_failure; out = in.empty() ? data::any{} : data::any{std::in_place_type<std::int64_t>, in.to<std::int32_t>()}; return status::ok; }
status executor::conv::conduct_assignment_conversion(tt::data const&, tt::data const&, data::any const&, data::any&, request_context&, memory::lifo_paged_memory_resource*) { SYM_ASSERT(false); return status::ok; }
static data::any lob_step(data::any in) { return lob_calls++ == lob_fail_at ? failing() : in; }
data::any executor::expr::pre_process_if_lob(data::any in, evaluator_context&) { return lob_step(in); } data::any executor::expr::post_process_if_lob(data::any in, evaluator_context&) { return lob_step(in); }
static data::any L(std::int64_t v) { return data::any{std::in_place_type<std::int64_t>, v}; }
static const types two{&t_i4, &t_ch};
// the records an operator is called with
struct caller : block { task t; std::vector<row> in; OK last = OK::ok; explicit caller(types ty, size_t max = 2, size_t given = 2) : block(std::move(ty)) { conversion_fails = false; lob_calls = 0; lob_fail_at = -1; for (size_t n = max ? 1 + sym_choose(max, "records") : 0; n > 0; n--) { row r; for (size_t i = 0; i < this->ty.size(); i++) r.push_back(i < given ? value(*this->ty[i], in.empty()) : data::any{}); in.push_back(r); } }
    // false when the operator ends as aborted
    template <class O> bool pass(O& op, size_t i) { ops::context_helper h{t}; for (size_t f = 0; f < ty.size(); f++) store(h.variable_table(0).store().ref(), *m, f, in[i][f]); last = run_to_end(op, t); if (last == OK::aborted) SYM_ASSERT(op.process_record(&t).kind() == OK::aborted); return last == OK::ok; } };
static void interrupt(interruption& o, int& stop, size_t at) { stop = (int)sym_choose(3, "stop"); if (stop == 1) o.yield_at = (int)sym_choose(at, "at"); if (stop == 2) o.abort_at = (int)sym_choose(at, "at"); }
HARNESS(c46_filter) { caller w(two); std::int32_t bound = (std::int32_t)sym_u32("bound"); std::vector<size_t> tv; for (size_t i = 0; i < w.in.size(); i++) tv.push_back(sym_choose(2, "fails")); size_t cur = 0; int evals = 0; expr e([&](im::variables_view const& v) -> data::any { ++evals; sym_assert(same(load(v.ref(), *w.m), w.in[cur]), "condition sees the record"); if (tv[cur]) return failing(); return w.in[cur][0].empty() ? data::any{} : data::any{std::in_place_type<bool>, w.in[cur][0].to<std::int32_t>() < bound}; });
    auto d = std::make_unique<rows_out>(w); auto& o = *d; int stop; interrupt(o, stop, 2); ops::filter op(0, w.info, 0, e, std::move(d)); w.t.ready(w); std::vector<row> want; bool failed = false, aborted = false;
    for (cur = 0; cur < w.in.size(); cur++) { bool more = w.pass(op, cur); SYM_ASSERT(evals == (int)cur + 1); if (tv[cur]) failed = true; else if (!w.in[cur][0].empty() && w.in[cur][0].to<std::int32_t>() < bound) { if (stop == 2 && (size_t)o.abort_at == want.size()) aborted = true; else want.push_back(w.in[cur]); } SYM_ASSERT(more == !(failed || aborted)); if (!more) break; }
    SYM_ASSERT((w.rq->err != nullptr) == failed); SYM_ASSERT(o.got.size() == want.size()); for (size_t i = 0; i < want.size(); i++) sym_assert(same(o.got[i], want[i]), "record passed on"); op.finish(&w.t); SYM_ASSERT(o.finished == 1); op.finish(nullptr); SYM_ASSERT(o.finished == 1); }
HARNESS(c46_project) { caller w({&t_i4, &t_ch, &t_i8, &t_ch}); std::vector<size_t> mode; for (size_t i = 0; i < w.in.size(); i++) mode.push_back(sym_choose(4, "mode")); size_t cur = 0; int evals = 0; auto at = [&](im::variables_view const& v, size_t f) { return load(v.ref(), *w.m, f); };
    auto num = [&]() -> data::any { return mode[cur] == 1 || w.in[cur][0].empty() ? data::any{} : L((std::int64_t)w.in[cur][0].to<std::int32_t>() * 2); };
    expr e0([&](im::variables_view const& v) -> data::any { ++evals; sym_assert(same(at(v, 0), w.in[cur][0]), "expression sees the record"); return mode[cur] == 2 ? failing() : num(); }), e1([&](im::variables_view const& v) -> data::any { ++evals; sym_assert(same(at(v, 2), num()), "later columns see earlier ones"); return mode[cur] == 3 ? failing() : at(v, 1); }); takatori::tree::tree_fragment_vector<tr::project::column> pc; pc.push_back({block::v(2), &e0}); pc.push_back({block::v(3), &e1}); w.info.ci.etypes[&e0] = &t_i8; w.info.ci.etypes[&e1] = &t_ch;
    auto d = std::make_unique<rows_out>(w); auto& o = *d; int stop; interrupt(o, stop, 2); ops::project op(0, w.info, 0, pc, std::move(d)); w.t.ready(w); std::vector<row> want; bool failed = false, aborted = false;
    for (cur = 0; cur < w.in.size(); cur++) { evals = 0; bool more = w.pass(op, cur); failed = mode[cur] >= 2; SYM_ASSERT(evals == (mode[cur] == 2 ? 1 : 2)); if (!failed) { if (stop == 2 && (size_t)o.abort_at == want.size()) aborted = true; else want.push_back({w.in[cur][0], w.in[cur][1], num(), w.in[cur][1]}); } SYM_ASSERT(more == !(failed || aborted)); if (!more) break; }
    SYM_ASSERT((w.rq->err != nullptr) == failed); SYM_ASSERT(o.got.size() == want.size()); for (size_t i = 0; i < want.size(); i++) sym_assert(same(o.got[i], want[i]), "computed columns"); op.finish(&w.t); SYM_ASSERT(o.finished == 1); }
HARNESS(c46_values) { caller w({&t_i8, &t_ch}, 0); size_t n = sym_choose(4, "rows"); std::vector<std::unique_ptr<expr>> es; tr::values node; node.c = {block::v(0), block::v(1)}; std::vector<row> rows; std::vector<size_t> mode; int evals = 0; size_t bad = n; bool conv = false; conversion_fails = sym_choose(2, "conversion fails");
    for (size_t i = 0; i < n; i++) { size_t md = sym_choose(4, "mode"); data::any a = value(md == 1 ? (tt::data const&)t_i4 : t_i8, i == 0), b = value(t_ch, i == 0); bool f0 = md == 2, f1 = md == 3; es.push_back(std::make_unique<expr>([&evals, a, f0](im::variables_view const& v) { ++evals; SYM_ASSERT(!v); return f0 ? failing() : a; })); es.push_back(std::make_unique<expr>([&evals, b, f1](im::variables_view const&) { ++evals; return f1 ? failing() : b; })); w.info.ci.etypes[es[2 * i].get()] = md == 1 ? (tt::data const*)&t_i4 : &t_i8; w.info.ci.etypes[es[2 * i + 1].get()] = &t_ch; tr::values::element_list el; el.e = {es[2 * i].get(), es[2 * i + 1].get()}; node.r.push_back(el);
        if (bad == n && (f0 || f1 || (md == 1 && conversion_fails))) { bad = i; conv = md == 1; } rows.push_back({md == 1 && !a.empty() ? L(a.to<std::int32_t>()) : a, b}); }
    auto d = std::make_unique<rows_out>(w); auto& o = *d; int stop; interrupt(o, stop, 3); bool cancel = stop == 0 && sym_choose(2, "cancel"); if (cancel) { w.rq->info.rs = std::make_shared<stub_response>(); w.rq->info.rs->cancel = true; } ops::values op(0, w.info, 0, node, std::move(d)); w.t.ready(w); auto st = run_to_end(op, w.t); size_t end = bad; bool failed = bad < n; if (stop == 2 && (size_t)o.abort_at < end) { end = (size_t)o.abort_at; failed = false; SYM_ASSERT(st == OK::aborted); } else if (cancel && n) { SYM_ASSERT(st == OK::aborted && w.rq->err && o.got.empty() && o.finished == 1); return; } else SYM_ASSERT(st == (failed ? OK::aborted : OK::ok));
    if (!(failed && conv)) SYM_ASSERT((w.rq->err != nullptr) == failed); SYM_ASSERT(o.finished == 1); SYM_ASSERT(o.got.size() == end); if (!failed && stop != 2) SYM_ASSERT(evals == (int)(2 * n)); for (size_t i = 0; i < end; i++) sym_assert(same(o.got[i], rows[i]), "row of the list"); }
HARNESS(c46_buffer) { caller w(two); size_t k = 1 + sym_choose(3, "downstreams"); std::vector<std::unique_ptr<ops::operator_base>> ds; std::vector<rows_out*> o; for (size_t i = 0; i < k; i++) { auto d = std::make_unique<rows_out>(w); o.push_back(d.get()); ds.push_back(std::move(d)); } bool ab = sym_choose(2, "abort"); size_t who = sym_choose(k, "who"); if (ab) o[who]->abort_at = (int)sym_choose(2, "at"); for (size_t i = 0; i < k; i++) if (i != who || !ab) o[i]->yield_at = (int)sym_choose(3, "at") - 1;
    ops::buffer op(0, w.info, 0, std::move(ds)); w.t.ready(w); size_t full = 0; bool aborted = false; for (size_t i = 0; i < w.in.size(); i++) { bool more = w.pass(op, i); if (ab && o[who]->abort_at == (int)i) { SYM_ASSERT(!more); aborted = true; break; } SYM_ASSERT(more); ++full; }
    for (size_t i = 0; i < k; i++) { SYM_ASSERT(o[i]->got.size() == full + (aborted && i < who)); for (size_t r = 0; r < o[i]->got.size(); r++) sym_assert(same(o[i]->got[r], w.in[r]), "every operator gets the record"); } op.finish(&w.t); for (auto* x : o) SYM_ASSERT(x->finished == 1); }
static meta::variable_order flat_order(bool rev) { std::vector<var> c{{10}, {11}}; if (rev) std::swap(c[0], c[1]); return meta::variable_order{meta::variable_ordering_enum_tag<meta::variable_ordering_kind::flat_record>, sequence_view<var const>(c)}; }
// records written by a concurrent producer at any time between the calls of the reader
struct arriving : executor::io::record_reader { std::shared_ptr<meta::record_meta> m; std::vector<row> rows; size_t avail = 0, pos = 0; bool open = true; int released = 0, lag; std::vector<std::unique_ptr<data::small_record_store>> s; void produce() { if (!open) return; size_t left = rows.size() - avail; size_t k = lag > 0 ? sym_choose(left + 2, "arrive") : left + 1; if (lag > 0) --lag; if (k > left) { avail = rows.size(); open = false; } else avail += k; }
    bool available() const override { return pos < avail; } bool next_record() override { produce(); if (pos >= avail) return false; s.push_back(std::make_unique<data::small_record_store>(m)); for (size_t f = 0; f < m->field_count(); f++) store(s.back()->ref(), *m, f, rows[pos][f]); ++pos; return true; } accessor::record_ref get_record() const override { return s.back()->ref(); } void release() override { ++released; } bool source_active() const noexcept override { const_cast<arriving*>(this)->produce(); return open; } };
HARNESS(c46_take) { caller w(two, 0); bool rev = sym_choose(2, "order"); types st = rev ? types{&t_ch, &t_i4} : two; arriving src; src.m = meta_of(st); src.lag = QT(3, 5); size_t n = sym_choose(4, "records"); std::vector<row> want; for (size_t i = 0; i < n; i++) { row r{value(t_i4, i == 0), value(t_ch, i == 0)}; want.push_back(r); src.rows.push_back(rev ? row{r[1], r[0]} : r); } std::vector<tr::details::map_column> cols{{{11}, block::v(1)}, {{10}, block::v(0)}}; auto ord = flat_order(rev);
    auto d = std::make_unique<rows_out>(w); auto& o = *d; int stop; interrupt(o, stop, 3); bool cancel = stop == 0 && sym_choose(2, "cancel"); if (cancel) { w.rq->info.rs = std::make_shared<stub_response>(); w.rq->info.rs->cancel = true; } w.t.in.emplace_back(&src); ops::take_flat op(0, w.info, 0, ord, src.m, sequence_view<tr::details::map_column const>(cols), 0, std::move(d)); w.t.ready(w); auto k = run_to_end(op, w.t);
    SYM_ASSERT(o.finished == 1); SYM_ASSERT(src.released >= 1); size_t end = n; if (cancel && n) { SYM_ASSERT(k == OK::aborted && w.rq->err); end = 0; } else { bool ab = stop == 2 && (size_t)o.abort_at < n; SYM_ASSERT(k == (ab ? OK::aborted : OK::ok)); if (ab) end = (size_t)o.abort_at; SYM_ASSERT(!w.rq->err); } SYM_ASSERT(o.got.size() == end); for (size_t i = 0; i < end; i++) sym_assert(same(o.got[i], want[i]), "record taken"); }
struct writer : executor::io::record_writer { std::shared_ptr<meta::record_meta> m; std::vector<row> got; int fail_at = -1, calls = 0, released = 0; bool write(accessor::record_ref r) override { if (calls++ == fail_at) return false; got.push_back(load(r, *m)); return true; } void flush() override {} void release() override { ++released; } };
HARNESS(c46_emit) { caller w(two); std::vector<tr::emit::column> c; std::vector<size_t> src; std::vector<std::string> names; for (size_t n = 1 + sym_choose(3, "columns"); n > 0; n--) { size_t s = sym_choose(2, "column"); switch (sym_choose(4, "name")) { case 0: c.push_back({block::v(s), std::nullopt}); src.push_back(s); names.push_back(""); break; case 1: c.push_back({block::v(s), std::string()}); src.push_back(s); names.push_back(""); break; case 2: c.push_back({block::v(s), std::string("C") + char('0' + n)}); src.push_back(s); names.push_back(*c.back().n); break; default: c.push_back({block::v(s), std::string(generated_pkey_column_prefix) + "_T"}); } }
    ops::emit op(0, w.info, 0, sequence_view<tr::emit::column const>(c)); auto& em = *op.meta(); SYM_ASSERT(em.field_count() == src.size() && em.origin()->field_count() == src.size()); for (size_t i = 0; i < src.size(); i++) { SYM_ASSERT(em.at(i).kind() == utils::type_for(*two[src[i]]).kind()); SYM_ASSERT(em.field_name(i).value_or("") == names[i] && em.field_name(i).has_value() == !names[i].empty()); SYM_ASSERT(em.origin()->nullable(i)); }
    writer wr; wr.m = meta_of([&] { types t; for (auto s : src) t.push_back(two[s]); return t; }()); size_t fail = sym_choose(4, "failure"); if (fail != 3) w.t.ext = &wr; if (fail < 2) wr.fail_at = (int)fail; w.t.ready(w); size_t done = 0; for (size_t i = 0; i < w.in.size(); i++) { bool more = w.pass(op, i), bad = fail == 3 || (fail < 2 && fail == i); SYM_ASSERT(more == !bad); SYM_ASSERT((w.rq->err != nullptr) == bad); if (bad) break; ++done; }
    SYM_ASSERT(wr.got.size() == done); for (size_t i = 0; i < done; i++) { row x; for (auto s : src) x.push_back(w.in[i][s]); sym_assert(same(wr.got[i], x), "row written to the client"); } op.finish(&w.t); }
HARNESS(c46_offer) { caller w(two); bool rev = sym_choose(2, "order"), wide = sym_choose(2, "converted"); conversion_fails = wide && sym_choose(2, "conversion fails"); auto ord = flat_order(rev); types mt{wide ? (tt::data const*)&t_i8 : &t_i4, &t_ch}; w.info.ci.types[{10}] = mt[0]; w.info.ci.types[{11}] = mt[1]; if (rev) std::swap(mt[0], mt[1]); writer wr; wr.m = meta_of(mt); size_t fail = sym_choose(3, "failure"); if (fail < 2) wr.fail_at = (int)fail; w.t.down = &wr; std::vector<tr::details::map_column> cols{{block::v(1), {11}}, {block::v(0), {10}}};
    ops::offer op(0, w.info, 0, ord, wr.m, sequence_view<tr::details::map_column const>(cols), 0); w.t.ready(w); size_t done = 0; for (size_t i = 0; i < w.in.size(); i++) { bool more = w.pass(op, i), bad = conversion_fails || fail == i; SYM_ASSERT(more == !bad); SYM_ASSERT((w.rq->err != nullptr) == bad); if (bad) break; ++done; }
    SYM_ASSERT(wr.got.size() == done); for (size_t i = 0; i < done; i++) { data::any a = w.in[i][0]; if (wide && !a.empty()) a = L(a.to<std::int32_t>()); row x{a, w.in[i][1]}; if (rev) std::swap(x[0], x[1]); sym_assert(same(wr.got[i], x), "record sent to the exchange"); } op.finish(&w.t); SYM_ASSERT(w.t.deactivated == 1); }
// table valued functions
struct script { std::vector<row> rows; int not_ready = 0; int fail_at = -1; bool with_error = false, null_stream = false; }; static int opened, closed, live;
struct stream : data::any_sequence_stream { script s; size_t pos = 0; int calls = 0; bool done = false; explicit stream(script x) : s(std::move(x)) { ++opened; ++live; } ~stream() override { --live; } status_type try_next(data::any_sequence& q) override { SYM_ASSERT(!done); if (s.not_ready > 0 && sym_choose(2, "not ready")) { --s.not_ready; return status_type::not_ready; } if ((int)pos == s.fail_at) { if (s.with_error) q.error(error::stub_error(error_code::unsupported_runtime_feature_exception, status::err_unsupported)); return status_type::error; } if (pos == s.rows.size()) return status_type::end_of_stream; q = data::any_sequence{s.rows[pos++]}; return status_type::ok; } status_type next(data::any_sequence&, std::optional<std::chrono::milliseconds>) override { SYM_ASSERT(false); return {}; } void close() override { ++closed; done = true; } };
HARNESS(c46_apply) { caller w({&t_i4, &t_ch, &t_i8}, 2, 1); opened = closed = live = 0; bool outer = sym_choose(2, "outer"); global::config_pool()->apply_max_polls(sym_choose(2, "polls")); std::vector<script> sc(w.in.size()); size_t trouble = sym_choose(6, "trouble"), where = sym_choose(w.in.size(), "where"); for (size_t i = 0; i < sc.size(); i++) { for (size_t k = sym_choose(3, "rows"); k > 0; k--) sc[i].rows.push_back({value(t_i8, i == 0 && k == 1), {}, value(t_ch, false)}); if (i == 0) sc[i].not_ready = 2; } auto& bad = sc[where]; bool fail_arg = trouble == 1; if (trouble == 2 || trouble == 3) { bad.fail_at = (int)sym_choose(bad.rows.size() + 1, "fail"); bad.with_error = trouble == 3; } if (trouble == 4) bad.null_stream = true; if (trouble == 5) { w.rq->info.rs = std::make_shared<stub_response>(); w.rq->info.rs->cancel = true; }
    size_t cur = 0; expr e([&](im::variables_view const& v) { return fail_arg && cur == where ? failing() : load(v.ref(), *w.m, 0); }); executor::function::table_valued_function_info fi{executor::function::table_valued_function_kind{}, [&](executor::expr::evaluator_context&, sequence_view<data::any> a) -> std::unique_ptr<data::any_sequence_stream> { SYM_ASSERT(a.size() == 1); sym_assert(same(a[0], w.in[cur][0]), "argument of the function"); if (sc[cur].null_stream) return {}; return std::make_unique<stream>(sc[cur]); }, 1};
    std::vector<tr::details::apply_column> cols{{2, block::v(1)}, {0, block::v(2)}}; std::vector<executor::expr::evaluator> args{executor::expr::evaluator{e, w.info.ci}}; auto d = std::make_unique<rows_out>(w); auto& o = *d; int stop = 0; if (trouble == 0) interrupt(o, stop, 4); ops::apply op(0, w.info, 0, outer ? tr::apply_kind::outer : tr::apply_kind::cross, &fi, cols, args, std::move(d)); w.t.ready(w); std::vector<row> want; bool failed = false, aborted = false;
    for (cur = 0; cur < w.in.size(); cur++) { bool more = w.pass(op, cur); auto& s = sc[cur]; bool here = cur == where; if (trouble == 5) failed = true; else if (here && (trouble == 1 || trouble == 4)) failed = true; else { std::vector<row> out; for (size_t k = 0; k < s.rows.size() && (int)k != s.fail_at; k++) out.push_back({w.in[cur][0], s.rows[k][2], s.rows[k][0]}); if (s.fail_at >= 0) failed = true; else if (s.rows.empty() && outer) out.push_back({w.in[cur][0], {}, {}}); for (auto& x : out) { if (stop == 2 && (size_t)o.abort_at == want.size()) { aborted = true; break; } want.push_back(x); } } SYM_ASSERT(more == !(failed || aborted)); if (!more) break; if (!failed) SYM_ASSERT(live == 0); }
    SYM_ASSERT((w.rq->err != nullptr) == failed); if (failed && trouble == 3) SYM_ASSERT(w.rq->err->code() == error_code::unsupported_runtime_feature_exception); SYM_ASSERT(o.got.size() == want.size()); for (size_t i = 0; i < want.size(); i++) sym_assert(same(o.got[i], want[i]), "row of the function"); op.finish(&w.t); SYM_ASSERT(o.finished == 1); SYM_ASSERT(live == 0 && opened == closed); }

// operators between scripted inputs and recording outputs (C45, C46)
#pragma once
#include "rec.h"
#include "mem_pool.h"
#include "kvs_env.h"
#include <jogasaki/executor/process/impl/ops/context_helper.h>
#include <jogasaki/executor/process/impl/work_context.h>
#include <jogasaki/executor/process/impl/ops/operator_base.h>
#include <jogasaki/executor/process/impl/ops/operation_status.h>
#include <jogasaki/executor/process/processor_info.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_reader.h>
#include <jogasaki/executor/expr/error.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/meta/group_meta.h>
#include <jogasaki/meta/variable_order.h>
#include <jogasaki/utils/cancel_request.h>
#include <jogasaki/utils/abort_transaction.h>
#include <jogasaki/utils/field_types.h>
#include <jogasaki/request_context.h>
#include <jogasaki/datastore/assign_lob_id.h>
using namespace jogasaki; using rec::K; using takatori::util::maybe_shared_ptr; using takatori::util::sequence_view; namespace ops = executor::process::impl::ops; namespace im = executor::process::impl; namespace tr = takatori::relation; namespace tt = takatori::type; using var = takatori::descriptor::variable; using ops::operation_status; using OK = ops::operation_status_kind; using JK = tr::join_kind;
namespace { std::unique_ptr<memory::page_pool> pool; } namespace jogasaki::global { memory::page_pool& page_pool(pool_operation) { if (!pool) pool = std::make_unique<memory::page_pool>(); return *pool; } }
status datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { return status::err_unsupported; }
void utils::abort_transaction(kvs::transaction&) {} void utils::abort_transaction(transaction_context& t) { ++t.aborted; }
void utils::cancel_request_impl(request_context& r, std::string_view, std::string_view) { set_error_context(r, error_code::request_canceled, "", status::request_canceled); }
bool utils::request_cancel_enabled(request_cancel_kind) noexcept { return true; }
static tt::int4 t_i4; static tt::int8 t_i8; static tt::character t_ch{tt::varying, 100};
static data::any I(std::int32_t v) { return data::any{std::in_place_type<std::int32_t>, v}; }
using row = std::vector<data::any>; using types = std::vector<tt::data const*>;
static std::shared_ptr<meta::record_meta> meta_of(types const& t) { std::vector<meta::field_type> f; for (auto* x : t) f.push_back(utils::type_for(*x)); boost::dynamic_bitset<std::uint64_t> n(t.size()); n.flip(); return std::make_shared<meta::record_meta>(std::move(f), std::move(n)); }
static void store(accessor::record_ref r, meta::record_meta const& m, size_t f, data::any const& v) { r.set_null(m.nullity_offset(f), v.empty()); if (v.empty()) return; rec::with(m.at(f).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::character) r.set_value<runtime_t<k>>(m.value_offset(f), v.to<runtime_t<k>>()); }); }
static data::any load(accessor::const_record_ref r, meta::record_meta const& m, size_t f) { if (r.is_null(m.nullity_offset(f))) return {}; data::any a; rec::with(m.at(f).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8) a = data::any{std::in_place_type<runtime_t<k>>, r.get_value<runtime_t<k>>(m.value_offset(f))}; else if constexpr (k == K::character) { auto t = r.get_value<accessor::text>(m.value_offset(f)); std::string_view s(t); auto* b = new std::string(s); a = data::any{std::in_place_type<accessor::text>, accessor::text(b->data(), b->size())}; } }); return a; }
static row load(accessor::const_record_ref r, meta::record_meta const& m) { row x; for (size_t i = 0; i < m.field_count(); i++) x.push_back(load(r, m, i)); return x; }
// symbolic column values: null, a number, or a text of a length that takes turns
static size_t text_len = 0;
static data::any value(tt::data const& t, bool may_null = true) { if (may_null && sym_choose(2, "null")) return {}; switch (utils::type_for(t).kind()) { case K::int4: return I(rec::val<K::int4>("int4")); case K::int8: return data::any{std::in_place_type<std::int64_t>, rec::val<K::int8>("int8")}; default: { static const size_t L[] = {2, 20, 2, 0}; return data::any{std::in_place_type<accessor::text>, rec::val<K::character>("text", L[text_len++ % 4])}; } } }
static bool same(data::any const& a, data::any const& b) { if (a.empty() || b.empty()) return a.empty() == b.empty(); if (a.type_index() != b.type_index()) return false; if (a.type_index() == data::any::index<std::int32_t>) return a.to<std::int32_t>() == b.to<std::int32_t>(); if (a.type_index() == data::any::index<std::int64_t>) return a.to<std::int64_t>() == b.to<std::int64_t>(); auto x = a.to<accessor::text>(), y = b.to<accessor::text>(); return rec::same<K::character>(x, y); }
static bool same(row const& a, row const& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = sym_and(r, same(a[i], b[i])); return r; }
// nulls first, then ascending numbers
static bool lt(data::any const& a, data::any const& b) { if (b.empty()) return false; if (a.empty()) return true; return a.to<std::int32_t>() < b.to<std::int32_t>(); }
struct expr : takatori::scalar::expression { std::function<data::any(im::variables_view const&)> f; explicit expr(std::function<data::any(im::variables_view const&)> x) : f(std::move(x)) {} data::any eval(im::variables_view const& v) const override { return f(v); } };
static data::any failing() { return data::any{std::in_place_type<executor::expr::error>, executor::expr::error_kind::overflow}; }
// one block of variables 300, 301, ...
struct block { executor::process::processor_info info; std::shared_ptr<meta::record_meta> m; std::shared_ptr<request_context> rq = std::make_shared<request_context>(); types ty;
    explicit block(types t) : m(meta_of(t)), ty(std::move(t)) { text_len = 0; mem_pages::huge = true; kvs::fault::fail_at = -1; rq->tx = std::make_shared<transaction_context>(); rq->conf = std::make_shared<configuration>(); im::variable_table_info::variable_indices vi; for (size_t i = 0; i < ty.size(); i++) { vi[v(i)] = i; info.ci.types[v(i)] = ty[i]; } info.blocks.reserve(1); info.blocks.emplace_back(vi, m, im::region_id{0}); }
    static var v(size_t i) { return {300 + (int)i}; } };
struct task : executor::process::abstract::task_context { std::vector<executor::io::reader_container> in; executor::io::record_writer* down{}; executor::io::record_writer* ext{}; im::work_context* wk{}; int deactivated = 0;
    executor::io::reader_container reader(reader_index i) override { return in[i]; } executor::io::record_writer* downstream_writer(writer_index) override { return down; } void deactivate_writer(writer_index) override { ++deactivated; } executor::io::record_writer* external_writer() override { return ext; } class executor::process::abstract::range const* range() override { return nullptr; }
    void ready(block& b, bool empty = false) { auto wc = std::make_unique<im::work_context>(b.rq.get(), 16, 1, std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_shared<kvs::database>(), b.rq->tx, empty, false); wk = wc.get(); for (auto& x : b.info.blocks) wc->variable_tables().emplace_back(x); work_context(std::move(wc)); } };
// where the recorder suspends or aborts: at a call number, each call once
struct interruption { int yield_at = -1, abort_at = -1, calls = 0, finished = 0; OK hit() { int n = calls++; return n == yield_at ? OK::yield : n == abort_at ? OK::aborted : OK::ok; } };
struct rows_out : ops::record_operator, interruption { std::vector<row> got; block& b; explicit rows_out(block& x) : record_operator(15, x.info, 0), b(x) {} ops::operator_kind kind() const noexcept override { return ops::operator_kind::emit; } void finish(executor::process::abstract::task_context*) override { ++finished; }
    operation_status process_record(executor::process::abstract::task_context* c) override { auto k = hit(); if (k != OK::ok) return k; ops::context_helper h{*c}; got.push_back(load(h.variable_table(0).store().ref(), *b.m)); return OK::ok; } };
template <class O> OK run_to_end(O& op, task& t, int limit = 6) { OK k; do k = op.process_record(&t).kind(); while (k == OK::yield && --limit > 0); SYM_ASSERT(k != OK::yield); sym_observe("status", (uint64_t)k); return k; }

//@property C43
//@src src/jogasaki/index/primary_target.cpp src/jogasaki/index/secondary_target.cpp src/jogasaki/index/field_info.cpp src/jogasaki/index/field_factory.cpp src/jogasaki/index/utils.cpp src/jogasaki/index/primary_context.cpp src/jogasaki/index/secondary_context.cpp src/jogasaki/executor/wrt/insert_new_record.cpp src/jogasaki/executor/process/impl/ops/write_existing.cpp src/jogasaki/executor/process/impl/ops/write_existing_context.cpp src/jogasaki/executor/process/impl/ops/context_base.cpp src/jogasaki/executor/process/impl/ops/context_container.cpp src/jogasaki/executor/process/impl/ops/context_helper.cpp src/jogasaki/executor/process/impl/ops/operator_base.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/executor/process/impl/work_context.cpp src/jogasaki/executor/process/abstract/task_context.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/handle_encode_errors.cpp src/jogasaki/utils/handle_generic_error.cpp src/jogasaki/utils/handle_kvs_errors.cpp src/jogasaki/utils/modify_status.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/request_statistics.cpp src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp
//@stubs
//@inc stubs_index stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c43_insert quick=60 thorough=400 | INSERT, IF NOT EXISTS, OR REPLACE (both upsert strategies) of one symbolic row into a table of 0..1 (thorough 2) symbolic rows; 4 schemas (int4/int8/character/blob/date/decimal columns, 0..2 secondary indexes, mixed directions)
//@entry c43_update quick=60 thorough=400 | UPDATE of one row of a table of 0..1 (thorough 2) symbolic rows: chosen subset of columns (primary key included), sources in the operator's block, an outer block or the host variables, with or without conversion
//@entry c43_delete quick=60 thorough=400 | DELETE of one row of a table of 0..1 (thorough 2) symbolic rows
//@entry c43_twice quick=60 thorough=400 | two operations in a row through the same operator and buffers, texts of different lengths
//@entry c43_fault quick=60 thorough=400 | one storage operation of an insert, update or delete fails with one of 3 statuses
//@entry c43_rows2 quick=60 thorough=400 | update of the primary key with 2 rows stored (collision or not), insert next to 2 rows
//@entry c43_setup quick=30 thorough=60 | read-only columns are rejected; index over unknown columns is rejected
#include "index_world.h"
#include <jogasaki/executor/wrt/insert_new_record.h>
#include <jogasaki/executor/process/impl/ops/write_existing.h>
#include <jogasaki/plan/plan_exception.h>
#include <jogasaki/datastore/assign_lob_id.h>
std::unique_ptr<kvs::iterator> kvs::storage::open(content&, std::string_view, end_point_kind, std::string_view, end_point_kind, std::size_t, bool) { return {}; }
static bool lob_fails = false, conv_fails = false;
status datastore::assign_lob_id(lob::lob_reference const& ref, transaction_context*, lob::lob_id_type& id, std::shared_ptr<error::error_info>& e) { if (lob_fails) { e = error::stub_error(error_code::lob_reference_invalid, status::err_invalid_state); return status::err_invalid_state; } id = ref.object_id(); return status::ok; }
// assignment of int4 to int8 is the only conversion used here
status executor::conv::conduct_assignment_conversion(tt::data const& s, tt::data const& t, data::any const& in, data::any& out, request_context& r, memory::lifo_paged_memory_resource*) { SYM_ASSERT(s.kind() == tt::type_kind::int4 && t.kind() == tt::type_kind::int8); if (conv_fails) { set_error_context(r, error_code::value_evaluation_exception, "", status::err_expression_evaluation_failure); return status::err_expression_evaluation_failure; } if (in.empty()) out = {}; else out = data::any{std::in_place_type<std::int64_t>, (std::int64_t)in.to<std::int32_t>()}; return status::ok; }
// insert: the record stores are filled as the value filling step does
struct inserter { world& w; W kind; memory::lifo_paged_memory_resource res{&global::page_pool()}; kvs::database db; std::vector<index::secondary_target> sec; executor::wrt::write_context wc; executor::wrt::insert_new_record op;
    static index::primary_target prim(world& w) { std::vector<takatori::relation::write::key> ks; std::vector<meta::field_type> ft; boost::dynamic_bitset<std::uint64_t> nl; auto m = w.meta(true); im::variable_table_info::variable_indices vi; for (size_t i = 0; i < w.idx[0]->k.size(); i++) { int id = w.idx[0]->k[i].c->id; ks.push_back({{id}, {id}}); vi[{id}] = i; } return w.primary(ks, im::variable_table_info{vi, m, im::region_id{0}}); }
    inserter(world& x, W k) : w(x), kind(k), sec(x.secondaries()), wc(*x.rq, "T", x.meta(true), x.meta(false), sec, db, &res), op(k, prim(x), sec) {}
    bool run(row const& r) { auto mk = w.meta(true), mv = w.meta(false); for (size_t i = 0; i < w.idx[0]->k.size(); i++) store(wc.key_store_.ref(), *mk, i, r[(size_t)w.idx[0]->k[i].c->id]); for (size_t i = 0; i < w.idx[0]->v.size(); i++) store(wc.value_store_.ref(), *mv, i, r[(size_t)w.idx[0]->v[i].get().id]); return op.process_record(*w.rq, wc); } };
static void do_insert(world& w, inserter& in, row const& r) {
    auto i0 = w.count(counter_kind::inserted), m0 = w.count(counter_kind::merged); auto at = w.find(r); bool ok = in.run(r); auto di = w.count(counter_kind::inserted) - i0, dm = w.count(counter_kind::merged) - m0; sym_observe("ok", ok);
    if (at >= 0 && in.kind == W::insert) { sym_assert(!ok && w.rq->err && w.rq->err->code() == error_code::unique_constraint_violation_exception && w.rq->err->status() == status::err_unique_constraint_violation, "duplicate key is a constraint violation"); w.check(); return; }
    sym_assert(ok && !w.rq->err, "insert succeeds"); if (at >= 0 && in.kind == W::insert_overwrite) w.rows[(size_t)at] = r; else if (at < 0) w.rows.push_back(r);
    if (in.kind == W::insert_overwrite) sym_assert(dm - (m0 < 0 ? 1 : 0) == 1 && di == 0, "merged count"); else sym_assert((at >= 0 ? w.count(counter_kind::inserted) == (i0 < 0 ? 0 : i0) : di - (i0 < 0 ? 1 : 0) == 1) && dm == 0, "inserted count");
    w.check(); }
static W kinds[] = {W::insert, W::insert_skip, W::insert_overwrite};
HARNESS(c43_insert) { world w((int)sym_choose(4, "schema")); auto k = kinds[sym_choose(3, "kind")]; if (k == W::insert_overwrite && w.idx.size() > 1) w.rq->conf->try_insert_on_upserting_secondary(sym_choose(2, "try")); w.fill(QT(1, 2)); inserter in(w, k); auto r = w.make(); do_insert(w, in, r);
    for (auto& e : w.data[0].lobs) { bool any = false; for (auto& x : w.rows) for (auto& v : x) if (!v.empty() && v.type_index() == data::any::index<lob::blob_reference>) any = sym_or(any, v.to<lob::blob_reference>().object_id() == e); sym_assert(any, "registered lob belongs to a stored row"); } if (w.idx.size() == 1 && !r[1].empty() && w.rq->err == nullptr && k == W::insert_overwrite) SYM_ASSERT(w.data[0].lobs.size() == 1); }
struct task : executor::process::abstract::task_context { executor::io::reader_container reader(reader_index) override { return {}; } executor::io::record_writer* downstream_writer(writer_index) override { return nullptr; } void deactivate_writer(writer_index) override {} executor::io::record_writer* external_writer() override { return nullptr; } class executor::process::abstract::range const* range() override { return nullptr; } };
// update or delete: key sources in the outer block 0, update sources in block 1 (of the operator), block 0 or the host variables
struct existing { world& w; std::vector<bool> upd; int where; std::unique_ptr<im::variable_table_info> hostinfo; std::unique_ptr<im::variable_table> host; executor::process::processor_info info; std::unique_ptr<ops::write_existing> op; task tc; im::work_context* wk{}; bool conv;
    std::shared_ptr<meta::record_meta> m0, m1; std::vector<std::pair<int, int>> f0, f1; // (variable, column) of each field of the two variable tables
    static std::shared_ptr<meta::record_meta> metaof(std::vector<tt::data const*> const& ts) { std::vector<meta::field_type> f; boost::dynamic_bitset<std::uint64_t> b; for (auto* t : ts) { f.push_back(utils::type_for(*t)); b.push_back(true); } return std::make_shared<meta::record_meta>(std::move(f), std::move(b)); }
    existing(world& x, W kind, std::vector<bool> u, int where_, bool conv_ = false) : w(x), upd(std::move(u)), where(where_), conv(conv_) {
        std::vector<takatori::relation::write::key> ks, cs; std::vector<tt::data const*> t0, t1; for (auto& k : w.idx[0]->k) { int id = k.c->id; ks.push_back({{100 + id}, {id}}); f0.push_back({100 + id, id}); t0.push_back(k.c->t); info.ci.types[{100 + id}] = k.c->t; }
        for (auto& c : w.t.cols) if (upd[(size_t)c.id]) { tt::data const* st = conv && c.t == &t_i8 ? (tt::data const*)&t_i4 : c.t; cs.push_back({{200 + c.id}, {c.id}}); info.ci.types[{200 + c.id}] = st; if (where == 1) { f0.push_back({200 + c.id, c.id}); t0.push_back(st); } else { f1.push_back({200 + c.id, c.id}); t1.push_back(st); } }
        m0 = metaof(t0); m1 = metaof(t1); auto ent = [](std::shared_ptr<meta::record_meta> const& m, std::vector<std::pair<int, int>> const& f, im::region_id r) { im::variable_table_info::entity_type e; for (size_t i = 0; i < f.size(); i++) e[{f[i].first}] = im::value_info{m->value_offset(i), m->nullity_offset(i), i, r}; return e; };
        info.blocks.reserve(2); info.blocks.emplace_back(ent(m0, f0, im::region_id{0}), m0, nullptr); if (where == 2) { info.blocks.emplace_back(im::variable_table_info::entity_type{}, metaof({}), &info.blocks[0]); hostinfo = std::make_unique<im::variable_table_info>(ent(m1, f1, im::region_id{}), m1); host = std::make_unique<im::variable_table>(*hostinfo); info.host = host.get(); } else info.blocks.emplace_back(ent(m1, f1, im::region_id{1}), m1, &info.blocks[0]);
        op = std::make_unique<ops::write_existing>(0, info, 1, kind, *w.idx[0], takatori::util::sequence_view<takatori::relation::write::key const>(ks), takatori::util::sequence_view<takatori::relation::write::column const>(cs));
        auto wc = std::make_unique<im::work_context>(w.rq.get(), 1, 2, std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()), std::make_shared<kvs::database>(), w.rq->tx, false, false); wk = wc.get(); for (auto& b : info.blocks) wc->variable_tables().emplace_back(b); tc.work_context(std::move(wc)); }
    // key: the row whose primary key columns identify the target; src: the values assigned (int4 where converted)
    ops::operation_status run(row const& key, row const& src) { auto set = [&](accessor::record_ref r, meta::record_meta const& m, std::vector<std::pair<int, int>> const& f) { for (size_t i = 0; i < f.size(); i++) store(r, m, i, f[i].first < 200 ? key[(size_t)f[i].second] : src[(size_t)f[i].second]); };
        set(wk->variables(0).store().ref(), *m0, f0); if (where == 2) set(host->store().ref(), *m1, f1); else set(wk->variables(1).store().ref(), *m1, f1); return op->process_record(&tc); } };
static void failed(world& w, bool aborted, status st, const char* l) { sym_assert(w.rq->err && w.rq->err->status() == st, l); if (aborted) sym_assert(w.rq->tx->aborted == 1, "failed update aborts the transaction"); }
static void do_update(world& w, existing& ex, row const& key, row const& src) {
    auto u0 = w.count(counter_kind::updated); auto at = w.find(key); row now; bool bad_null = false, moved = false, any = false; if (at >= 0) { now = w.rows[(size_t)at]; for (size_t i = 0; i < now.size(); i++) if (ex.upd[i]) { any = true; if (src[i].empty() && !w.t.cols[i].c.nullity().nullable()) bad_null = true; now[i] = ex.conv && w.t.cols[i].t == &t_i8 && !src[i].empty() ? data::any{std::in_place_type<std::int64_t>, (std::int64_t)src[i].to<std::int32_t>()} : src[i]; for (auto& k : w.idx[0]->k) if (k.c->id == (int)i) moved = true; } }
    auto st = ex.run(key, src); sym_observe("status", (uint64_t)st.kind()); bool ok = st.kind() == ops::operation_status_kind::ok;
    if (at < 0) { sym_assert(!ok, "update of a missing row fails"); failed(w, true, status::not_found, "missing row is reported"); w.check(); return; }
    if (bad_null) { sym_assert(!ok, "null for a non-nullable column fails"); failed(w, true, status::err_integrity_constraint_violation, "not null violation is reported"); return; }
    if (conv_fails && ex.conv) { sym_assert(!ok, "failing conversion fails"); failed(w, true, status::err_expression_evaluation_failure, "conversion error is reported"); return; }
    if (moved) { auto other = w.find(now); if (other >= 0 && other != at) { sym_assert(!ok, "duplicate key fails"); failed(w, true, status::err_unique_constraint_violation, "duplicate key is a constraint violation"); return; } }
    (void)any; sym_assert(ok && !w.rq->err && w.rq->tx->aborted == 0, "update succeeds"); sym_assert(w.count(counter_kind::updated) == (u0 < 0 ? 0 : u0) + 1, "updated count"); w.rows[(size_t)at] = now; w.check(); }
static row sources(world& w, existing& ex) { row s(w.t.cols.size()); for (size_t i = 0; i < s.size(); i++) if (ex.upd[i]) { auto& c = w.t.cols[i]; if (ex.conv && c.t == &t_i8) { if (!sym_choose(2, "srcnull")) s[i] = data::any{std::in_place_type<std::int32_t>, rec::val<K::int4>("src")}; } else s[i] = w.value(c, true); } return s; }
static std::vector<bool> subset(world& w, size_t mask) { std::vector<bool> u; for (size_t i = 0; i < w.t.cols.size(); i++) u.push_back(mask >> i & 1); return u; }
HARNESS(c43_update) { int sc = (int)sym_choose(4, "schema"); world w(sc); w.fill(QT(1, 2)); size_t mask = 1 + sym_choose(7, "columns"); int where = (int)sym_choose(3, "where"); bool conv = sc != 2 && sym_choose(2, "convert"); if (where && mask != 3 && mask != 6) sym_stop(); conv_fails = conv && mask == 7 && sym_choose(2, "convfails"); existing ex(w, W::update, subset(w, mask), where, conv); auto key = w.make(); auto src = sources(w, ex); do_update(w, ex, key, src); }
static void do_delete(world& w, existing& ex, row const& key) { auto d0 = w.count(counter_kind::deleted); auto at = w.find(key); auto st = ex.run(key, {}); bool ok = st.kind() == ops::operation_status_kind::ok; sym_observe("status", (uint64_t)st.kind());
    if (at < 0) { sym_assert(!ok, "delete of a missing row fails"); failed(w, false, status::not_found, "missing row is reported"); w.check(); return; }
    sym_assert(ok && !w.rq->err && w.rq->tx->aborted == 0, "delete succeeds"); sym_assert(w.count(counter_kind::deleted) == (d0 < 0 ? 0 : d0) + 1, "deleted count"); w.rows.erase(w.rows.begin() + at); w.check(); }
HARNESS(c43_delete) { world w((int)sym_choose(4, "schema")); w.fill(QT(1, 2)); existing ex(w, W::delete_, subset(w, 0), 0); auto key = w.make(); do_delete(w, ex, key); }
// the same operator object handles record after record
HARNESS(c43_twice) { int sc = (int)sym_choose(2, "schema"); world w(sc); int op = (int)sym_choose(QT(3, 5), "op"); w.next_len = sym_choose(3, "lengths");
    auto lim = [&](row r) { for (auto& c : w.t.cols) if (c.c.nullity().nullable() && c.id == 1) sym_assume(true); return r; }; auto a = lim(w.make()), b = lim(w.make());
    if (op == 0 || op == 3 || op == 4) { inserter in(w, op == 0 ? W::insert_overwrite : op == 3 ? W::insert : W::insert_skip); do_insert(w, in, a); if (w.rq->err) return; do_insert(w, in, b); return; }
    sym_assume(!w.eq(w.key(0, a), w.key(0, b))); w.put(a); w.put(b); existing ex(w, op == 1 ? W::update : W::delete_, subset(w, op == 1 ? (sc ? 4 : 6) : 0), 0);
    if (op == 1) { row s1(3), s2(3); for (size_t i = 0; i < 3; i++) if (ex.upd[i]) { s1[i] = w.value(w.t.cols[i], false); s2[i] = w.value(w.t.cols[i], i == 1); } do_update(w, ex, a, s1); do_update(w, ex, b, s2); } else { do_delete(w, ex, b); do_delete(w, ex, a); } }
HARNESS(c43_fault) { int sc = (int)sym_choose(2, "schema") ? 0 : 2; world w(sc); auto a = w.make(); w.put(a); int op = (int)sym_choose(5, "op"); static const status F[] = {status::err_serialization_failure, status::err_io_error, status::err_inactive_transaction}; kvs::fault::fail_status = F[sym_choose(3, "status")]; kvs::fault::fail_at = (int)sym_choose(6, "at"); w.rq->conf->try_insert_on_upserting_secondary(op == 2);
    bool ok; if (op <= 2) { auto r = op ? a : w.make(); if (op) r[1] = w.value(w.t.cols[1], false); else sym_assume(!w.eq(w.key(0, r), w.key(0, a))); inserter in(w, op ? W::insert_overwrite : W::insert); ok = in.run(r); } else { existing ex(w, op == 3 ? W::update : W::delete_, subset(w, op == 3 ? 7 : 0), 0); auto src = w.make(); ok = ex.run(a, src).kind() == ops::operation_status_kind::ok; }
    bool fault = kvs::fault::ops > kvs::fault::fail_at; sym_observe("ok", ok); SYM_ASSERT(ok == !fault); SYM_ASSERT((w.rq->err != nullptr) == fault); if (fault) { SYM_ASSERT(w.rq->err->status() == kvs::fault::fail_status); if (op == 3) SYM_ASSERT(w.rq->tx->aborted == 1); } }
HARNESS(c43_rows2) { int sc = sym_choose(2, "schema") ? 3 : 0; world w(sc); auto a = w.make(), b = w.make(); sym_assume(!w.eq(w.key(0, a), w.key(0, b))); w.put(a); w.put(b); if (sym_choose(2, "insert")) { auto k = kinds[sym_choose(3, "kind")]; inserter in(w, k); do_insert(w, in, w.make()); return; } existing ex(w, W::update, subset(w, sc ? 2 : 1), 0); row s(3); s[sc ? 1 : 0] = w.value(w.t.cols[sc ? 1 : 0], false); do_update(w, ex, sym_choose(2, "second") ? b : a, s); }
HARNESS(c43_setup) { int sc = (int)sym_choose(4, "schema"); world w(sc); size_t mask = sym_choose(8, "columns"); int ro = (int)sym_choose(3, "readonly"); w.t.cols[(size_t)ro].f.read_only = true; bool threw = false; try { existing ex(w, W::update, subset(w, mask), 0); } catch (plan::plan_exception& e) { threw = true; SYM_ASSERT(e.e->code() == error_code::restricted_operation_exception && e.e->status() == status::err_illegal_operation); } SYM_ASSERT(threw == ((mask >> ro & 1) != 0)); sym_observe("threw", threw); }

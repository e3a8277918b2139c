// a schema with table and index contents as an independent model (C43, C44)
#pragma once
#include "rec.h"
#include "mem_pool.h"
#include "kvs_env.h"
#include <jogasaki/executor/process/impl/ops/context_helper.h>
#include <jogasaki/executor/process/impl/work_context.h>
#include <jogasaki/utils/get_storage_by_index_name.h>
#include <jogasaki/executor/process/impl/ops/write_kind.h>
#include <jogasaki/utils/abort_transaction.h>
#include <jogasaki/utils/field_types.h>
#include <jogasaki/index/primary_target.h>
#include <jogasaki/index/secondary_target.h>
#include <jogasaki/request_context.h>
using namespace jogasaki; using rec::K; using takatori::util::maybe_shared_ptr; namespace ops = executor::process::impl::ops; namespace im = executor::process::impl; namespace tt = takatori::type; namespace ys = yugawara::storage; using W = ops::write_kind; using SD = takatori::relation::sort_direction; using var = takatori::descriptor::variable;
namespace { std::unique_ptr<memory::page_pool> pool; } namespace jogasaki::global { memory::page_pool& page_pool(pool_operation) { if (!pool) pool = std::make_unique<memory::page_pool>(); return *pool; } }
extern "C" bool sym_index_same(const char* a, const char* b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = sym_and(r, a[i] == b[i]); return r; }
static tt::int4 t_i4; static tt::int8 t_i8; static tt::character t_ch{tt::varying, 100}; static tt::blob t_blob; static tt::date t_date; static tt::decimal t_dec{5, 2};
static K kind_of(tt::data const& t) { return utils::type_for(t).kind(); }
struct world; static world* cur = nullptr; static int kvs_aborts = 0;
void utils::abort_transaction(kvs::transaction&) { ++kvs_aborts; } void utils::abort_transaction(transaction_context& t) { ++kvs_aborts; ++t.aborted; }
using row = std::vector<data::any>;
struct world {
    ys::provider p; std::vector<std::shared_ptr<ys::index>> idx; ys::table t; std::vector<kvs::content> data; std::vector<row> rows;
    std::shared_ptr<request_context> rq = std::make_shared<request_context>(); size_t next_len = 0; std::vector<size_t> L{2, 20, 0};
    void col(tt::data const& ty, bool nl) { int id = (int)t.cols.size(); t.cols.push_back({id, "c" + std::to_string(id), &ty, {{nl}}, {}}); }
    void index(std::vector<std::pair<int, bool>> keys, std::vector<int> vals = {}) { auto i = std::make_shared<ys::index>(); i->name = idx.empty() ? "T" : "I" + std::to_string(idx.size()); i->t = &t; for (auto [c, asc] : keys) i->k.push_back({&t.cols[(size_t)c], asc ? SD::ascendant : SD::descendant}); for (auto c : vals) i->v.push_back(std::cref(t.cols[(size_t)c])); idx.push_back(i); p.idx.push_back(i); data.emplace_back(); }
    explicit world(int schema) { cur = this; mem_pages::huge = true; kvs::fault::fail_at = -1; kvs::fault::ops = 0; t.o = &p; t.cols.reserve(8); rq->tx = std::make_shared<transaction_context>(); rq->conf = std::make_shared<configuration>();
        switch (schema) {
            case 0: col(t_i4, false); col(t_i8, true); col(t_ch, true); index({{0, true}}, {1, 2}); index({{1, true}}); index({{2, false}, {0, true}}); break;
            case 1: col(t_i4, false); col(t_ch, false); col(t_i8, false); index({{0, false}, {1, true}}, {2}); index({{2, false}, {1, true}}); break;
            case 2: col(t_i4, false); col(t_blob, true); col(t_date, false); index({{0, true}}, {1, 2}); break;
            case 4: col(t_i8, false); col(t_i8, true); col(t_ch, true); index({{0, true}}, {1, 2}); index({{2, true}, {1, false}}); break;
            default: col(t_i8, false); col(t_i4, false); col(t_dec, true); index({{1, true}}, {0, 2}); index({{1, false}, {2, true}}); index({{0, true}}); break;
        } }
    data::any value(ys::column const& c, bool may_null) { if (may_null && sym_choose(2, "null")) return {}; switch (kind_of(c.type())) { case K::int4: return data::any{std::in_place_type<std::int32_t>, rec::val<K::int4>("int4")}; case K::int8: return data::any{std::in_place_type<std::int64_t>, rec::val<K::int8>("int8")};
            case K::character: { size_t n = L[next_len++ % L.size()]; auto v = rec::val<K::character>("text", n); for (size_t i = 0; i < n; i++) sym_assume(rec::last_str[i] != 0); return data::any{std::in_place_type<accessor::text>, v}; } case K::date: return data::any{std::in_place_type<takatori::datetime::date>, rec::val<K::date>("date")};
            case K::decimal: { auto v = sym_u16("dec"); sym_assume(v != 0); return data::any{std::in_place_type<takatori::decimal::triple>, takatori::decimal::triple(1, 0, v, -2)}; }
            case K::blob: return data::any{std::in_place_type<lob::blob_reference>, lob::blob_reference{sym_u64("lob"), lob::lob_data_provider::datastore}}; default: sym_stop(); } }
    row make() { row r; for (auto& c : t.cols) r.push_back(value(c, c.c.nullity().nullable())); return r; }
    // independent encoding of index entries: columns in declared order and direction, then the primary key for a secondary index
    static void add(enc& e, data::any const& v, ys::column const& c, kvs::coding_spec sp) { auto ft = utils::type_for(c.type()); if (c.c.nullity().nullable()) SYM_ASSERT(e.add_nullable(v, ft, sp) == status::ok); else SYM_ASSERT(e.add(v, ft, sp) == status::ok); }
    static std::string str(enc& e) { return std::string(e.b.p, e.size()); }
    std::string key(size_t i, row const& r) { enc e(160); for (auto& k : idx[i]->k) add(e, r[(size_t)k.c->id], *k.c, k.d == SD::ascendant ? kvs::spec_key_ascending : kvs::spec_key_descending); auto s = str(e); if (i) s += key(0, r); return s; }
    std::string val(row const& r) { enc e(160); for (auto& v : idx[0]->v) add(e, r[(size_t)v.get().id], v.get(), kvs::spec_value); return str(e); }
    void put(row r) { for (size_t i = 0; i < idx.size(); i++) data[i].x.emplace_back(key(i, r), i ? std::string() : val(r)); rows.push_back(std::move(r)); }
    static bool eq(std::string const& a, std::string const& b) { return a.size() == b.size() && sym_index_same(a.data(), b.data(), a.size()); }
    void fill(size_t max) { for (size_t n = sym_choose(max + 1, "rows"); n > 0; n--) { auto r = make(); for (auto& o : rows) sym_assume(!eq(key(0, o), key(0, r))); put(std::move(r)); } }
    long find(row const& r) { for (size_t i = 0; i < rows.size(); i++) if (eq(key(0, rows[i]), key(0, r))) return (long)i; return -1; }
    // the stored entries are exactly those of the model rows
    void check() { for (size_t i = 0; i < idx.size(); i++) { sym_assert(data[i].x.size() == rows.size(), i ? "one index entry per row" : "one table entry per row"); for (auto& r : rows) { auto k = key(i, r), v = i ? std::string() : val(r); bool any = false; for (auto& e : data[i].x) if (e.first.size() == k.size() && e.second.size() == v.size()) any = sym_or(any, sym_and(sym_index_same(e.first.data(), k.data(), k.size()), sym_index_same(e.second.data(), v.data(), v.size()))); sym_assert(any, i ? "index entry of the row is stored" : "row is stored"); } }
        sym_observe("rows", rows.size()); for (auto& d : data) sym_observe("entries", d.x.size()); }
    std::int64_t count(counter_kind k) { return rq->stats ? rq->stats->counter(k).count().value_or(-1) : -1; }
    maybe_shared_ptr<meta::record_meta> meta(bool k) { return index::create_meta(*idx[0], k); }
    index::primary_target primary(std::vector<takatori::relation::write::key> const& keys, im::variable_table_info const& in) { return index::primary_target{*idx[0], takatori::util::sequence_view<takatori::relation::write::key const>(keys), in}; }
    std::vector<index::secondary_target> secondaries() { std::vector<index::secondary_target> r; for (size_t i = 1; i < idx.size(); i++) r.emplace_back(*idx[i], meta(true), meta(false)); return r; }
};
std::unique_ptr<kvs::storage> utils::get_storage_by_index_name(std::string_view n) { for (size_t i = 0; i < cur->idx.size(); i++) if (cur->idx[i]->simple_name() == n) return std::make_unique<kvs::storage>(cur->data[i]); return {}; }
static void store(accessor::record_ref r, meta::record_meta const& m, size_t f, data::any const& v) { r.set_null(m.nullity_offset(f), v.empty()); if (v.empty()) return; rec::with(m.at(f).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::character || k == K::date || k == K::decimal || k == K::blob) r.set_value<runtime_t<k>>(m.value_offset(f), v.to<runtime_t<k>>()); }); }

//@property C41
//@src src/jogasaki/accessor/record_copier.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/group_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/monotonic_paged_memory_resource.cpp src/jogasaki/data/record_store.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/executor/compare_info.cpp src/jogasaki/executor/partitioner.cpp src/jogasaki/executor/exchange/shuffle/pointer_table.cpp src/jogasaki/executor/exchange/shuffle/flow.cpp src/jogasaki/executor/exchange/shuffle/run_info.cpp src/jogasaki/executor/exchange/group/group_info.cpp src/jogasaki/executor/exchange/group/input_partition.cpp src/jogasaki/executor/exchange/group/sink.cpp src/jogasaki/executor/exchange/group/source.cpp src/jogasaki/executor/exchange/group/writer.cpp src/jogasaki/executor/exchange/group/flow.cpp src/jogasaki/executor/exchange/group/priority_queue_reader.cpp src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/watch.cpp
//@stubs
//@inc stubs_tbb stubs_xchg
//@flags -include atomic -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c41_group quick=60 thorough=400 | 1..2 upstream and 1..2 downstream partitions, up to 3 records (thorough 4), nullable keys of 8 symbolic bits, limit 0..2 or none, with a sort column or not, both readers
//@entry c41_runs quick=60 thorough=400 | up to 3 records (thorough 4), keys and sort column of 8 symbolic bits, spread over 2 partitions and sorted runs of 1..2 records, ascending / descending / no sort column, limit 1 or none, merging reader
//@entry c41_vector quick=60 thorough=400 | the same with the sorting reader
#include "rec.h"
#include "mem_res.h"
#include "mem_pool.h"
#include "fail_env.h"
#include <jogasaki/executor/exchange/group/flow.h>
#include <jogasaki/executor/exchange/group/input_partition.h>
#include <jogasaki/executor/exchange/group/sink.h>
#include <jogasaki/executor/exchange/group/source.h>
#include <jogasaki/executor/io/group_reader.h>
using namespace jogasaki; using rec::K; using takatori::util::maybe_shared_ptr; namespace gx = executor::exchange::group; using executor::ordering;
namespace { std::unique_ptr<memory::page_pool> pool; } namespace jogasaki::global { memory::page_pool& page_pool(pool_operation) { if (!pool) pool = std::make_unique<memory::page_pool>(); return *pool; } }
struct row { int32_t k; bool kn; int32_t s; std::string t; }; // id = position
struct data_set { std::shared_ptr<meta::record_meta> m; std::vector<row> x; data_set() { rec::def d; d.add(K::int4, true); d.add(K::int4, false); d.add(K::int8, false); d.add(K::character, true); m = d.meta(); }
    // hands a fresh symbolic record to f; its memory is destroyed afterwards
    template <class F> void put(bool nulls, F f) { row r; r.kn = nulls && sym_choose(2, "null"); r.k = (int8_t)sym_u8("key"); r.s = (int8_t)sym_u8("sort"); size_t len = x.size() & 1 ? 20 : 3; sym_buf h(len, "text"); r.t.assign(h.p, len); rec::mem src(m->record_size()); src.r.set_null(m->nullity_offset(0), r.kn); src.r.set_value<int32_t>(m->value_offset(0), r.k); src.r.set_value<int32_t>(m->value_offset(1), r.s); src.r.set_value<int64_t>(m->value_offset(2), (int64_t)x.size()); src.r.set_null(m->nullity_offset(3), false); src.r.set_value<accessor::text>(m->value_offset(3), accessor::text{h.p, len}); x.push_back(r); f(src.r); for (size_t i = 0; i < m->record_size(); i++) src.b.p[i] = 0x33; for (size_t i = 0; i < len; i++) h.p[i] = '#'; }
    bool eq(row const& a, row const& b) { return a.kn || b.kn ? a.kn == b.kn : a.k == b.k; } bool less(row const& a, row const& b) { return a.kn || b.kn ? a.kn && !b.kn : a.k < b.k; } };
// reads everything from one source: ids of the members per group
static std::vector<std::vector<size_t>> drain(data_set& d, gx::group_info const& info, executor::io::reader_container rc) {
    auto* r = rc.reader<executor::io::group_reader>(); SYM_ASSERT(r != nullptr); std::vector<std::vector<size_t>> out; auto& km = info.group_meta()->key(); auto& vm = info.group_meta()->value();
    while (r->next_group()) { out.emplace_back(); bool more = r->next_member(); SYM_ASSERT(more); while (more) { auto v = r->get_member(); auto id = (size_t)v.get_value<int64_t>(vm.value_offset(1)); SYM_ASSERT(id < d.x.size()); auto& w = d.x[id]; SYM_ASSERT(v.get_value<int32_t>(vm.value_offset(0)) == w.s); SYM_ASSERT(!v.is_null(vm.nullity_offset(2))); auto tx = v.get_value<accessor::text>(vm.value_offset(2)); SYM_ASSERT(sym_same(std::string(std::string_view(tx)), w.t)); auto g = r->get_group(); SYM_ASSERT(g.is_null(km.nullity_offset(0)) == w.kn); if (!w.kn) SYM_ASSERT(g.get_value<int32_t>(km.value_offset(0)) == w.k); out.back().push_back(id); more = r->next_member(); } } return out; }
// what a user may rely on, given the groups of every source
static void judge(data_set& d, std::vector<std::vector<std::vector<size_t>>> const& out, int order, size_t limit) {
    auto& x = d.x; std::vector<int> seen(x.size(), 0); for (auto& src : out) for (auto& g : src) { SYM_ASSERT(!g.empty()); for (auto i : g) { SYM_ASSERT(!seen[i]); seen[i] = 1; } }
    for (auto& src : out) for (size_t a = 0; a + 1 < src.size(); a++) SYM_ASSERT(d.less(x[src[a][0]], x[src[a + 1][0]])); // groups of a source in key order, hence distinct
    for (size_t p = 0; p < out.size(); p++) for (size_t q = p + 1; q < out.size(); q++) for (auto& g : out[p]) for (auto& h : out[q]) SYM_ASSERT(!d.eq(x[g[0]], x[h[0]])); // no group split over sources
    if (limit == 0) { for (auto s : seen) SYM_ASSERT(!s); return; }
    for (auto& src : out) for (auto& g : src) { auto& k = x[g[0]]; for (auto i : g) SYM_ASSERT(d.eq(x[i], k)); if (order) for (size_t j = 0; j + 1 < g.size(); j++) SYM_ASSERT(order > 0 ? x[g[j]].s <= x[g[j + 1]].s : x[g[j]].s >= x[g[j + 1]].s);
        size_t same = 0; for (size_t i = 0; i < x.size(); i++) same += sym_ite(d.eq(x[i], k), 1, 0); SYM_ASSERT(g.size() == sym_ite(same < limit, same, limit)); // a group misses members only by the limit
        if (order) { auto last = x[g.back()].s; for (size_t i = 0; i < x.size(); i++) if (!seen[i]) SYM_ASSERT(sym_or(!d.eq(x[i], k), order > 0 ? x[i].s >= last : x[i].s <= last)); } }
    for (size_t i = 0; i < x.size(); i++) if (!seen[i]) { bool found = false; for (auto& src : out) for (auto& g : src) found = sym_or(found, d.eq(x[i], x[g[0]])); SYM_ASSERT(found); } }
static std::shared_ptr<gx::group_info> info_of(data_set& d, int order, size_t limit) { std::vector<size_t> si; std::vector<ordering> so; if (order) { si.push_back(1); so.push_back(order > 0 ? ordering::ascending : ordering::descending); } return limit < 9 ? std::make_shared<gx::group_info>(maybe_shared_ptr<meta::record_meta>{d.m}, std::vector<size_t>{0}, si, so, limit) : std::make_shared<gx::group_info>(maybe_shared_ptr<meta::record_meta>{d.m}, std::vector<size_t>{0}, si, so); }
HARNESS(c41_group) {
    mem_pages::reset(); mem_pages::huge = true; { data_set d; size_t ud = sym_choose(QT(3, 4), "partitions"), up = 1 + (ud & 1), down = 1 + (ud > 0 && ud < 3), lim = sym_choose(4, "limit"); if (lim == 3) lim = 9; int order = QT(lim == 9 && ud == 2, true) ? (int)sym_choose(2, "order") : 0; request_context rc; rc.cfg->use_sorted_vector(sym_choose(2, "vector")); auto info = info_of(d, order, lim);
        gx::flow f{info, &rc, nullptr, down}; f.setup_partitions(up); SYM_ASSERT(f.sink_count() == up && f.source_count() == down); unsigned used = 0; size_t n = sym_choose(QT(4, 5), "records"); for (size_t i = 0; i < n; i++) { size_t si = up == 1 ? 0 : sym_choose(2, "sink"); used |= 1u << si; auto& w = f.sink_at(si).acquire_writer(); d.put(true, [&](auto r) { SYM_ASSERT(w.write(r)); }); } for (size_t i = 0; i < up; i++) if (used & (1u << i)) { auto& w = f.sink_at(i).acquire_writer(); w.flush(); w.release(); } SYM_ASSERT(f.create_tasks().size() == 1); SYM_ASSERT(f.info().empty_input() == (n == 0));
        std::vector<std::vector<std::vector<size_t>>> out; for (size_t i = 0; i < down; i++) out.push_back(drain(d, *info, f.source_at(i).acquire_reader())); judge(d, out, order, lim); } pool.reset(); }
static void runs(bool vec) {
    mem_pages::reset(); mem_pages::huge = true; { data_set d; int order = (int)sym_choose(3, "order"); if (order == 2) order = -1; size_t lim = sym_choose(2, "limit") ? 1 : 9; request_context rc; rc.cfg->use_sorted_vector(vec); auto info = info_of(d, order, lim); gx::source s{info, &rc}; size_t run = 1 + sym_choose(2, "run"); std::unique_ptr<gx::input_partition> p[2]; for (auto& q : p) q = std::make_unique<gx::input_partition>(std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()), std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()), info, &rc, run);
        size_t n = sym_choose(QT(4, 5), "records"), c[2] = {}; for (size_t i = 0; i < n; i++) { size_t j = sym_choose(2, "partition"); d.put(false, [&](auto r) { c[j]++; SYM_ASSERT(p[j]->write(r) == (c[j] % run == 0)); }); } for (int j = 0; j < 2; j++) { p[j]->flush(); SYM_ASSERT(p[j]->tables_count() == (c[j] + run - 1) / run); s.receive(std::move(p[j])); } std::vector<std::vector<std::vector<size_t>>> out{drain(d, *info, s.acquire_reader())}; judge(d, out, order, lim); } pool.reset(); }
HARNESS(c41_runs) { runs(false); }
HARNESS(c41_vector) { runs(true); }

//@property C15
//@src src/jogasaki/accessor/record_copier.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/fifo_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/monotonic_paged_memory_resource.cpp src/jogasaki/data/iterable_record_store.cpp src/jogasaki/data/record_store.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/data/fifo_record_store.cpp src/jogasaki/data/result_store.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/executor/exchange/shuffle/pointer_table.cpp src/jogasaki/executor/exchange/forward/forward_info.cpp src/jogasaki/executor/exchange/forward/input_partition.cpp src/jogasaki/executor/exchange/forward/sink.cpp src/jogasaki/executor/exchange/forward/source.cpp src/jogasaki/executor/exchange/forward/writer.cpp src/jogasaki/executor/exchange/forward/reader.cpp src/jogasaki/executor/io/reader_container.cpp
//@stubs
//@inc stubs_tbb stubs_xchg
//@threads
//@flags -include atomic -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c15_iter quick=60 thorough=300 preempt=0 | up to 4 records (thorough 6) of an integer and a string over memory blocks of 1..3 records, adjacent or apart, then a reset and up to 2 more over fresh, the same or the following memory
//@entry c15_empty quick=60 thorough=60 preempt=0 | up to 4 records without fields over memory blocks of 1..3
//@entry c15_values quick=60 thorough=300 preempt=0 | up to 4 values (thorough 6) of every kind over blocks of 1..3 values, any of them NULL, then a reset and up to 2 more over fresh, the same or the following memory
//@entry c15_result quick=60 thorough=200 preempt=0 | up to 3 partitions (one added late, any cleared) of up to 2 records
//@entry c15_fifo quick=60 thorough=300 preempt=0 | histories of 5 steps (thorough 6) pushing and popping records with strings, the memory of records and strings crossing pages or not
//@entry c15_spsc quick=60 thorough=300 preempt=2 | one thread pushing three records while another pops them, at most 2 preemptions (thorough 3)
//@entry c15_forward quick=60 thorough=300 preempt=2 | a forward exchange: one thread writing up to 2 records and releasing its writer, another reading until the source ends, at most 2 preemptions (thorough 3)
//@entry c15_limit quick=60 thorough=300 preempt=2 | a forward exchange of two partitions with limit 0..3 or none: two threads writing 2 and 1 records, at most 2 preemptions (thorough 3)
//@entry c15_small quick=60 thorough=60 preempt=0 | a record of three fields set twice, symbolic contents
//@entry c15_table quick=60 thorough=60 preempt=0 | tables of 0..3 slots, up to 4 pointers
#include "rec.h"

#include "mem_res.h"
#include "mem_pool.h"
#include "fail_env.h"
#include <functional>
#include <thread>
#include <jogasaki/data/fifo_record_store.h>
#include <jogasaki/data/iterable_record_store.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/executor/exchange/shuffle/pointer_table.h>
#include <jogasaki/executor/exchange/forward/sink.h>
#include <jogasaki/executor/exchange/forward/source.h>
#include <jogasaki/executor/exchange/forward/reader.h>
#include <jogasaki/executor/exchange/forward/writer.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
extern "C" void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {} // libstdc++ reports static guards to a race detector
using namespace jogasaki; using rec::K;
// memory in blocks of a chosen number of objects; consecutive blocks are adjacent in memory or apart
struct blocks : memory::paged_memory_resource { std::vector<char*> own; char* mem; size_t used = 0, per, gap, sz; blocks(size_t per_, size_t gap_, size_t sz_) : per(per_), gap(gap_), sz(sz_) { fresh(); } ~blocks() override { for (auto p : own) std::free(p); } void fresh() { mem = (char*)std::aligned_alloc(64, 4096); own.push_back(mem); used = 0; } void rewind() { for (size_t i = 0; i < 4096; i++) mem[i] = 0x77; used = 0; } void end_current_page() override {}
    void* do_allocate(size_t n, size_t a) override { SYM_ASSERT(n == sz && n % a == 0); size_t blk = used / per, in = used % per; used++; size_t off = blk * (per * sz + gap * 64) + in * sz; off = off / a * a; SYM_ASSERT(off + n <= 4096); return mem + off; } void do_deallocate(void*, size_t, size_t) override {} bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } size_t do_page_remaining(size_t) const noexcept override { return unknown_size; } };
struct row { int64_t v; std::string s; bool vn, sn; };
struct maker { std::shared_ptr<meta::record_meta> m; bool plain = false; maker() { rec::def d; d.add(K::int8, true); d.add(K::character, true); m = d.meta(); }
    row fill(accessor::record_ref r, size_t len, std::unique_ptr<sym_buf>& hold) { row x; x.v = (int64_t)sym_u64("v"); x.vn = !plain && sym_choose(2, "null"); x.sn = false; hold = std::make_unique<sym_buf>(len, "s"); x.s.assign(hold->p, len); r.set_null(m->nullity_offset(0), x.vn); r.set_value<int64_t>(m->value_offset(0), x.v); r.set_null(m->nullity_offset(1), x.sn); r.set_value<accessor::text>(m->value_offset(1), accessor::text{hold->p, len}); return x; }
    void same(accessor::const_record_ref r, row const& x) { SYM_ASSERT(r.size() == m->record_size()); SYM_ASSERT(r.is_null(m->nullity_offset(0)) == x.vn); if (!x.vn) SYM_ASSERT(r.get_value<int64_t>(m->value_offset(0)) == x.v); SYM_ASSERT(r.is_null(m->nullity_offset(1)) == x.sn); auto t = r.get_value<accessor::text>(m->value_offset(1)); SYM_ASSERT(sym_same(std::string(std::string_view(t)), x.s)); }
    // puts a record into a store by f; the source and its string are destroyed afterwards
    template <class F> row put(size_t len, F f) { rec::mem src(m->record_size()); std::unique_ptr<sym_buf> h; row x = fill(src.r, len, h); f(accessor::const_record_ref{src.b.p, m->record_size()}); for (size_t i = 0; i < m->record_size(); i++) src.b.p[i] = 0x33; for (size_t i = 0; i < len; i++) h->p[i] = '#'; return x; } };
static const size_t L[] = {3, 20};
HARNESS(c15_iter) {
    maker k; size_t S = k.m->record_size(); blocks b(1 + sym_choose(3, "per block"), sym_choose(2, "gap"), S); exact_resource var; data::iterable_record_store st{&b, &var, k.m}; SYM_ASSERT(st.record_size() == S); std::vector<row> x;
    auto look = [&] { SYM_ASSERT(st.count() == x.size() && st.empty() == x.empty()); size_t i = 0; for (auto it = st.begin(); it != st.end(); ++it, i++) { SYM_ASSERT(i < x.size()); k.same(*it, x[i]); k.same(it.ref(), x[i]); } SYM_ASSERT(i == x.size()); i = 0; for (auto it = st.begin(); it != st.end();) { auto o = it++; SYM_ASSERT(!(o == it)); k.same(*o, x[i++]); } SYM_ASSERT(i == x.size()); };
    look(); size_t n = sym_choose(QT(5, 7), "records"); for (size_t i = 0; i < n; i++) x.push_back(k.put(L[i & 1], [&](auto r) { auto o = st.append(r); SYM_ASSERT(o.size() == S); })); look(); st.reset(); x.clear(); look(); size_t f = sym_choose(3, "fresh"); if (f == 1) b.fresh(); else if (f == 0) b.rewind(); n = sym_choose(3, "more"); for (size_t i = 0; i < n; i++) x.push_back(k.put(L[i & 1], [&](auto r) { st.append(r); })); look(); }
HARNESS(c15_empty) {
    rec::def d; auto m = d.meta(); SYM_ASSERT(m->record_size() == 0); blocks b(1 + sym_choose(3, "per block"), sym_choose(2, "gap"), 1); exact_resource var; data::iterable_record_store st{&b, &var, m}; size_t n = sym_choose(5, "records"); for (size_t i = 0; i < n; i++) { auto o = st.append(accessor::const_record_ref{}); SYM_ASSERT(o.size() == 0); } size_t c = 0; for (auto it = st.begin(); it != st.end(); ++it) { SYM_ASSERT((*it).size() == 0); c++; } SYM_ASSERT(c == n && st.count() == n); }
HARNESS(c15_values) {
    static const K ks[] = {K::boolean, K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::octet, K::date, K::time_of_day, K::time_point}; size_t ki = sym_choose(11, "kind"); size_t per = 1 + sym_choose(3, "per block"), gap = sym_choose(2, "gap"); bool nulls = sym_choose(2, "nulls");
    rec::with(ks[ki], [&](auto c_) { constexpr K k = decltype(c_)::value; if constexpr (k == K::boolean || k == K::int4 || k == K::int8 || k == K::float4 || k == K::float8 || k == K::decimal || k == K::character || k == K::octet || k == K::date || k == K::time_of_day || k == K::time_point) { using T = runtime_t<k>; exact_resource var; blocks b(per, gap, sizeof(T)); blocks nb(1000, 0, 1); data::value_store st{rec::type_of(k), &b, &var, nulls ? &nb : nullptr}; std::vector<std::pair<bool, T>> x; std::vector<std::unique_ptr<std::string>> keep;
        auto look = [&] { SYM_ASSERT(st.count() == x.size() && st.empty() == x.empty()); size_t i = 0; auto e = st.template end<T>(); for (auto it = st.template begin<T>(); it != e; ++it, i++) { SYM_ASSERT(i < x.size()); SYM_ASSERT(it.valid()); SYM_ASSERT(it.is_null() == x[i].first); if (!x[i].first) SYM_ASSERT(rec::same<k>(*it, x[i].second)); } SYM_ASSERT(i == x.size()); i = 0; for (auto it = st.template begin<T>(); it != e; i++) { auto o = it++; SYM_ASSERT(o.is_null() == x[i].first); } SYM_ASSERT(i == x.size()); };
        auto add = [&](size_t i) { if (nulls && sym_choose(2, "null")) { st.append_null(); x.push_back({true, T{}}); return; } auto v = rec::val<k>("v", i & 1 ? 20 : 3); if constexpr (k == K::character || k == K::octet) { keep.push_back(std::make_unique<std::string>(std::string_view(v))); T w{keep.back()->data(), keep.back()->size()}; st.append(v); for (size_t j = 0; j < w.size(); j++) rec::last_str[j] = '#'; x.push_back({false, w}); } else { st.append(v); x.push_back({false, v}); } };
        look(); size_t n = sym_choose(QT(5, 7), "values"); for (size_t i = 0; i < n; i++) add(i); look(); st.reset(); x.clear(); look(); size_t f = sym_choose(3, "fresh"); if (f == 1) { b.fresh(); nb.fresh(); } else if (f == 0) { b.rewind(); nb.rewind(); } n = sym_choose(3, "more"); for (size_t i = 0; i < n; i++) add(i + 1); look(); } }); }
namespace { std::unique_ptr<memory::page_pool> pool; } namespace jogasaki::global { memory::page_pool& page_pool(pool_operation) { if (!pool) pool = std::make_unique<memory::page_pool>(); return *pool; } }
HARNESS(c15_result) {
    mem_pages::reset(); maker k; { data::result_store rs; SYM_ASSERT(rs.empty()); SYM_ASSERT(rs.begin() == rs.end()); size_t P = 1 + sym_choose(2, "partitions"); rs.initialize(P, k.m); bool late = sym_choose(2, "late"); if (late) SYM_ASSERT(rs.add_partition() == P++); SYM_ASSERT(rs.partitions() == P); std::vector<row> x[3]; for (size_t p = 0; p < P; p++) { size_t n = sym_choose(3, "records"); for (size_t i = 0; i < n; i++) x[p].push_back(k.put(L[(i + p) & 1], [&](auto r) { rs.partition(p).append(r); })); } bool cleared[3] = {}; for (size_t p = 0; p < P; p++) { if (p == 1 || late) cleared[p] = sym_choose(2, "clear"); if (cleared[p]) { rs.clear_partition(p); x[p].clear(); } } rs.clear_partition(7);
        std::vector<row> all; for (size_t p = 0; p < P; p++) { SYM_ASSERT(rs.exists(p) == !cleared[p]); if (!cleared[p]) SYM_ASSERT(rs.partition(p).count() == x[p].size()); for (auto& r : x[p]) all.push_back(r); } SYM_ASSERT(!rs.exists(P)); SYM_ASSERT(rs.partitions() == P); SYM_ASSERT(rs.empty() == all.empty()); size_t i = 0; for (auto it = rs.begin(); it != rs.end(); ++it, i++) { SYM_ASSERT(i < all.size()); k.same(*it, all[i]); } SYM_ASSERT(i == all.size()); i = 0; for (auto it = rs.begin(); it != rs.end();) k.same((it++).ref(), all[i++]); SYM_ASSERT(i == all.size()); } pool.reset(); }
struct queue { maker k; memory::fifo_paged_memory_resource rr{&global::page_pool()}, vr{&global::page_pool()}; data::fifo_record_store st{&rr, &vr, k.m}; };
HARNESS(c15_fifo) {
    mem_pages::reset(); bool os = sym_choose(2, "return pages"); global::test_cfg()->return_os_pages(os); { queue q; auto& k = q.k; std::vector<row> x; size_t head = 0; size_t edge = sym_choose(4, "edge"); if (edge & 2) (void)q.vr.allocate(memory::page_size - 50, 1); if (edge & 1) { void* f = q.rr.allocate(memory::page_size - k.m->record_size(), 8); (void)q.rr.allocate(8, 8); q.rr.deallocate(f, memory::page_size - k.m->record_size(), 8); q.rr.deallocate((char*)f + memory::page_size - k.m->record_size(), 8, 8); } bool held = false; accessor::record_ref out; row cur;
        for (int i = 0; i < QT(5, 6); i++) { if (sym_choose(2, "op")) { x.push_back(k.put(20, [&](auto r) { (void)q.st.push(r); })); if (held) k.same(out, cur); } else { bool r = q.st.try_pop(out); SYM_ASSERT(r == (head < x.size())); held = r; if (r) { cur = x[head++]; k.same(out, cur); } } SYM_ASSERT(q.st.count() == x.size() - head); SYM_ASSERT(q.st.empty() == (x.size() == head)); }
        while (head < x.size()) { SYM_ASSERT(q.st.try_pop(out)); k.same(out, x[head++]); } SYM_ASSERT(!q.st.try_pop(out)); SYM_ASSERT(q.st.empty()); k.plain = true; for (int i = 0; i < 4; i++) { row l = k.put(20, [&](auto r) { (void)q.st.push(r); }); SYM_ASSERT(q.st.try_pop(out)); k.same(out, l); SYM_ASSERT(!q.st.try_pop(out)); } if (os) SYM_ASSERT(mem_pages::live_count() <= 1); } pool.reset(); global::test_cfg()->return_os_pages(false); }
HARNESS(c15_spsc) {
    mem_pages::reset(); mem_pages::huge = true; { queue q; auto& k = q.k; std::vector<row> x; rec::mem src[3]{rec::mem(k.m->record_size()), rec::mem(k.m->record_size()), rec::mem(k.m->record_size())}; std::unique_ptr<sym_buf> h[3]; for (int i = 0; i < 3; i++) x.push_back(k.fill(src[i].r, 20, h[i])); size_t popped = 0; struct job { std::function<void()> f; }; std::vector<job> js; js.push_back({[&] { for (int i = 0; i < 3; i++) (void)q.st.push(accessor::const_record_ref{src[i].b.p, k.m->record_size()}); }}); js.push_back({[&] { for (int i = 0; i < 4; i++) { accessor::record_ref out; if (!q.st.try_pop(out)) continue; SYM_ASSERT(popped < 3); std::this_thread::yield(); k.same(out, x[popped++]); } }}); for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all(); SYM_ASSERT(q.st.count() == 3 - popped); accessor::record_ref out; while (popped < 3) { SYM_ASSERT(q.st.try_pop(out)); k.same(out, x[popped++]); } SYM_ASSERT(!q.st.try_pop(out) && q.st.empty()); } pool.reset(); }
using takatori::util::maybe_shared_ptr; namespace fw = executor::exchange::forward; struct job2 { std::function<void()> f; };
HARNESS(c15_forward) {
    mem_pages::reset(); mem_pages::huge = true; { maker k; auto info = std::make_shared<fw::forward_info>(maybe_shared_ptr<meta::record_meta>{k.m}); request_context rc; auto part = std::make_shared<fw::input_partition>(info); SYM_ASSERT(part->empty() && part->count() == 0 && part->active()); fw::sink snk{info, &rc, nullptr, part}; fw::source src{info, &rc, part}; size_t n = sym_choose(3, "records"); std::vector<row> x; rec::mem m[2]{rec::mem(k.m->record_size()), rec::mem(k.m->record_size())}; std::unique_ptr<sym_buf> h[2]; for (size_t i = 0; i < n; i++) x.push_back(k.fill(m[i].r, 20, h[i]));
        auto& wr = snk.acquire_writer(); SYM_ASSERT(&wr == &snk.acquire_writer()); auto* rd = src.acquire_reader().reader<executor::io::record_reader>(); SYM_ASSERT(rd != nullptr); SYM_ASSERT(!rd->available()); size_t got = 0; bool ended = false; std::vector<job2> js; js.push_back({[&] { for (size_t i = 0; i < n; i++) SYM_ASSERT(wr.write(m[i].r)); wr.flush(); wr.release(); }}); auto drain = [&] { bool act = rd->source_active(); while (rd->next_record()) { SYM_ASSERT(got < n); std::this_thread::yield(); k.same(rd->get_record(), x[got++]); } if (!act) ended = true; };
        js.push_back({[&] { for (int i = 0; i < 2 && !ended; i++) drain(); }}); for (auto& j : js) jsym_spawn([](void* a) { static_cast<job2*>(a)->f(); }, &j); jsym_join_all(); if (ended) SYM_ASSERT(got == n); else { SYM_ASSERT(rd->available() == (got < n)); drain(); SYM_ASSERT(ended && got == n); } SYM_ASSERT(!rd->next_record() && !rd->available() && !rd->source_active()); rd->release(); } pool.reset(); }
HARNESS(c15_limit) {
    mem_pages::reset(); mem_pages::huge = true; { maker k; size_t lim = sym_choose(5, "limit"); auto info = lim == 4 ? std::make_shared<fw::forward_info>(maybe_shared_ptr<meta::record_meta>{k.m}) : std::make_shared<fw::forward_info>(maybe_shared_ptr<meta::record_meta>{k.m}, lim); request_context rc; auto cnt = lim == 4 ? nullptr : std::make_shared<std::atomic_size_t>(0); std::shared_ptr<fw::input_partition> part[2]{std::make_shared<fw::input_partition>(info), std::make_shared<fw::input_partition>(info)}; fw::sink s0{info, &rc, cnt, part[0]}, s1{info, &rc, cnt, part[1]}; std::vector<row> x; rec::mem m[3]{rec::mem(k.m->record_size()), rec::mem(k.m->record_size()), rec::mem(k.m->record_size())}; std::unique_ptr<sym_buf> h[3]; for (size_t i = 0; i < 3; i++) x.push_back(k.fill(m[i].r, 3, h[i])); auto& w0 = s0.acquire_writer(); auto& w1 = s1.acquire_writer();
        std::vector<job2> js; js.push_back({[&] { SYM_ASSERT(w0.write(m[0].r)); SYM_ASSERT(w0.write(m[1].r)); w0.release(); }}); js.push_back({[&] { SYM_ASSERT(w1.write(m[2].r)); w1.release(); }}); for (auto& j : js) jsym_spawn([](void* a) { static_cast<job2*>(a)->f(); }, &j); jsym_join_all(); size_t c0 = part[0]->count(), c1 = part[1]->count(); SYM_ASSERT(c0 + c1 == (lim < 3 ? lim : 3)); SYM_ASSERT(c0 <= 2 && c1 <= 1); SYM_ASSERT(!part[0]->active() && !part[1]->active()); accessor::record_ref out; for (size_t i = 0; i < c0; i++) { SYM_ASSERT(part[0]->try_pop(out)); k.same(out, x[i]); } if (c1) { SYM_ASSERT(part[1]->try_pop(out)); k.same(out, x[2]); } SYM_ASSERT(!part[0]->try_pop(out) && !part[1]->try_pop(out)); } pool.reset(); }
HARNESS(c15_small) {
    maker k; exact_resource var; data::small_record_store st{k.m, &var}; SYM_ASSERT(static_cast<bool>(st)); for (int i = 0; i < 2; i++) { row x = k.put(L[i], [&](auto r) { (void)st.set(accessor::record_ref{const_cast<void*>(r.data()), r.size()}); }); k.same(st.ref(), x); } data::small_record_store none; SYM_ASSERT(!static_cast<bool>(none)); SYM_ASSERT(none == none && none != st); }
HARNESS(c15_table) {
    exact_resource res; size_t cap = sym_choose(4, "capacity"), n = sym_choose(5, "pointers"); executor::exchange::shuffle::pointer_table t{&res, cap}; SYM_ASSERT(t.capacity() == cap && t.empty() && t.size() == 0); std::vector<void*> p; for (size_t i = 0; i < n; i++) { p.push_back((void*)sym_u64("p")); t.emplace_back(p.back()); } size_t want = n < cap ? n : cap; SYM_ASSERT(t.size() == want && t.empty() == (want == 0)); size_t i = 0; for (auto q : t) SYM_ASSERT(q == p[i++]); SYM_ASSERT(i == want); }

//@property C12
//@src src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/fifo_paged_memory_resource.cpp src/jogasaki/memory/monotonic_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp
//@stubs
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@libs -ltbb
//@entry c12_page_one quick=60 thorough=200 | one page: any fill position, any 64-bit size, alignments 1..4096 and 2^62
//@entry c12_page_seq quick=60 thorough=300 | three consecutive allocations of any 64-bit size, alignments 1, 8, 4096
//@entry c12_page_back quick=60 thorough=200 | allocate two blocks and release the last one, then allocate again (any 64-bit sizes, alignments 1, 8, 64)
//@entry c12_page_front quick=60 thorough=200 | allocate three blocks and release from the front (any 64-bit sizes, alignments 1, 8, 64)
//@entry c12_monotonic quick=60 thorough=300 | 3 (thorough 4) allocations of any size or page ends; alignments 1, 8
//@entry c12_lifo quick=60 thorough=300 | histories of 4 (thorough 5) allocations of any size (1 byte up) / last-in releases / page ends
//@entry c12_fifo quick=60 thorough=300 | histories of 4 (thorough 5) allocations of any size (1 byte up) / first-in releases / page ends
//@entry c12_pool quick=60 thorough=300 | histories of 5 (thorough 6) page requests (reuse allowed or not) and returns on 1..2 NUMA nodes, thread migrating at every step, pages returned to the OS or kept
//@entry c12_exhausted quick=30 thorough=100 | the OS refuses the k-th page, k in 0..2
#include "mem_pool.h"
#include <new>
#include <vector>
#include <jogasaki/memory/details/page_allocation_info.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
using namespace jogasaki::memory; using pai = details::page_allocation_info;
struct blk { uintptr_t a; size_t n; };
static page_pool::page_info newpage() { mem_pages::reset(); return {jsym_mmap(nullptr, page_size, 0, 0, -1, 0), 0}; }
static void gone(page_pool::page_info p) { jsym_munmap(p.address(), page_size); }
static bool apart(blk x, blk y) { return sym_or(x.a + x.n <= y.a, y.a + y.n <= x.a); }
static uintptr_t up(uintptr_t v, size_t al) { return (v + (al - 1)) & ~(uintptr_t)(al - 1); }
HARNESS(c12_page_one) {
    auto p = newpage(); uintptr_t h = (uintptr_t)p.address(); pai i(p); size_t k = sym_choose(14, "al"); size_t al = k == 13 ? (size_t)1 << 62 : (size_t)1 << k; size_t pos = sym_u32("pos"); sym_assume(pos <= page_size); i.upper_bound_offset(pos); size_t n = sym_u64("n");
    uintptr_t at = up(h + pos, al); size_t room = sym_ite(at - h > page_size, 0, page_size - (at - h)); bool fits = sym_and(at - h <= page_size, n <= room); sym_assert(i.remaining(al) == room, "remaining bytes behind the alignment padding");
    auto* r = i.try_allocate_back(n, al); sym_assert((r != nullptr) == fits, "a block is given exactly when it fits"); if (r) { uintptr_t a = (uintptr_t)r; sym_assert(a == at, "first aligned place behind the used part"); sym_assert(i.upper_bound_offset() == a - h + n, "used part ends behind the block"); sym_assert(i.head().address() == p.address(), "page kept"); }
    else sym_assert(i.upper_bound_offset() == pos, "a refused request changes nothing"); sym_observe("ok", r != nullptr); gone(p);
}
static size_t al3(const char* nm, size_t third) { static const size_t A[] = {1, 8, 0}; size_t k = sym_choose(3, nm); return k == 2 ? third : A[k]; }
HARNESS(c12_page_seq) {
    auto p = newpage(); pai i(p); SYM_ASSERT(i.empty()); blk b[3]; int c = 0; for (int j = 0; j < 3; j++) { size_t al = al3("al", 4096), n = sym_u64("n"); auto* r = i.try_allocate_back(n, al); sym_observe("ok", r != nullptr); if (!r) continue; blk x{(uintptr_t)r, n}; sym_assert(x.a % al == 0, "aligned"); sym_assert(mem_pages::inside(x.a, x.n), "inside the page"); for (int q = 0; q < c; q++) sym_assert(apart(b[q], x), "disjoint from the earlier blocks"); b[c++] = x; }
    sym_assert(i.lower_bound_offset() <= i.upper_bound_offset(), "bounds ordered"); gone(p);
}
HARNESS(c12_page_back) {
    auto p = newpage(); pai i(p); size_t a1 = al3("al", 64), a2 = al3("al", 64), n1 = sym_u64("n"), n2 = sym_u64("n"); sym_assume(n1 && n2); auto* x = i.try_allocate_back(n1, a1); if (!x) { gone(p); return; } size_t u = i.upper_bound_offset(); auto* y = i.try_allocate_back(n2, a2);
    if (y) { SYM_ASSERT(i.try_deallocate_back(y, n2, a2)); sym_assert(i.upper_bound_offset() >= u && i.upper_bound_offset() <= (uintptr_t)y - (uintptr_t)p.address(), "the first block stays allocated, the last one becomes free"); auto* z = i.try_allocate_back(n2, a2); SYM_ASSERT(z == y); SYM_ASSERT(i.try_deallocate_back(z, n2, a2)); }
    SYM_ASSERT(!i.empty()); uintptr_t far = (uintptr_t)p.address() + i.upper_bound_offset(); SYM_ASSERT(!i.try_deallocate_back((void*)far, 1, 1)); SYM_ASSERT(!i.try_deallocate_back((void*)((uintptr_t)p.address() - 1), 1, 1));
    SYM_ASSERT(i.try_deallocate_back(x, n1, a1)); SYM_ASSERT(i.empty()); auto* w = i.try_allocate_back(page_size, 1); SYM_ASSERT(w == p.address()); gone(p);
}
HARNESS(c12_page_front) {
    auto p = newpage(); uintptr_t h = (uintptr_t)p.address(); pai i(p); blk b[3]; size_t al[3]; int c = 0; for (int j = 0; j < 3; j++) { al[c] = al3("al", 64); size_t n = sym_u64("n"); sym_assume(n != 0); auto* r = i.try_allocate_back(n, al[c]); if (r) b[c++] = {(uintptr_t)r, n}; }
    for (int j = 0; j < c; j++) { SYM_ASSERT(!i.empty()); SYM_ASSERT(!i.try_deallocate_front((void*)(h - 1), 1, 1)); if (j + 1 < c) { sym_assert(!i.try_deallocate_front((void*)(h + i.upper_bound_offset()), 1, 1), "nothing behind the used part"); } SYM_ASSERT(i.try_deallocate_front((void*)b[j].a, b[j].n, al[j])); sym_assert(i.lower_bound_offset() == b[j].a + b[j].n - h, "released up to the end of the block"); } SYM_ASSERT(i.empty() || c == 0); sym_observe("c", c); gone(p);
}
// run a history; F: 0 monotonic, 1 lifo, 2 fifo
template <class R> static void history(int F, int steps, bool dealloc) {
    mem_pages::reset(); bool os = sym_choose(2, "os") != 0; jogasaki::global::test_cfg()->return_os_pages(os); { page_pool pool; { R r(&pool); std::vector<blk> live; std::vector<size_t> als;
        for (int s = 0; s < steps; s++) {
            size_t op = sym_choose(dealloc ? 3 : 2, "op"); if (op == 2 && live.empty()) { sym_stop(); return; }
            if (op == 0) { size_t al = sym_choose(2, "al") ? 8 : 1, n = sym_u64("n"); sym_assume(n != 0); void* q = nullptr; bool bad = false; try { q = r.allocate(n, al); } catch (std::bad_alloc const&) { bad = true; } sym_assert(bad == (n > page_size), "refused exactly when larger than a page"); sym_observe("bad", bad); if (bad) continue; blk x{(uintptr_t)q, n}; sym_assert(x.a % al == 0, "aligned"); if (os) sym_assert(mem_pages::inside(x.a, x.n), "inside a page of the resource"); else for (auto& e : live) sym_assert(apart(e, x), "disjoint from the blocks still allocated"); live.push_back(x); als.push_back(al); }
            else if (op == 1) { r.end_current_page(); SYM_ASSERT(r.page_remaining() == page_size); }
            else if (F == 1) { r.deallocate((void*)live.back().a, live.back().n, als.back()); live.pop_back(); als.pop_back(); }
            else { r.deallocate((void*)live.front().a, live.front().n, als.front()); live.erase(live.begin()); als.erase(als.begin()); }
            if (os && op == 2) for (auto& e : live) sym_assert(mem_pages::inside(e.a, e.n), "the pages of live blocks stay"); sym_observe("pages", r.count_pages());
        } } } SYM_ASSERT(mem_pages::live_count() == 0); jogasaki::global::test_cfg()->return_os_pages(false);
}
HARNESS(c12_monotonic) { history<monotonic_paged_memory_resource>(0, QT(3, 4), false); }
HARNESS(c12_lifo) { history<lifo_paged_memory_resource>(1, QT(4, 5), true); }
HARNESS(c12_fifo) { history<fifo_paged_memory_resource>(2, QT(4, 5), true); }
HARNESS(c12_pool) {
    int nodes = 1 + (int)sym_choose(2, "nodes"); mem_pages::reset(nodes); bool os = sym_choose(2, "os") != 0; jogasaki::global::test_cfg()->return_os_pages(os);
    { page_pool pool; mem_pages::migrate = true; std::vector<page_pool::page_info> held; int released = 0; int steps = QT(5, 6);
        for (int s = 0; s < steps; s++) { size_t op = sym_choose(3, "op"); if (op == 2 && held.empty()) { sym_stop(); return; } if (op < 2) { int before = mem_pages::n; auto p = pool.acquire_page(op == 1); SYM_ASSERT(static_cast<bool>(p)); SYM_ASSERT((int)p.birth_place() < nodes); SYM_ASSERT((uintptr_t)p.address() % page_pool::min_alignment == 0); for (auto& h : held) SYM_ASSERT(h.address() != p.address()); int i = mem_pages::idx((uintptr_t)p.address()); SYM_ASSERT(i >= 0 && mem_pages::live[i]); if (op == 1) SYM_ASSERT(mem_pages::n == before + 1); if (nodes == 1 && op == 0) SYM_ASSERT(mem_pages::n == before + (released == 0 ? 1 : 0)); if (mem_pages::n == before) released--; held.push_back(p); }
            else { size_t k = sym_choose(held.size(), "k"); pool.release_page(held[k]); if (!os) released++; else SYM_ASSERT(!mem_pages::live[mem_pages::idx((uintptr_t)held[k].address())]); held.erase(held.begin() + (long)k); } sym_observe("n", mem_pages::n); }
        for (auto& h : held) pool.release_page(h); if (!os) SYM_ASSERT(mem_pages::live_count() == mem_pages::n); } SYM_ASSERT(mem_pages::live_count() == 0);
    jogasaki::global::test_cfg()->return_os_pages(false);
}
HARNESS(c12_exhausted) {
    mem_pages::reset(); { page_pool pool; mem_pages::fail_from = (int)sym_choose(3, "from"); size_t kind = sym_choose(3, "kind"); auto go = [&](paged_memory_resource& r) { int got = 0; for (int i = 0; i < 3; i++) { try { (void)r.allocate(page_size, 1); got++; } catch (std::bad_alloc const&) {} } SYM_ASSERT(got == mem_pages::fail_from); sym_observe("got", got); };
        if (kind == 0) { monotonic_paged_memory_resource r(&pool); go(r); } else if (kind == 1) { lifo_paged_memory_resource r(&pool); go(r); } else { fifo_paged_memory_resource r(&pool); go(r); } } SYM_ASSERT(mem_pages::live_count() == 0);
}

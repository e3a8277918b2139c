//@property C13
//@src src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/fifo_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp
//@stubs
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@libs -ltbb
//@entry c13_lifo quick=60 thorough=400 | histories of 5 (thorough 6) steps: allocate 1..7 bytes, half a page or a page up to 4 bytes off (byte count symbolic, alignment 8), end the page, take a checkpoint, restore the latest one (kept or dropped); pages given back to the OS
//@entry c13_lifo_reuse quick=60 thorough=400 | the same histories with pages returning to the pool: later blocks are disjoint from the kept ones
//@entry c13_initial quick=30 thorough=100 | 0..3 allocations of such sizes with page ends, then everything is cleared with the initial checkpoint, then one page is taken again
//@entry c13_holder quick=60 thorough=200 | nested checkpoint holders around symbolic allocations, optional page end before each, explicit reset 0..2 times
//@entry c13_lazy_holder quick=60 thorough=200 | 4 (thorough 5) steps of set/release/reset/unset/allocate on a lazy holder
//@entry c13_fifo quick=60 thorough=400 | histories of 6 (thorough 7) steps: allocate such sizes, take a checkpoint, release before the oldest checkpoint; pages given back to the OS
//@entry c13_fifo_reuse quick=60 thorough=400 | the same one step shorter with pages returning to the pool
#include "mem_pool.h"
#include <new>
#include <optional>
#include <vector>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/utils/checkpoint_holder.h>
#include <jogasaki/utils/lazy_checkpoint_holder.h>
using namespace jogasaki::memory; using lifo = lifo_paged_memory_resource; using fifo = fifo_paged_memory_resource;
struct blk { uintptr_t a; size_t n; };
static bool apart(blk x, blk y) { return sym_or(x.a + x.n <= y.a, y.a + y.n <= x.a); }
static size_t any_size() { size_t k = sym_choose(3, "k"); size_t d = sym_var("d", 3); sym_assume(sym_and(sym_or(k != 0, d != 0), sym_or(k != 2, d <= 4))); return k * (page_size / 2) + d - (k ? 4 : 0); }
struct track {
    std::vector<blk> live; bool os;
    explicit track(bool o) : os(o) { mem_pages::reset(); jogasaki::global::test_cfg()->return_os_pages(o); }
    ~track() { jogasaki::global::test_cfg()->return_os_pages(false); }
    template <class R> void alloc(R& r) { size_t al = 8, n = any_size(); blk x{(uintptr_t)r.allocate(n, al), n}; sym_assert(x.a % al == 0, "aligned"); if (!os) for (auto& e : live) sym_assert(apart(e, x), "never overlaps what was allocated before and is kept"); live.push_back(x); }
    void check() { if (os) for (auto& e : live) sym_assert(mem_pages::inside(e.a, e.n), "memory that is kept stays mapped"); }
};
struct mark { lifo::checkpoint cp; size_t live, pages, rem; };
static mark take(lifo& r, track& t) { return {r.get_checkpoint(), t.live.size(), r.count_pages(), r.page_remaining()}; }
static void back(lifo& r, track& t, mark const& m) { t.live.resize(m.live); t.check(); SYM_ASSERT(r.count_pages() == m.pages); sym_assert(r.page_remaining() == m.rem, "all the space behind the checkpoint is free again"); SYM_ASSERT(r.get_checkpoint() == m.cp); }
static void lifo_history(bool os) {
    track t(os); { page_pool pool; { lifo r(&pool); std::vector<mark> cps; int steps = QT(5, 6); for (int s = 0; s < steps; s++) { size_t op = s == steps - 1 && !os ? 0 : sym_choose(5, "op"); if (op >= 3 && cps.empty()) { sym_stop(); return; } if (op == 0) t.alloc(r); else if (op == 1) { r.end_current_page(); t.check(); } else if (op == 2) cps.push_back(take(r, t)); else { r.deallocate_after(cps.back().cp); back(r, t, cps.back()); if (op == 4) cps.pop_back(); } sym_observe("pages", r.count_pages()); } } } SYM_ASSERT(mem_pages::live_count() == 0);
}
HARNESS(c13_lifo) { lifo_history(true); }
HARNESS(c13_lifo_reuse) { lifo_history(false); }
HARNESS(c13_initial) {
    track t(true); { page_pool pool; { lifo r(&pool); SYM_ASSERT(r.get_checkpoint() == lifo::initial_checkpoint); size_t k = sym_size("k", 0, 3); for (size_t i = 0; i < k; i++) { if (sym_choose(2, "end")) r.end_current_page(); t.alloc(r); } bool e = sym_choose(2, "endlast") != 0; if (e) r.end_current_page(); r.deallocate_after(lifo::initial_checkpoint); t.live.clear(); SYM_ASSERT(r.count_pages() == 0); SYM_ASSERT(r.page_remaining() == 0); SYM_ASSERT(mem_pages::live_count() <= 1); r.deallocate_after(lifo::initial_checkpoint); SYM_ASSERT(r.count_pages() == 0); SYM_ASSERT(r.get_checkpoint() == lifo::initial_checkpoint); blk x{(uintptr_t)r.allocate(page_size, 8), page_size}; SYM_ASSERT(mem_pages::inside(x.a, x.n)); SYM_ASSERT(r.count_pages() == 1); sym_observe("n", mem_pages::n); } } SYM_ASSERT(mem_pages::live_count() == 0);
}
HARNESS(c13_holder) {
    track t(true); { page_pool pool; { lifo r(&pool); if (sym_choose(2, "pre")) t.alloc(r); if (sym_choose(2, "end0")) r.end_current_page(); mark o = take(r, t); { jogasaki::utils::checkpoint_holder h(&r); if (sym_choose(2, "a1")) t.alloc(r); if (sym_choose(2, "end1")) r.end_current_page(); mark i = take(r, t); { jogasaki::utils::checkpoint_holder g(&r); if (sym_choose(2, "a2")) t.alloc(r); size_t k = sym_size("resets", 0, 2); for (size_t j = 0; j < k; j++) { g.reset(); back(r, t, i); } if (sym_choose(2, "a3")) t.alloc(r); } back(r, t, i); if (sym_choose(2, "a4")) t.alloc(r); } back(r, t, o); t.alloc(r); t.check(); { jogasaki::utils::checkpoint_holder none; none.reset(); } t.check(); } } SYM_ASSERT(mem_pages::live_count() == 0);
}
HARNESS(c13_lazy_holder) {
    track t(true); { page_pool pool; { lifo r(&pool); if (sym_choose(2, "pre")) t.alloc(r); std::optional<mark> m; { jogasaki::utils::lazy_checkpoint_holder h(&r); for (int s = 0; s < QT(4, 5); s++) { size_t op = sym_choose(6, "op"); if (op == 0) { if (m) { sym_stop(); return; } m = take(r, t); h.set_checkpoint(); } else if (op == 1) { h.release(); if (m) back(r, t, *m); } else if (op == 2) { h.reset(); if (m) back(r, t, *m); m.reset(); } else if (op == 3) { h.unset(); m.reset(); } else if (op == 4) t.alloc(r); else r.end_current_page(); t.check(); } } t.check(); jogasaki::utils::lazy_checkpoint_holder none; none.set_checkpoint(); none.release(); none.reset(); t.check(); } } SYM_ASSERT(mem_pages::live_count() == 0);
}
static void fifo_history(bool os) {
    track t(os); { page_pool pool; { fifo r(&pool); struct fm { fifo::checkpoint cp; size_t before; }; std::vector<fm> cps; size_t gone = 0; int steps = os ? QT(6, 7) : QT(5, 6); for (int s = 0; s < steps; s++) { size_t op = s == steps - 1 && !os ? 0 : sym_choose(3, "op"); if (op == 2 && cps.empty()) { sym_stop(); return; } if (op == 0) t.alloc(r); else if (op == 1) cps.push_back({r.get_checkpoint(), gone + t.live.size()}); else { fm m = cps.front(); cps.erase(cps.begin()); r.deallocate_before(m.cp); size_t d = m.before - gone; t.live.erase(t.live.begin(), t.live.begin() + (long)d); gone += d; t.check(); if (t.live.empty()) SYM_ASSERT(r.count_pages() <= 1); } sym_observe("pages", r.count_pages()); } } } SYM_ASSERT(mem_pages::live_count() == 0);
}
HARNESS(c13_fifo) { fifo_history(true); }
HARNESS(c13_fifo_reuse) { fifo_history(false); }

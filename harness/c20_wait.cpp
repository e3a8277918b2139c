//@property C20
//@src src/jogasaki/utils/latch.cpp
//@threads
//@entry c20_latch_waiters quick=120 thorough=400 preempt=2 spurious=1 | one releasing thread and one or two waiting threads (plain or timed wait), every schedule with at most 2 preemptions and one spurious wake-up
//@entry c20_latch_deep quick=60 thorough=400 preempt=8 spurious=2 | one waiter, one releaser, every schedule with at most 8 preemptions and two spurious wake-ups
//@entry c20_latch_initial quick=30 thorough=100 preempt=3 | created released or not, released before/after; one thread
//@entry c20_latch_reuse quick=120 thorough=400 preempt=3 | release, wait, reset, then a new waiter and releaser (two rounds)
//@entry c20_latch_pulse quick=60 thorough=300 preempt=3 spurious=1 | a sleeping waiter (plain or timed), release immediately followed by reset
//@entry c20_latch_two_release quick=60 thorough=300 preempt=3 | two releasers and one waiter
//@entry c20_atomic_wait quick=60 thorough=400 preempt=6 spurious=1 | one waiter and one setter; values symbolic (8 bits); notify_one or notify_all; plain or timed wait
//@entry c20_atomic_two quick=120 thorough=400 preempt=3 | two waiters and one setter with notify_all
//@entry c20_atomic_steps quick=60 thorough=400 preempt=4 | the setter changes the value twice (second value symbolic), notifying after each change
//@entry c20_atomic_cas quick=60 thorough=200 preempt=6 | two threads exchange on the same value, one waiter; exactly one exchange succeeds
//@entry c20_atomic_value quick=30 thorough=60 | store, load, assignment, conversion, both exchanges on symbolic 64-bit values
#include "sym.h"
#include <chrono>
#include <thread>
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/waitable_atomic.h>
using namespace jogasaki::utils;
template <class F> static void spawn(F& f) { jsym_spawn([](void* a) { (*static_cast<F*>(a))(); }, &f); }
using ms = std::chrono::milliseconds;
HARNESS(c20_latch_waiters) {
    latch l; bool released = false; int back = 0; bool two = sym_choose(2, "two") != 0; bool t1 = sym_choose(2, "timed") != 0;
    auto w1 = [&] { if (t1) { bool r = l.wait(ms(10)); if (r) SYM_ASSERT(released); back++; } else { l.wait(); SYM_ASSERT(released); back++; } };
    auto w2 = [&] { l.wait(); SYM_ASSERT(released); back++; }; auto r = [&] { released = true; l.release(); };
    spawn(w1); if (two) spawn(w2); spawn(r); jsym_join_all(); SYM_ASSERT(back == 1 + (two ? 1 : 0)); SYM_ASSERT(l.wait(ms(1))); l.wait(); sym_observe("back", back);
}
HARNESS(c20_latch_deep) { latch l; bool released = false, back = false; auto w = [&] { l.wait(); SYM_ASSERT(released); back = true; }; auto r = [&] { released = true; l.release(); }; spawn(w); spawn(r); jsym_join_all(); SYM_ASSERT(back); }
HARNESS(c20_latch_initial) { bool init = sym_choose(2, "init") != 0; latch l(init); bool rel = init; for (int i = 0; i < 3; i++) { switch (sym_choose(3, "op")) { case 0: l.release(); rel = true; break; case 1: l.reset(); rel = false; break; default: break; } if (rel) { l.wait(); SYM_ASSERT(l.wait(ms(5))); } else { SYM_ASSERT(!l.wait(ms(5))); } } sym_observe("rel", rel); }
HARNESS(c20_latch_reuse) {
    latch l; int round = 1, released = 0; 
    auto r = [&] { released = round; l.release(); }; auto w = [&] { l.wait(); SYM_ASSERT(released == round); };
    spawn(r); spawn(w); jsym_join_all(); l.wait(); l.reset(); round = 2; bool timed = sym_choose(2, "timed") != 0;
    auto w2 = [&] { if (timed) { if (l.wait(ms(3))) SYM_ASSERT(released == 2); } else { l.wait(); SYM_ASSERT(released == 2); } };
    spawn(w2); spawn(r); jsym_join_all(); SYM_ASSERT(released == 2); l.wait();
}
// a release wakes whoever waits at that time, even when the latch is re-armed before the waiter runs
HARNESS(c20_latch_pulse) { latch l; bool timed = sym_choose(2, "timed") != 0, back = false, released = false; auto w = [&] { if (timed) { if (l.wait(ms(10))) SYM_ASSERT(released); } else { l.wait(); SYM_ASSERT(released); } back = true; }; spawn(w); std::this_thread::yield(); bool asleep = jsym_asleep(1); sym_observe("asleep", asleep); released = true; l.release(); if (asleep) { l.reset(); } jsym_join_all(); SYM_ASSERT(back); }
HARNESS(c20_latch_two_release) { latch l; int rel = 0; bool back = false; auto r = [&] { rel++; l.release(); }; auto w = [&] { l.wait(); SYM_ASSERT(rel >= 1); back = true; }; auto r2 = r; spawn(w); spawn(r); spawn(r2); jsym_join_all(); SYM_ASSERT(back); l.wait(); }
HARNESS(c20_atomic_wait) {
    uint8_t v0 = sym_u8("v0"), v1 = sym_u8("v1"); sym_assume(v0 != v1); waitable_atomic<uint8_t> a(v0); bool timed = sym_choose(2, "timed") != 0, one = sym_choose(2, "one") != 0, set = false, back = false;
    auto w = [&] { if (timed) { if (a.wait_for(ms(2), v0)) { SYM_ASSERT(set); SYM_ASSERT(a.load() == v1); } } else { a.wait(v0); SYM_ASSERT(set); SYM_ASSERT(a.load() == v1); } back = true; };
    auto s = [&] { set = true; a.store(v1); if (one) a.notify_one(); else a.notify_all(); }; spawn(w); spawn(s); jsym_join_all(); SYM_ASSERT(back); SYM_ASSERT(static_cast<uint8_t>(a) == v1); a.wait(v0); SYM_ASSERT(a.wait_for(ms(1), v0)); SYM_ASSERT(!a.wait_for(ms(1), v1));
}
HARNESS(c20_atomic_two) { waitable_atomic_bool a(false); bool set = false; int back = 0; auto w1 = [&] { a.wait(false); SYM_ASSERT(set); back++; }; auto w2 = w1; auto s = [&] { set = true; a = true; a.notify_all(); }; spawn(w1); spawn(w2); spawn(s); jsym_join_all(); SYM_ASSERT(back == 2); }
HARNESS(c20_atomic_steps) { uint8_t v = sym_u8("v"); sym_assume(v != 0); waitable_atomic<uint8_t> a(0); int step = 0; auto w = [&] { a.wait(0); SYM_ASSERT(step >= 1); }; auto s = [&] { step = 1; a.store(1); a.notify_one(); step = 2; a.store(v); a.notify_one(); }; spawn(w); spawn(s); jsym_join_all(); SYM_ASSERT(a.load() == v); }
HARNESS(c20_atomic_cas) { waitable_atomic<uint32_t> a(0); int won = 0; uint32_t seen = 9; auto c1 = [&] { uint32_t e = 0; if (a.compare_exchange_strong(e, 1)) won++; else SYM_ASSERT(e == 2); a.notify_all(); }; auto c2 = [&] { uint32_t e = 0; while (!a.compare_exchange_weak(e, 2)) { if (e != 0) { SYM_ASSERT(e == 1); break; } } if (e == 0) won++; a.notify_all(); }; auto w = [&] { a.wait(0); seen = a.load(); }; spawn(w); spawn(c1); spawn(c2); jsym_join_all(); SYM_ASSERT(won == 1); SYM_ASSERT(seen == a.load()); }
HARNESS(c20_atomic_value) { uint64_t x = sym_u64("x"), y = sym_u64("y"), z = sym_u64("z"); waitable_atomic<uint64_t> a(x); SYM_ASSERT(a.load() == x); uint64_t e = y; bool r = a.compare_exchange_strong(e, z); SYM_ASSERT(r == (x == y)); SYM_ASSERT(e == x); SYM_ASSERT(a.load() == sym_ite(x == y, z, x)); a = y; SYM_ASSERT(static_cast<uint64_t>(a) == y); e = y; SYM_ASSERT(a.compare_exchange_weak(e, x)); SYM_ASSERT(a.load() == x); a.store(z); SYM_ASSERT(a.load() == z); waitable_atomic<uint64_t> d; SYM_ASSERT(d.load() == 0); }

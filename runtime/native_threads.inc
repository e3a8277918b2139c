// Deterministic scheduler for replaying an interleaving natively: the program's threads are coroutines,
// atomics arrive through the compiler's -fsanitize=thread instrumentation hooks (no TSan runtime is linked),
// mutexes and condition variables through interposed pthread functions.
#include <ucontext.h>
#include <pthread.h>
#include <map>
#include <cerrno>
#include <time.h>
namespace {
enum TSt { Run, WantMutex, CvWait, Done, Join, WantRd, WantWr };
struct Th { ucontext_t ctx; TSt ts{Run}; void* want{nullptr}; void* cv{nullptr}; bool reacq{false}, timed{false}, atPoint{true}; unsigned long deadline{0}; int rv{0}; void (*f)(void*); void* a; };
struct Mx { int owner{-1}; int cnt{0}; int readers{0}; };
std::vector<Th*> g_th; int g_cur = 0; bool g_grant = false, g_on = false; unsigned long g_clock = 0; std::map<void*, Mx>* g_mx; 
void (*g_main)();
int nextSched() { if (g_spos >= g_sched.size()) return -1; return g_sched[g_spos++]; }
void finish(const char* m, int code) { printf("%s\n", m); fflush(stdout); _exit(code); }
bool en(int i) { auto& t = *g_th[i]; switch (t.ts) { case Run: return true; case WantMutex: return (*g_mx)[t.want].owner < 0; case CvWait: return true; case Join: for (size_t k = 1; k < g_th.size(); k++) if (g_th[k]->ts != Done) return false; return true; case WantRd: return (*g_mx)[t.want].owner < 0; case WantWr: return (*g_mx)[t.want].owner < 0 && !(*g_mx)[t.want].readers; default: return false; } }
void sw(int t) { int me = g_cur; g_cur = t; if (t != me) swapcontext(&g_th[me]->ctx, &g_th[t]->ctx); }
// transfer control according to the recorded schedule; returns when this thread is activated again
void reschedule(bool visible) {
    (void)visible; for (;;) { int me = g_cur; bool any = false; for (size_t i = 0; i < g_th.size(); i++) if (en((int)i) && (g_th[i]->ts != CvWait || g_th[i]->timed)) any = true;
        int t = nextSched();
        if (t < 0) { // end of the recorded schedule: continue with the first runnable thread
            if (!any) finish("DEADLOCK", 12);
            if (g_th[me]->ts == Run) t = me; else for (size_t i = 0; i < g_th.size(); i++) if (en((int)i) && (g_th[i]->ts != CvWait || g_th[i]->timed)) { t = (int)i; break; } }
        if (getenv("SYM_TRACE")) { printf("SCHED pos=%zu cur=%d(ts %d) -> %d\n", g_spos, me, (int)g_th[me]->ts, t); for (size_t i = 0; i < g_th.size(); i++) printf("   th%zu ts=%d\n", i, (int)g_th[i]->ts); }
        if (t >= (int)g_th.size() || !en(t)) finish("DIVERGED schedule", 97);
        auto& T = *g_th[t]; bool resume = true;
        switch (T.ts) {
        case CvWait: if (T.timed) { T.rv = ETIMEDOUT; if (T.deadline > g_clock) g_clock = T.deadline; } T.ts = WantMutex; if ((*g_mx)[T.want].owner < 0) { (*g_mx)[T.want] = {t, 1, 0}; T.ts = Run; T.reacq = false; g_grant = false; } else { resume = false; g_grant = false; } break;
        case WantMutex: T.ts = Run; if (T.reacq) { (*g_mx)[T.want] = {t, 1, 0}; T.reacq = false; g_grant = false; } else g_grant = true; break;
        case WantRd: case WantWr: case Join: T.ts = Run; g_grant = true; break;
        default: g_grant = T.atPoint; T.atPoint = true; }
        if (!resume) continue; // the engine activates it and schedules again at once
        sw(t); return; }
}
void point() { if (!g_on || g_grant || g_th.size() < 2) return; size_t live = 0; for (auto* t : g_th) if (t->ts != Done) live++; if (live > 1) reschedule(true); }
void after_release() { g_grant = false; size_t live = 0; for (auto* t : g_th) if (t->ts != Done) live++; if (live > 1) { g_th[g_cur]->atPoint = false; reschedule(true); } }
unsigned long dl(clockid_t c, const struct timespec* t) { long base = c == CLOCK_MONOTONIC ? 1000000000L : 1700000000000000000L; long tot = t->tv_sec * 1000000000L + t->tv_nsec - base; return tot <= 0 ? 0 : (tot + 999) / 1000; }
void tramp() { auto* t = g_th[g_cur]; t->f(t->a); t->ts = Done; g_grant = false; reschedule(false); }
}
// locks taken inside shared libraries (glog, libstdc++) are no scheduling points: the engine does not see them
extern "C" char __executable_start, etext;
#define LIBCALL() ([](void* ra) { return (char*)ra < &__executable_start || (char*)ra >= &etext; }(__builtin_return_address(0)))
extern "C" {
int jsym_spawn(void (*f)(void*), void* a) { point(); auto* t = new Th; t->f = f; t->a = a; t->atPoint = false; getcontext(&t->ctx); size_t sz = 1 << 20; t->ctx.uc_stack.ss_sp = malloc(sz); t->ctx.uc_stack.ss_size = sz; t->ctx.uc_link = nullptr; makecontext(&t->ctx, tramp, 0); g_th.push_back(t); g_grant = false; return 0; }
int jsym_join_all() { for (;;) { bool all = true; for (size_t k = 1; k < g_th.size(); k++) if (g_th[k]->ts != Done) all = false; if (all) return 0; g_th[g_cur]->ts = Join; g_grant = false; reschedule(false); } }
int jsym_tid() { return g_cur; }
int jsym_blocked(int i) { return g_th[i]->ts == CvWait || g_th[i]->ts == WantMutex; }
int jsym_asleep(int i) { return g_th[i]->ts == CvWait; }
int sched_yield() { point(); g_grant = false; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!g_on || LIBCALL()) return 0; point(); for (;;) { auto& x = (*g_mx)[m]; if (x.owner < 0) { x.owner = g_cur; x.cnt = 1; g_grant = false; return 0; } if (x.owner == g_cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { x.cnt++; g_grant = false; return 0; } auto& T = *g_th[g_cur]; T.ts = WantMutex; T.want = m; T.reacq = false; g_grant = false; reschedule(false); } }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_on || LIBCALL()) return 0; point(); auto& x = (*g_mx)[m]; int r = EBUSY; if (x.owner < 0) { x.owner = g_cur; x.cnt = 1; r = 0; } g_grant = false; return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_on || LIBCALL()) return 0; auto& x = (*g_mx)[m]; if (x.owner != g_cur) finish("BAD-UNLOCK", 13); if (--x.cnt == 0) x.owner = -1; g_grant = false; after_release(); return 0; }
static int cw(pthread_cond_t* c, pthread_mutex_t* m, bool timed, unsigned long dlv = 0) { if (!g_on) return timed ? ETIMEDOUT : 0; point(); auto& x = (*g_mx)[m]; if (x.owner != g_cur) finish("BAD-WAIT", 13); x.owner = -1; x.cnt = 0; auto& T = *g_th[g_cur]; T.ts = CvWait; T.cv = c; T.want = m; T.reacq = true; T.timed = timed; T.rv = 0; T.deadline = dlv; g_grant = false; reschedule(false); return g_th[g_cur]->rv; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cw(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cw(c, m, true, dl(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cw(c, m, true, dl(k, t)); }
int clock_gettime(clockid_t c, struct timespec* t) { unsigned long n = ++g_clock; unsigned long ns = (c == CLOCK_MONOTONIC ? 1000000000UL : 1700000000000000000UL) + n * 1000; t->tv_sec = ns / 1000000000UL; t->tv_nsec = ns % 1000000000UL; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g_on) return 0; point(); for (auto* t : g_th) if (t->ts == CvWait && t->cv == c) { t->ts = WantMutex; t->timed = false; t->rv = 0; } g_grant = false; return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (!g_on) return 0; point(); std::vector<int> ws; for (size_t i = 0; i < g_th.size(); i++) if (g_th[i]->ts == CvWait && g_th[i]->cv == c) ws.push_back((int)i); if (!ws.empty()) { int w = ws[0]; if (ws.size() > 1) { int s = nextSched(); if (s >= 128) w = s - 128; } g_th[w]->ts = WantMutex; g_th[w]->timed = false; g_th[w]->rv = 0; } g_grant = false; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!g_on || LIBCALL()) return 0; point(); for (;;) { auto& x = (*g_mx)[m]; if (x.owner < 0) { x.readers++; g_grant = false; return 0; } auto& T = *g_th[g_cur]; T.ts = WantRd; T.want = m; g_grant = false; reschedule(false); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!g_on || LIBCALL()) return 0; point(); for (;;) { auto& x = (*g_mx)[m]; if (x.owner < 0 && !x.readers) { x.owner = g_cur; g_grant = false; return 0; } auto& T = *g_th[g_cur]; T.ts = WantWr; T.want = m; g_grant = false; reschedule(false); } }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!g_on || LIBCALL()) return 0; point(); auto& x = (*g_mx)[m]; int r = EBUSY; if (x.owner < 0) { x.readers++; r = 0; } g_grant = false; return r; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!g_on || LIBCALL()) return 0; point(); auto& x = (*g_mx)[m]; int r = EBUSY; if (x.owner < 0 && !x.readers) { x.owner = g_cur; r = 0; } g_grant = false; return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!g_on || LIBCALL()) return 0; auto& x = (*g_mx)[m]; if (x.owner == g_cur) x.owner = -1; else if (x.readers > 0) x.readers--; else finish("BAD-UNLOCK", 13); g_grant = false; after_release(); return 0; }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int) { point(); T r = *a; g_grant = false; return r; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { point(); *a = v; g_grant = false; } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { point(); T r = *a; *a = v; g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { point(); T r = *a; *a = (T)(r + v); g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { point(); T r = *a; *a = (T)(r - v); g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { point(); T r = *a; *a = (T)(r & v); g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { point(); T r = *a; *a = (T)(r | v); g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { point(); T r = *a; *a = (T)(r ^ v); g_grant = false; return r; } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { point(); T r = *a; *a = (T)~(r & v); g_grant = false; return r; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { point(); T r = *a; g_grant = false; if (r == *e) { *a = v; return 1; } *e = r; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { point(); T r = *a; g_grant = false; if (r == *e) { *a = v; return 1; } *e = r; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int, int) { point(); T r = *a; g_grant = false; if (r == e) *a = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_init() {} void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
}
static void run_threads(void (*fn)()) { g_mx = new std::map<void*, Mx>; auto* m = new Th; g_th.push_back(m); g_on = true; fn(); g_on = false; }

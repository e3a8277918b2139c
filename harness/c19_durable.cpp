//@property C19
//@src src/jogasaki/durability_manager.cpp src/jogasaki/transaction_state.cpp src/jogasaki/transaction_context.cpp src/jogasaki/error/error_info.cpp src/jogasaki/storage/storage_manager.cpp src/jogasaki/storage/shared_lock.cpp src/jogasaki/storage/unique_lock.cpp src/jogasaki/storage/reference_scope.cpp src/jogasaki/auth/action_set.cpp src/jogasaki/auth/authorized_users_action_set.cpp
//@stubs
//@inc stubs_tx stubs_tbb
//@threads
//@proto jogasaki/proto/metadata/storage.proto
//@entry c19_history quick=60 thorough=300 preempt=0 | histories of 4 operations (thorough 5) over up to 3 waiters, every marker value, any of them cancelled
//@entry c19_commits quick=60 thorough=300 preempt=3 | one or two commits with any marker against one announcement, quick update, cancel check or diagnostic, every schedule with at most 3 preemptions (thorough 4)
//@entry c19_updates quick=60 thorough=300 preempt=2 | two announcements, updates or cancel checks with any markers against each other and one commit, one transaction waiting already, at most 2 preemptions (thorough 3)
#include "sym.h"
#include "fail_env.h"
#include <functional>
#include <sstream>
#include <thread>
#include "sp_lock.h"
#include <jogasaki/durability_manager.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki;
namespace jogasaki::global { std::shared_ptr<storage::storage_manager> storage_mgr; std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager> a) { if (a) storage_mgr = a; if (!storage_mgr) storage_mgr = std::make_shared<storage::storage_manager>(); return storage_mgr; } }
static bool cancel_on; namespace jogasaki::utils { bool request_cancel_enabled(request_cancel_kind k) noexcept { SYM_ASSERT(k == request_cancel_kind::transaction_durable_wait); return cancel_on; } }
struct job { std::function<void()> f; }; static void run(std::vector<job>& js) { for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all(); }
struct world { durability_manager m; uint64_t mk[4]; std::shared_ptr<request_context> c[4]; bool queued[4] = {}, added[4] = {}, gone[4] = {}, dead[4] = {}; int calls[4] = {}, cancels[4] = {}; uint64_t announced = 0; bool any = false; size_t n = 0;
    size_t fresh(uint64_t marker, bool src = true) { size_t i = n++; mk[i] = marker; auto t = std::make_shared<transaction_context>(std::make_shared<kvs::transaction>()); t->durability_marker(marker); c[i] = std::make_shared<request_context>(); c[i]->t = t; if (src) c[i]->info.s = std::make_shared<stub_source>(); if (i % 2 == 0) { c[i]->j = std::make_shared<stub_job>(); c[i]->j->i = 0xab + i; } return i; }
    size_t idx(std::shared_ptr<request_context> const& r) { for (size_t i = 0; i < n; i++) if (c[i] == r) return i; SYM_ASSERT(!"unknown transaction"); return 0; }
    durability_manager::callback upd(uint64_t M) { return [this, M](std::shared_ptr<request_context> const& r) { size_t i = idx(r); SYM_ASSERT(!gone[i] && queued[i]); SYM_ASSERT(mk[i] <= M); gone[i] = true; calls[i]++; }; }
    durability_manager::callback can() { return [this](std::shared_ptr<request_context> const& r) { size_t i = idx(r); SYM_ASSERT(!gone[i] && queued[i]); SYM_ASSERT(dead[i]); gone[i] = true; cancels[i]++; }; } };
HARNESS(c19_history) {
    world w; bool set = false; uint64_t cur = 0; { bool t = false; try { (void)w.m.current_marker(); } catch (std::logic_error const&) { t = true; } SYM_ASSERT(t); } cancel_on = sym_choose(2, "cancel enabled");
    for (int k = 0; k < QT(4, 5); k++) { switch (sym_choose(5, "op")) {
        case 0: { if (w.n == 3) sym_stop(); size_t i = w.fresh(sym_u64("marker"), w.n != 2); w.queued[i] = true; w.m.add_to_waitlist(w.c[i]); break; }
        case 1: { uint64_t M = sym_u64("announced"); bool before[4]; for (size_t i = 0; i < w.n; i++) before[i] = w.gone[i]; SYM_ASSERT(w.m.update_current_marker(M, w.upd(M))); if (!set || cur < M) cur = M; set = true; for (size_t i = 0; i < w.n; i++) SYM_ASSERT(w.gone[i] == sym_or(before[i], w.mk[i] <= M)); break; }
        case 2: { uint64_t M = sym_u64("announced"); size_t waiting = 0; for (size_t i = 0; i < w.n; i++) waiting += !w.gone[i]; bool r = w.m.instant_update_if_waitlist_empty(M); SYM_ASSERT(r == (waiting == 0)); if (r) { if (!set || cur < M) cur = M; set = true; } break; }
        case 3: { bool gone[4]; for (size_t i = 0; i < w.n; i++) { gone[i] = w.gone[i]; if (!gone[i] && w.c[i]->info.s && !w.dead[i]) { w.dead[i] = sym_choose(2, "cancelled"); w.c[i]->info.s->cancelled = w.dead[i]; } } SYM_ASSERT(w.m.check_cancel(w.can())); for (size_t i = 0; i < w.n; i++) SYM_ASSERT(w.gone[i] == (gone[i] || (cancel_on && w.dead[i]))); break; }
        case 4: { if (!w.n) sym_stop(); size_t waiting = 0; for (size_t i = 0; i < w.n; i++) waiting += !w.gone[i]; bool small = true; std::ostringstream s; for (size_t i = 0; i < w.n; i++) if (!w.gone[i]) { if (w.mk[i] > 9) small = false; } if (!small) sym_stop(); w.m.print_diagnostic(s); auto d = s.str(); SYM_ASSERT(d.rfind("durable_wait_count: " + std::to_string(waiting) + "\n", 0) == 0); size_t rows = 0; for (size_t p = 0; (p = d.find("  - transaction id: tx\n", p)) != std::string::npos; p++) rows++; SYM_ASSERT(rows == waiting); for (size_t i = 0; i < w.n; i++) if (!w.gone[i]) SYM_ASSERT(d.find("    marker: " + std::to_string(w.mk[i]) + "\n") != std::string::npos); break; } }
        if (set) SYM_ASSERT(w.m.current_marker() == cur); for (size_t i = 0; i < w.n; i++) SYM_ASSERT(w.calls[i] + w.cancels[i] == (w.gone[i] ? 1 : 0)); }
    uint64_t M = sym_u64("last"); for (size_t i = 0; i < w.n; i++) sym_assume(w.mk[i] <= M); SYM_ASSERT(w.m.update_current_marker(M, w.upd(M))); for (size_t i = 0; i < w.n; i++) SYM_ASSERT(w.gone[i] && w.calls[i] + w.cancels[i] == 1); SYM_ASSERT(w.m.instant_update_if_waitlist_empty(M)); }
// what executor.cpp does when the precommit of a transaction finished
static void commit(world& w, size_t i) { uint64_t cm = w.m.current_marker(); if (w.mk[i] <= cm) { SYM_ASSERT(cm <= w.announced); SYM_ASSERT(!w.gone[i] && !w.queued[i]); w.gone[i] = true; w.calls[i]++; return; } w.queued[i] = true; w.m.add_to_waitlist(w.c[i]); w.added[i] = true; }
static bool act(world& w, size_t op, uint64_t M) {
    bool was[4], r = true; for (size_t i = 0; i < 4; i++) was[i] = w.added[i] && !w.gone[i]; switch (op) {
        case 0: { if (w.announced < M) w.announced = M; r = w.m.update_current_marker(M, w.upd(M)); if (!r) break; SYM_ASSERT(w.m.current_marker() >= M); for (size_t i = 0; i < w.n; i++) if (was[i]) SYM_ASSERT(w.gone[i] || w.mk[i] > M); break; }
        case 1: { if (w.announced < M) w.announced = M; r = w.m.instant_update_if_waitlist_empty(M); if (!r) break; SYM_ASSERT(w.m.current_marker() >= M); for (size_t i = 0; i < w.n; i++) if (was[i]) SYM_ASSERT(w.gone[i]); break; }
        case 2: { r = w.m.check_cancel(w.can()); if (r) for (size_t i = 0; i < w.n; i++) if (was[i] && w.dead[i]) SYM_ASSERT(w.gone[i]); break; }
        case 3: { std::ostringstream s; w.m.print_diagnostic(s); break; } } return r; }
static void finish(world& w) {
    uint64_t c = w.m.current_marker(); SYM_ASSERT(c <= w.announced); uint64_t M = 9; w.announced = M; SYM_ASSERT(w.m.update_current_marker(M, w.upd(M))); SYM_ASSERT(w.m.current_marker() == M); for (size_t i = 0; i < w.n; i++) { SYM_ASSERT(w.gone[i]); SYM_ASSERT(w.calls[i] + w.cancels[i] == 1); if (w.cancels[i]) SYM_ASSERT(w.dead[i]); } SYM_ASSERT(w.m.instant_update_if_waitlist_empty(M)); }
static uint64_t small(const char* nm) { uint64_t v = sym_u64(nm); sym_assume(v <= 9); return v; }
HARNESS(c19_commits) {
    world w; cancel_on = true; SYM_ASSERT(w.m.instant_update_if_waitlist_empty(1)); w.announced = 1; size_t n = 1 + sym_choose(2, "commits"); for (size_t i = 0; i < n; i++) { w.fresh(small("marker")); w.dead[i] = sym_choose(2, "cancelled"); w.c[i]->info.s->cancelled = w.dead[i]; } size_t op = sym_choose(4, "op"); if (op != 2) for (size_t i = 0; i < n; i++) if (w.dead[i]) sym_stop(); if (op == 3 && n == 2) for (size_t i = 0; i < n; i++) w.mk[i] = 5, w.c[i]->t->durability_marker(5); if (op == 3) for (size_t i = 0; i < n; i++) w.mk[i] = i + 2, w.c[i]->t->durability_marker(i + 2); uint64_t M = op < 2 ? small("announced") : 0; std::vector<job> js;
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { commit(w, i); }}); js.push_back({[&] { uint64_t a = w.m.current_marker(); bool r = act(w, op, M); if (op != 1) SYM_ASSERT(r); SYM_ASSERT(w.m.current_marker() >= a); }}); run(js); finish(w); }
HARNESS(c19_updates) {
    world w; cancel_on = true; SYM_ASSERT(w.m.instant_update_if_waitlist_empty(1)); w.announced = 1; size_t a = w.fresh(small("waiting")); w.queued[a] = true; w.m.add_to_waitlist(w.c[a]); w.added[a] = true; size_t b = w.fresh(small("committing")); w.dead[a] = sym_choose(2, "cancelled"); w.c[a]->info.s->cancelled = w.dead[a]; size_t p = sym_choose(3, "first"), q = sym_choose(3, "second"); if (p > q) sym_stop(); if (p != 2 && q != 2 && w.dead[a]) sym_stop(); uint64_t M = p < 2 ? small("announced") : 0, N = q < 2 ? small("announced") : 0; bool third = sym_choose(2, "commit"); if (!third) { w.gone[b] = true; w.calls[b] = 1; } std::vector<job> js;
    bool r[2] = {}; for (int k = 0; k < 2; k++) js.push_back({[&, k] { uint64_t x = w.m.current_marker(); r[k] = act(w, k ? q : p, k ? N : M); SYM_ASSERT(w.m.current_marker() >= x); }}); if (third) js.push_back({[&] { commit(w, b); }}); run(js); if (p != 1 && q != 1) SYM_ASSERT(r[0] || r[1]); finish(w); }

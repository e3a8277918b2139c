//@property C16
//@src src/jogasaki/transaction_state.cpp src/jogasaki/transaction_context.cpp src/jogasaki/error/error_info.cpp src/jogasaki/storage/storage_manager.cpp src/jogasaki/storage/shared_lock.cpp src/jogasaki/storage/unique_lock.cpp src/jogasaki/storage/reference_scope.cpp src/jogasaki/auth/action_set.cpp src/jogasaki/auth/authorized_users_action_set.cpp
//@stubs
//@inc stubs_tx stubs_tbb
//@threads
//@proto jogasaki/proto/metadata/storage.proto
//@entry c16_table quick=60 thorough=60 preempt=0 | any two transition requests from any transaction state
//@entry c16_states quick=60 thorough=200 preempt=3 spurious=1 | two threads requesting one or two transitions each from any state, every schedule with at most 3 preemptions (thorough 4), one spurious compare-exchange failure
//@entry c16_finish quick=60 thorough=300 preempt=3 | one or two tasks against one or two commit or abort requests following the engine's protocol, from any number of tasks already running, every schedule with at most 3 preemptions (thorough 4)
//@entry c16_count quick=60 thorough=60 preempt=0 | any sequence of 5 task starts, task ends, commit and abort requests, from any task use count
//@entry c16_worker quick=60 thorough=200 preempt=3 | two or three workers with any indices entering and leaving a transaction, every schedule with at most 3 preemptions (thorough 4)
//@entry c16_error quick=60 thorough=200 preempt=3 | two or three threads reporting errors to one transaction while another changes its state, every schedule with at most 3 preemptions (thorough 4)
//@entry c16_ends quick=60 thorough=60 preempt=0 | commit, asynchronous commit or abort, any engine result, holding locks and references
#include "sym.h"
#include "fail_env.h"
#include <functional>
#include <thread>
#include "sp_lock.h"
#include <limestone/api/blob_pool.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
using namespace jogasaki; using K = transaction_state_kind;
static std::unique_ptr<storage::storage_manager> sm; namespace jogasaki::global { std::shared_ptr<storage::storage_manager> storage_mgr; std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager> a) { if (a) storage_mgr = a; return storage_mgr; } }
struct job { std::function<void()> f; }; static void run(std::vector<job>& js) { for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all(); }
static std::shared_ptr<transaction_context> tx() { if (!global::storage_mgr) global::storage_mgr = std::make_shared<storage::storage_manager>(); return std::make_shared<transaction_context>(std::make_shared<kvs::transaction>()); }
// the documented life of a transaction: what state may follow what (a request for any other one is ignored)
static bool may(K a, K b) { if (a == b) return false; if (b == K::unknown) return true; if (b == K::undefined) return false; if (b == K::init) return a == K::undefined; switch (a) { case K::init: case K::active: return true; case K::going_to_commit: return b == K::cc_committing || b == K::committed_available || b == K::committed_stored || b == K::aborted; case K::cc_committing: return b == K::committed_available || b == K::committed_stored || b == K::aborted; case K::going_to_abort: return b == K::aborted; case K::committed_available: return b == K::committed_stored; default: return false; } }
static K any(const char* nm) { return (K)sym_choose(10, nm); }
static void start(transaction_state& s, K k) { if (k != K::undefined) SYM_ASSERT(s.set_if(K::undefined, k)); }
HARNESS(c16_table) {
    transaction_state s; SYM_ASSERT(s.kind() == K::undefined); K a = any("from"), b = any("to"), c = any("then"); start(s, a); s.set(b); K w = may(a, b) ? b : a; SYM_ASSERT(s.kind() == w); if (sym_choose(2, "conditional")) { K e = any("expected"); if (e != w && c != b) sym_stop(); SYM_ASSERT(s.set_if(e, c) == (e == w)); SYM_ASSERT(s.kind() == (e == w ? c : w)); } else { s.set(c); K v = may(w, c) ? c : w; SYM_ASSERT(s.kind() == v); if (w == K::aborted || w == K::committed_stored) SYM_ASSERT(v == w || v == K::unknown); } }
HARNESS(c16_states) {
    transaction_state s; K from = any("from"); start(s, from); std::vector<K> want[2]; want[0] = {any("first")}; want[1] = {any("second")}; if (want[0][0] > want[1][0]) sym_stop(); if (sym_choose(2, "more")) { static const K more[] = {K::aborted, K::committed_available, K::committed_stored, K::going_to_commit}; want[0].push_back(more[sym_choose(QT(2, 4), "third")]); } std::vector<job> js; bool okay = true;
    for (int i = 0; i < 2; i++) js.push_back({[&, i] { for (auto k : want[i]) { K b = s.kind(); s.set(k); K n = s.kind(); if (b == K::aborted || b == K::committed_stored) okay = okay && (n == b || n == K::unknown); if (b == K::committed_available) okay = okay && (n == b || n == K::committed_stored || n == K::unknown); if (b == K::going_to_abort) okay = okay && (n == b || n == K::aborted || n == K::unknown); } }}); run(js); SYM_ASSERT(okay);
    // the outcome is that of the requests one after another, in some order
    bool found = false; size_t n = want[0].size(); for (size_t at = 0; at <= n; at++) { K k = from; for (size_t i = 0; i <= n; i++) { if (i == at && may(k, want[1][0])) k = want[1][0]; if (i < n && may(k, want[0][i])) k = want[0][i]; } found = found || s.kind() == k; } SYM_ASSERT(found); }
HARNESS(c16_finish) {
    auto t = tx(); t->state(K::init); t->state(K::active); auto& m = t->termination_mgr(); uint64_t pre = sym_choose(2, "running"); for (uint64_t i = 0; i < pre; i++) { termination_state ts; SYM_ASSERT(m.try_increment_task_use_count(ts)); } int running = (int)pre, aborts = 0, commits = 0, won = 0; bool commit_done = false, abort_done = false, ended = false; size_t ops[4]; size_t n = 2 + sym_choose(2, "actors"); for (size_t i = 0; i < n; i++) { ops[i] = sym_choose(4, "actor"); if (i && ops[i] < ops[i - 1]) sym_stop(); } std::vector<job> js; size_t leave = 0; for (size_t i = 0; i < n; i++) leave += ops[i] == 3; if (leave > pre) sym_stop(); if (pre && n == 3 && ops[0] == ops[1] && ops[1] == ops[2]) sym_stop();
    auto finish = [&](termination_state const& ts) { if (ts.going_to_abort() && ts.task_empty()) { SYM_ASSERT(running == 0); aborts++; (void)t->abort_transaction(); abort_done = true; } };
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { termination_state ts; switch (ops[i]) {
        case 0: { bool e = ended; if (!m.try_increment_task_use_count(ts)) { SYM_ASSERT(won || ended || m.state().going_to_abort() || m.state().going_to_commit()); return; } SYM_ASSERT(!e); running++; SYM_ASSERT(ts.task_use_count() >= 1); SYM_ASSERT(!ts.going_to_abort() && !ts.going_to_commit()); SYM_ASSERT(!commit_done && !abort_done); std::this_thread::yield(); SYM_ASSERT(!commit_done && !abort_done); running--; m.decrement_task_use_count(ts); finish(ts); break; }
        case 3: { std::this_thread::yield(); SYM_ASSERT(!commit_done && !abort_done); running--; m.decrement_task_use_count(ts); finish(ts); break; }
        case 1: { if (!m.try_set_going_to_abort(ts)) return; won++; ended = true; SYM_ASSERT(ts.going_to_abort() && !ts.going_to_commit()); t->state(K::going_to_abort); if (ts.task_empty()) finish(ts); break; }
        case 2: { if (!m.try_set_going_to_commit(ts)) return; won++; ended = true; SYM_ASSERT(ts.going_to_abort() != ts.going_to_commit()); SYM_ASSERT(ts.going_to_commit() == ts.task_empty()); if (!ts.task_empty()) { t->state(K::going_to_abort); return; } SYM_ASSERT(running == 0); t->state(K::going_to_commit); commits++; (void)t->commit([&](auto, auto, auto) { SYM_ASSERT(running == 0); commit_done = true; }); t->state(K::committed_stored); break; } } }});
    run(js); for (size_t i = leave; i < pre; i++) { termination_state ts; running--; m.decrement_task_use_count(ts); finish(ts); } bool req = false; for (size_t i = 0; i < n; i++) req = req || ops[i] == 1 || ops[i] == 2; SYM_ASSERT(won == (req ? 1 : 0)); SYM_ASSERT(commits + aborts == won); SYM_ASSERT(t->object()->commits == commits && t->object()->aborts == aborts); auto st = m.state(); SYM_ASSERT(st.task_empty()); SYM_ASSERT(st.going_to_commit() == (commits == 1)); SYM_ASSERT(st.going_to_abort() == (aborts == 1)); if (commits) SYM_ASSERT(t->state() == K::committed_stored); if (aborts) SYM_ASSERT(t->state() == K::aborted); termination_state ts; if (won) { SYM_ASSERT(!m.try_set_going_to_abort(ts)); SYM_ASSERT(!m.try_set_going_to_commit(ts)); SYM_ASSERT(!m.try_increment_task_use_count(ts)); } }
HARNESS(c16_count) {
    termination_state v; uint64_t c = sym_u64("count"); sym_assume(c < (1ull << 62) - 8); v.task_use_count(c); SYM_ASSERT(!v.going_to_abort() && !v.going_to_commit()); SYM_ASSERT(v.task_use_count() == c); bool f0 = sym_choose(2, "abort flag"); if (f0) v.set_going_to_abort(); bool f1 = sym_choose(2, "commit flag"); if (f1) v.set_going_to_commit(); SYM_ASSERT(v.going_to_abort() == f0 && v.going_to_commit() == f1); SYM_ASSERT(v.task_use_count() == c); uint64_t d = sym_u64("next"); sym_assume(d < (1ull << 62)); v.task_use_count(d); SYM_ASSERT(v.task_use_count() == d); SYM_ASSERT(v.going_to_abort() == f0 && v.going_to_commit() == f1); SYM_ASSERT(v.task_empty() == (d == 0)); v.clear(); SYM_ASSERT(v.task_empty() && !v.going_to_abort() && !v.going_to_commit());
    details::termination_manager m; uint64_t n = 0; bool a = false, k = false; for (int i = 0; i < 5; i++) { termination_state ts; ts.task_use_count(sym_u64("junk") & 15); switch (sym_choose(4, "op")) {
        case 0: { bool r = m.try_increment_task_use_count(ts); SYM_ASSERT(r == (!a && !k)); if (!r) continue; n++; break; } case 1: { if (!n) sym_stop(); m.decrement_task_use_count(ts); n--; break; }
        case 2: { bool r = m.try_set_going_to_abort(ts); SYM_ASSERT(r == (!a && !k)); if (!r) continue; a = true; break; } case 3: { bool r = m.try_set_going_to_commit(ts); SYM_ASSERT(r == (!a && !k)); if (!r) continue; (n ? a : k) = true; break; } }
        SYM_ASSERT(ts.task_use_count() == n && ts.task_empty() == (n == 0) && ts.going_to_abort() == a && ts.going_to_commit() == k); auto s = m.state(); SYM_ASSERT(s.task_use_count() == n && s.going_to_abort() == a && s.going_to_commit() == k); } }
HARNESS(c16_worker) {
    details::worker_manager m; SYM_ASSERT(m.use_count() == 0 && m.worker_id() == details::worker_manager::empty_worker); size_t n = 2 + sym_choose(QT(2, 2), "workers"); uint32_t id[3]; int in[3] = {}, total = 0; bool wrong = false; for (size_t i = 0; i < n; i++) { id[i] = sym_u32("index"); sym_assume(id[i] != details::worker_manager::empty_worker); } std::vector<job> js;
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { uint32_t w = id[i]; bool e = total == 0; if (!m.increment_and_set_on_zero(w)) { SYM_ASSERT(w != id[i]); bool known = false; for (size_t j = 0; j < n; j++) known = sym_or(known, w == id[j]); SYM_ASSERT(known); (void)e; return; } SYM_ASSERT(w == id[i]); in[i]++; total++; for (size_t j = 0; j < n; j++) if (in[j]) SYM_ASSERT(id[j] == id[i]); std::this_thread::yield(); for (size_t j = 0; j < n; j++) if (in[j]) SYM_ASSERT(id[j] == id[i]); SYM_ASSERT(m.worker_id() == id[i]); in[i]--; total--; bool last = m.decrement_and_clear_on_zero(); (void)last; }});
    run(js); (void)wrong; SYM_ASSERT(m.use_count() == 0); SYM_ASSERT(m.worker_id() == details::worker_manager::empty_worker); SYM_ASSERT(m.decrement_and_clear_on_zero()); SYM_ASSERT(m.use_count() == 0); uint32_t w = id[0]; SYM_ASSERT(m.increment_and_set_on_zero(w)); SYM_ASSERT(m.worker_id() == id[0]); SYM_ASSERT(m.use_count() == 1); uint32_t w2 = id[1]; bool r = m.increment_and_set_on_zero(w2); SYM_ASSERT(r == (id[0] == id[1])); SYM_ASSERT(w2 == id[0]); SYM_ASSERT(m.decrement_and_clear_on_zero() == !r); if (r) SYM_ASSERT(m.decrement_and_clear_on_zero()); }
HARNESS(c16_error) {
    auto t = tx(); static const K from[] = {K::init, K::active, K::going_to_abort, K::aborted, K::committed_stored}; K f = from[sym_choose(5, "state")]; t->state(K::init); if (f != K::init) t->state(f); size_t n = 2 + sym_choose(QT(1, 2), "threads"); int won = 0; size_t winner = 9; std::shared_ptr<error::error_info> e[3]; bool empty0 = sym_choose(2, "first is no error"); for (size_t i = 0; i < n; i++) e[i] = std::make_shared<error::error_info>(i == 0 && empty0 ? error_code::none : error_code::sql_execution_exception, "m", "f", "1", ""); bool mover = sym_choose(2, "mover"); std::vector<job> js;
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { bool r = t->error_info(e[i]); auto c = t->error_info(); SYM_ASSERT(c != nullptr); if (i == 0 && empty0) { if (!r) SYM_ASSERT(static_cast<bool>(*c)); return; } SYM_ASSERT(static_cast<bool>(*c)); if (r) { won++; winner = i; SYM_ASSERT(c == e[i]); } else SYM_ASSERT(c != e[i]); }}); if (mover) js.push_back({[&] { t->state(K::going_to_abort); t->state(K::aborted); }});
    run(js); SYM_ASSERT(won == 1); SYM_ASSERT(t->error_info() == e[winner]); K s = t->state(); if (f == K::active) SYM_ASSERT(s == K::aborted); if (!mover && f != K::active) SYM_ASSERT(s == f); if (f == K::committed_stored) SYM_ASSERT(s == f); if (mover && f != K::committed_stored) SYM_ASSERT(s == K::aborted); }
struct pool : limestone::api::blob_pool { int* n; pool(int* p) : n(p) {} void release() override { (*n)++; } };
HARNESS(c16_ends) {
    global::storage_mgr = std::make_shared<storage::storage_manager>(); auto& mgr = *global::storage_mgr; mgr.add_entry(1, "A"); mgr.add_entry(2, "B"); int released = 0; { auto t = std::make_shared<transaction_context>(std::make_shared<kvs::transaction>()); auto k = t->object(); bool lock = sym_choose(2, "lock"); if (lock) { auto u = mgr.create_unique_lock(); storage::storage_list l{1}; SYM_ASSERT(mgr.add_locked_storages(l, *u)); t->storage_lock(std::move(u)); } bool ref = sym_choose(2, "reference"); if (ref) { storage::storage_list l{1, 2}; t->add_storages_ref(l); t->add_storage_ref(2); } bool bp = sym_choose(2, "blobs"); if (bp) t->blob_pool(std::make_shared<pool>(&released)); t->state(K::init); t->state(K::active); bool refused = sym_choose(2, "refused"); k->result = refused ? status::err_serialization_failure : status::ok;
        auto held = [&] { SYM_ASSERT(mgr.find_entry(1)->can_lock() == !lock); SYM_ASSERT(mgr.find_entry(2)->can_lock()); for (storage::storage_entry e : {1, 2}) SYM_ASSERT((mgr.find_entry(e)->ref_transaction_count() == (ref ? 1 : 0))); }; held(); bool hooked = false; k->hook = [&] { hooked = true; held(); };
        switch (sym_choose(3, "end")) { case 0: { SYM_ASSERT(t->commit() == k->result); SYM_ASSERT(k->commits == 1 && k->aborts == 0); lock = ref = false; held(); break; } case 1: { SYM_ASSERT(t->abort_transaction() == k->result); SYM_ASSERT(k->aborts == 1 && k->commits == 0); lock = ref = false; held(); SYM_ASSERT(t->state() == K::aborted); break; }
            case 2: { bool called = false; SYM_ASSERT(t->commit([&](auto, auto, auto) { called = true; SYM_ASSERT(t->state() == K::cc_committing); held(); })); SYM_ASSERT(called && k->commits == 1); held(); t->reset_storage_ref_scope(); t->storage_lock(nullptr); lock = ref = false; held(); break; } } SYM_ASSERT(hooked); SYM_ASSERT(released == 0); k->hook = nullptr; t->add_storage_ref(1); held(); bool had = bp; t.reset(); SYM_ASSERT(released == (had ? 1 : 0)); }
    for (storage::storage_entry e : {1, 2}) { SYM_ASSERT(mgr.find_entry(e)->can_lock()); SYM_ASSERT(mgr.find_entry(e)->ref_transaction_count() == 0); } }

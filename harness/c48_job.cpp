//@property C48
//@src src/jogasaki/scheduler/dag_controller_impl.cpp src/jogasaki/scheduler/dag_controller.cpp src/jogasaki/scheduler/step_state_table.cpp src/jogasaki/scheduler/flat_task.cpp src/jogasaki/scheduler/serial_task_scheduler.cpp src/jogasaki/scheduler/stealing_task_scheduler.cpp src/jogasaki/scheduler/hybrid_task_scheduler.cpp src/jogasaki/scheduler/task_scheduler.cpp src/jogasaki/scheduler/job_context.cpp src/jogasaki/scheduler/statement_scheduler.cpp src/jogasaki/scheduler/request_detail.cpp src/jogasaki/executor/common/graph.cpp src/jogasaki/executor/common/step.cpp src/jogasaki/executor/common/port.cpp src/jogasaki/executor/common/task.cpp src/jogasaki/executor/exchange/task.cpp src/jogasaki/executor/process/task.cpp src/jogasaki/model/flow_repository.cpp src/jogasaki/utils/latch.cpp
//@inc stubs_dag
//@stubs

//@entry c48_tasks quick=90 thorough=600 | a job of 2 (thorough 3) queued tasks of any kind (work, write, load, wait-and-finish, request for completion), each finishing, giving way first, failing or asking for completion; completion readiness delayed, direct or queued completion, caller a worker or not, every order
//@entry c48_tx quick=60 thorough=400 | 2 tasks in a transaction (exclusive or not) whose use is refused from any point on or which is to be aborted from any point on
//@entry c48_cancel quick=30 thorough=200 | a cancel request seen by a write or an exchange step at any time, with other tasks of the job queued
//@entry c48_throw quick=20 thorough=60 | the only task of a job ends with a standard exception
#include "dag_env.h"
using namespace dag;
static void inl(bool b) { global::the_cfg.inplace_teardown(b); }
static std::size_t pick(world& w) { auto n = w.qu.q.size(); return n == 1 ? 0 : static_cast<std::size_t>(sym_choose(static_cast<int>(n), "next")); }
static void drain(world& w) { std::size_t idle = 0, rounds = 0; while (!w.qu.q.empty()) { SYM_ASSERT(++rounds < 40); auto n = w.qu.q.size(); auto i = pick(w); if (w.qu.q[i].kind() == flat_task_kind::teardown && n > 1) { if (++idle >= 3) sym_stop(); } w.run_one(i); } }
static void finished(world& w) { SYM_ASSERT(w.callbacks == 1); SYM_ASSERT(w.qu.unreg == 1); SYM_ASSERT(w.running == 0); SYM_ASSERT(w.dead); SYM_ASSERT(w.pool->released == 1); sym_observe("done", 1u); }
// a task of a job: optionally gives way, optionally asks for the completion of the job the three ways the code base has
struct work : model::task {
    world& w; int how; std::size_t left; bool begun{}; std::size_t* done; model::task_transaction_kind tk; std::size_t id_; bool fail{};
    work(world& x, int h, std::size_t y, std::size_t* d, model::task_transaction_kind k, std::size_t i) : w(x), how(h), left(y), done(d), tk(k), id_(i) {}
    identity_type id() const override { return id_; } model::task_transaction_kind transaction_capability() override { return tk; } std::ostream& write_to(std::ostream& o) const override { return o; }
    model::task_result operator()() override { SYM_ASSERT(!w.dead); SYM_ASSERT(w.callbacks == 0); SYM_ASSERT(!begun || left); if (tk == model::task_transaction_kind::sticky) { SYM_ASSERT(w.running == 0); } ++w.running; if (left) { --left; --w.running; return model::task_result::yield; } begun = true; ++*done; if (fail) set_error_context(*w.rc, error_code::sql_execution_exception, "", status::err_unknown);
        auto r = model::task_result::complete; switch (how) { case 0: break; case 1: scheduler::submit_teardown(*w.rc); break; case 2: scheduler::set_going_teardown_or_submit(*w.rc); break; case 3: scheduler::submit_teardown(*w.rc, true); SYM_ASSERT(w.qu.last.policy() == scheduler::schedule_policy_kind::suspended_worker || w.job->completing()); break; default: if (scheduler::check_or_submit_teardown(*w.rc, true)) r = model::task_result::complete_and_teardown; break; } --w.running; return r; }
};
HARNESS(c48_tasks) { inl(sym_bit("inplace")); scheduler::thread_local_info_ = scheduler::thread_info{sym_bit("worker"), 0}; world w; std::size_t done = 0, n = QT(2, 3), writes = 0, loads = 0, expected = 0; std::size_t delay = static_cast<std::size_t>(sym_choose(2, "delay")); bool asked = false;
    if (sym_bit("readiness")) w.job->completion_readiness([&] { if (delay) { --delay; return false; } return true; });
    executor::common::write_statement ws; ws.f = [&](request_context&) { ++writes; ++done; SYM_ASSERT(!w.dead); };
    auto ld = std::make_shared<executor::file::loader>(); std::size_t more = 1; ld->f = [&] { ++loads; SYM_ASSERT(!w.dead); if (more) { --more; return executor::file::loader_result::running; } ++done; return sym_bit("result") ? executor::file::loader_result::ok : executor::file::loader_result::error; };
    bool wr = false, lo = false;
    for (std::size_t i = 0; i < n; i++) { int k = sym_choose(8, "task"); if (i + 1 == n && !asked && (k == 0 || k == 5)) sym_stop(); ++expected;
        switch (k) { case 5: w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, 0, 1, &done, model::task_transaction_kind::none, i)}); break;
        case 6: if (wr) sym_stop(); wr = true; asked = true; w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::write>, w.rc, &ws}); break;
        case 7: if (lo) sym_stop(); lo = true; asked = true; w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::load>, w.rc, ld}); break;
        default: if (k) asked = true; w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, k, 0, &done, model::task_transaction_kind::none, i)}); break; } }
    SYM_ASSERT(w.job->task_count() == n); drain(w); finished(w); SYM_ASSERT(done == expected); SYM_ASSERT(writes == (wr ? 1u : 0u)); SYM_ASSERT(loads == (lo ? 2u : 0u)); SYM_ASSERT(w.qu.q.empty()); }
HARNESS(c48_tx) { inl(sym_bit("inplace")); scheduler::thread_local_info_ = scheduler::thread_info{true, 0}; world w; auto tx = std::make_shared<transaction_context>(); w.rc->tx_ = tx; auto rc = w.rc; std::size_t done = 0, runs = 0; std::size_t n = 2;
    for (std::size_t i = 0; i < n; i++) { auto tk = sym_bit("sticky") ? model::task_transaction_kind::sticky : model::task_transaction_kind::in_transaction; std::uint32_t wk = 0; if (tk == model::task_transaction_kind::sticky) tx->increment_worker_count(wk); w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, i + 1 == n ? sym_choose(4, "ask") + 1 : 0, 0, &done, tk, i)}); }
    bool refused = false, aborting = false; std::size_t ran = 0; std::size_t others = static_cast<std::size_t>(sym_choose(2, "others")); tx->tm.n = others; int ev = sym_choose(3, "event"), at = sym_choose(2, "at");
    while (!w.qu.q.empty()) { SYM_ASSERT(++runs < 30); if (ev == 1 && static_cast<int>(ran) == at && !w.dead) { tx->tm.refuse = true; refused = true; } if (ev == 2 && static_cast<int>(ran) == at && !w.dead) { tx->tm.aborting = true; aborting = true; if (tx->tm.n == 0) {} } auto i = pick(w); auto k = w.qu.q[i].kind(); if (k == flat_task_kind::teardown && w.qu.q.size() > 1 && runs > 6) sym_stop(); if (k == flat_task_kind::wrapped) ++ran; auto before = done; bool blocked = refused || aborting; auto* r = w.rc; w.run_one(i); (void)r; if (k == flat_task_kind::wrapped) { SYM_ASSERT((done != before) == !blocked); if (blocked && !w.dead) { SYM_ASSERT(w.rc->err_ != nullptr); SYM_ASSERT(w.rc->err_->code == static_cast<int>(error_code::inactive_transaction_exception)); } } SYM_ASSERT(tx->tm.n == others); SYM_ASSERT(tx->tm.fail == 0); }
    (void)rc; SYM_ASSERT(tx->aborts == 0); SYM_ASSERT(tx->workers == 0); finished(w); }
HARNESS(c48_cancel) { inl(sym_bit("inplace")); stub_cancel_enabled = true; scheduler::thread_local_info_ = scheduler::thread_info{true, 0}; world w; auto rs = std::make_shared<response_source_t>(); w.rc->info_.rs = rs; std::size_t done = 0, writes = 0, runs = 0; executor::common::write_statement ws; ws.f = [&](request_context&) { ++writes; };
    bool wr = sym_bit("write"); if (wr) { w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::write>, w.rc, &ws}); w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, 0, 1, &done, model::task_transaction_kind::none, 7)}); } else { w.step(true, 2); w.step(false, 1); w.step(true, 1); w.edge(0, 1); w.edge(1, 2); w.bootstrap(); }
    int at = sym_choose(6, "at"); std::size_t ran = 0, seen = 0; while (!w.qu.q.empty()) { SYM_ASSERT(++runs < 40); if (static_cast<int>(ran) == at && !rs->cancel && !w.dead) { rs->cancel = true; seen = rs->checks; } auto i = pick(w); if (w.qu.q[i].kind() == flat_task_kind::teardown) { if (w.qu.q.size() > 1 && runs > 8) sym_stop(); } else ++ran; w.run_one(i); }
    finished(w); if (wr) { SYM_ASSERT(done == 1); SYM_ASSERT(writes == (rs->cancel && rs->checks > seen ? 0u : 1u)); } else if (rs->cancel && rs->checks > seen) { SYM_ASSERT(w.st[2]->started == 0); } else { SYM_ASSERT(w.st[2]->finished == 1); } }
struct thrower : model::task { world& w; explicit thrower(world& x) : w(x) {} identity_type id() const override { return 5; } model::task_transaction_kind transaction_capability() override { return model::task_transaction_kind::none; } std::ostream& write_to(std::ostream& o) const override { return o; } model::task_result operator()() override { throw std::domain_error("x"); } };
HARNESS(c48_throw) { inl(sym_bit("inplace")); world w; w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<thrower>(w)}); bool err = false; w.job->callback([&] { ++w.callbacks; err = w.rc->err_ != nullptr; }); drain(w); finished(w); SYM_ASSERT(err); }

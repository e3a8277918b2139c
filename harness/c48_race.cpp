//@property C48
//@src src/jogasaki/scheduler/dag_controller_impl.cpp src/jogasaki/scheduler/dag_controller.cpp src/jogasaki/scheduler/step_state_table.cpp src/jogasaki/scheduler/flat_task.cpp src/jogasaki/scheduler/serial_task_scheduler.cpp src/jogasaki/scheduler/stealing_task_scheduler.cpp src/jogasaki/scheduler/hybrid_task_scheduler.cpp src/jogasaki/scheduler/task_scheduler.cpp src/jogasaki/scheduler/job_context.cpp src/jogasaki/scheduler/statement_scheduler.cpp src/jogasaki/scheduler/request_detail.cpp src/jogasaki/executor/common/graph.cpp src/jogasaki/executor/common/step.cpp src/jogasaki/executor/common/port.cpp src/jogasaki/executor/common/task.cpp src/jogasaki/executor/exchange/task.cpp src/jogasaki/executor/process/task.cpp src/jogasaki/model/flow_repository.cpp src/jogasaki/utils/latch.cpp
//@inc stubs_dag
//@stubs
//@threads

//@entry c48_two quick=90 thorough=600 preempt=2 | two workers run the two tasks of a job; the one that ends last (or both) asks for completion directly or through a queued task, in any of the ways the code has
//@entry c48_external quick=60 thorough=400 preempt=3 | a worker runs the task of a job while another thread (a durability callback) asks for its completion, once or together with the task
//@entry c48_dag quick=90 thorough=600 preempt=2 | two workers run a graph of two parallel steps and one that joins them
#include <atomic>
#include "dag_env.h"
using namespace dag;
template <class F> static void spawn(F& f) { jsym_spawn([](void* a) { (*static_cast<F*>(a))(); }, &f); }
static void drain(world& w) { std::size_t rounds = 0; while (!w.qu.q.empty()) { SYM_ASSERT(++rounds < 20); w.run_one(); } }
static void finished(world& w) { SYM_ASSERT(w.callbacks == 1); SYM_ASSERT(w.qu.unreg == 1); SYM_ASSERT(w.running == 0); SYM_ASSERT(w.dead); SYM_ASSERT(w.qu.q.empty()); SYM_ASSERT(w.rc->stub_late_ == 0); SYM_ASSERT(w.job->task_count().load() == 77); SYM_ASSERT(!w.job->completing().load()); sym_observe("done", 1u); }
struct work : model::task {
    world& w; std::atomic<int>& left; int how; bool all; std::size_t id_; std::size_t begun{};
    work(world& x, std::atomic<int>& l, int h, bool a, std::size_t i) : w(x), left(l), how(h), all(a), id_(i) {}
    identity_type id() const override { return id_; } model::task_transaction_kind transaction_capability() override { return model::task_transaction_kind::none; } std::ostream& write_to(std::ostream& o) const override { return o; }
    model::task_result operator()() override { SYM_ASSERT(++begun == 1); { std::lock_guard<std::mutex> l(w.m); ++w.running; SYM_ASSERT(!w.dead); SYM_ASSERT(w.callbacks == 0); } bool last = --left == 0; { std::lock_guard<std::mutex> l(w.m); --w.running; } auto r = model::task_result::complete; if (last || all) switch (how) { case 0: scheduler::submit_teardown(*w.rc); break; case 1: scheduler::set_going_teardown_or_submit(*w.rc); break; case 2: if (scheduler::check_or_submit_teardown(*w.rc, true)) r = model::task_result::complete_and_teardown; break; default: break; } return r; }
};
// a worker leaves when it finds nothing to do or has tried to finish the job twice in vain; the rest is done at the end
static void worker(world& w, std::size_t i) { scheduler::thread_local_info_ = scheduler::thread_info{true, i}; std::size_t tries = 0; while (tries < 2) { bool t; { std::lock_guard<std::mutex> l(w.qu.m); if (w.qu.q.empty()) return; t = w.qu.q.front().kind() == flat_task_kind::teardown; } if (t) ++tries; if (!w.run_one(0, i)) return; } }
HARNESS(c48_two) { global::the_cfg.inplace_teardown(sym_bit("inplace")); world w; w.keep = true; std::atomic<int> left{2}; int how = sym_choose(3, "how"); bool all = sym_bit("all"); for (std::size_t i = 0; i < 2; i++) w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, left, how, all, i)});
    auto a = [&] { worker(w, 0); }; auto b = [&] { worker(w, 1); }; spawn(a); spawn(b); jsym_join_all(); drain(w); finished(w); }
HARNESS(c48_external) { global::the_cfg.inplace_teardown(sym_bit("inplace")); world w; w.keep = true; std::atomic<int> left{1}; bool ext_only = sym_bit("only"); int how = ext_only ? 3 : sym_choose(3, "how"); auto rc = w.rc; bool guard = !ext_only; w.qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::wrapped>, w.rc, std::make_shared<work>(w, left, how, false, 1)});
    // a second caller exists only while something keeps the job: it must have its turn before readiness is given
    std::atomic<bool> asked{false}; if (guard) w.job->completion_readiness([&] { return asked.load(); });
    auto a = [&] { worker(w, 0); }; auto b = [&] { scheduler::submit_teardown(*rc, true); asked.store(true); }; spawn(a); spawn(b); jsym_join_all(); drain(w); finished(w); }
HARNESS(c48_dag) { global::the_cfg.inplace_teardown(sym_bit("inplace")); global::the_cfg.inplace_dag_schedule(true); world w; w.keep = true; w.step(false, 1); w.step(false, 1); w.step(false, 1); w.edge(0, 2); w.edge(1, 2); w.bootstrap(); w.run_one(); auto a = [&] { worker(w, 0); }; auto b = [&] { worker(w, 1); }; spawn(a); spawn(b); jsym_join_all(); drain(w); for (auto* s : w.st) { SYM_ASSERT(s->created == 1); SYM_ASSERT(s->finished == 1); SYM_ASSERT(s->deactivated == 1); } finished(w); }

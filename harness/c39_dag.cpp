//@property C39
//@src src/jogasaki/scheduler/dag_controller_impl.cpp src/jogasaki/scheduler/dag_controller.cpp src/jogasaki/scheduler/step_state_table.cpp src/jogasaki/scheduler/flat_task.cpp src/jogasaki/scheduler/serial_task_scheduler.cpp src/jogasaki/scheduler/stealing_task_scheduler.cpp src/jogasaki/scheduler/hybrid_task_scheduler.cpp src/jogasaki/scheduler/task_scheduler.cpp src/jogasaki/scheduler/job_context.cpp src/jogasaki/scheduler/statement_scheduler.cpp src/jogasaki/scheduler/request_detail.cpp src/jogasaki/executor/common/graph.cpp src/jogasaki/executor/common/step.cpp src/jogasaki/executor/common/port.cpp src/jogasaki/executor/common/task.cpp src/jogasaki/executor/exchange/task.cpp src/jogasaki/executor/process/task.cpp src/jogasaki/model/flow_repository.cpp src/jogasaki/utils/latch.cpp
//@inc stubs_dag
//@stubs
//@entry c39_graph quick=90 thorough=600 | every graph of up to 4 (thorough 5) steps with any (symbolic) set of edges, one task each, the processing of internal events inline or queued, every order of running queued tasks
//@entry c39_multi quick=60 thorough=400 | every graph of up to 3 steps (thorough 4), each pair connected by any number of ports up to 2 (or two readers on one port), every order of tasks
//@entry c39_tasks quick=60 thorough=400 | chains, joins and forks of 3 steps where one step has 2 (thorough 3) tasks and the tasks of one process step give way once (thorough twice), every order of tasks
//@entry c39_sub quick=60 thorough=400 | steps with main and preparation inputs (up to 3 steps, thorough 4), every order of tasks
//@entry c39_error quick=60 thorough=400 | any (symbolic) graph of up to 3 steps (thorough 4) where one of two tasks of any step ends with an error, every order of tasks
//@entry c39_init quick=30 thorough=60 | the controller used for two graphs one after the other, the second any graph of up to 2 (thorough 3) steps
#include "dag_env.h"
using namespace dag;
static std::size_t pick(world& w) { auto n = w.qu.q.size(); return n == 1 ? 0 : static_cast<std::size_t>(sym_choose(static_cast<int>(n), "next")); }
static void drain(world& w) { std::size_t idle = 0; while (!w.qu.q.empty()) { auto n = w.qu.q.size(); auto i = pick(w); if (w.qu.q[i].kind() == flat_task_kind::teardown && n > 1) { if (++idle >= 2) sym_stop(); } w.run_one(i); } }
static void finished(world& w) { SYM_ASSERT(w.callbacks == 1); SYM_ASSERT(w.qu.unreg == 1); SYM_ASSERT(w.qu.q.empty()); SYM_ASSERT(w.running == 0); for (auto* s : w.st) { SYM_ASSERT(s->activated == 1); SYM_ASSERT(s->deactivated == 1); if (!w.error) { SYM_ASSERT(s->created == 1); SYM_ASSERT(s->started == s->tasks); SYM_ASSERT(s->prestarted == s->subup.size()); } SYM_ASSERT(s->finished == s->started); SYM_ASSERT(s->prefinished == s->prestarted); } SYM_ASSERT(w.pool->released == 1); sym_observe("steps", static_cast<unsigned>(w.st.size())); }
static void inl(bool b) { global::the_cfg.inplace_dag_schedule(b); }
static void edges(world& w) { auto n = w.st.size(); for (std::size_t a = 0; a < n; a++) for (std::size_t b = a + 1; b < n; b++) if (sym_u8("edge") & 1u) w.edge(a, b); }
HARNESS(c39_graph) { std::size_t n = 1 + static_cast<std::size_t>(sym_choose(QT(4, 5), "steps")); inl(sym_bit("inplace")); world w; for (std::size_t i = 0; i < n; i++) w.step(i % 2 == 0, 1); edges(w); w.bootstrap(); drain(w); finished(w); }
HARNESS(c39_multi) { std::size_t n = 2 + static_cast<std::size_t>(sym_choose(QT(2, 3), "steps")); inl(true); world w; for (std::size_t i = 0; i < n; i++) w.step(i % 2 == 0, 1);
    for (std::size_t a = 0; a < n; a++) for (std::size_t b = a + 1; b < n; b++) switch (sym_choose(4, "ports")) { case 0: break; case 1: w.edge(a, b); break; case 2: w.edge(a, b); w.edge(a, b); break; default: w.edge(a, b); w.st[a]->connect_to(*w.st[b], w.st[a]->output_ports().size() - 1); w.st[b]->up.push_back(a); w.st[a]->down.push_back(b); break; }
    w.bootstrap(); drain(w); finished(w); }
HARNESS(c39_tasks) { auto shape = sym_choose(3, "shape"); inl(shape != 0 || sym_bit("inplace")); world w; for (std::size_t i = 0; i < 3; i++) w.step(i != 1, 1); if (auto k = sym_choose(4, "two")) w.st[k - 1]->tasks = QT(2, 3); if (auto k = sym_choose(3, "yields")) w.st[(k - 1) * 2]->yields = QT(1, 2);
    switch (shape) { case 0: w.edge(0, 1); w.edge(1, 2); break; case 1: w.edge(0, 2); w.edge(1, 2); break; default: w.edge(0, 1); w.edge(0, 2); break; } w.bootstrap(); drain(w); finished(w); }
HARNESS(c39_sub) { inl(sym_bit("inplace")); std::size_t n = 2 + static_cast<std::size_t>(sym_choose(QT(2, 3), "steps")); world w; for (std::size_t i = 0; i < n; i++) w.step(i % 2 == 0, 1); bool any = false;
    for (std::size_t a = 0; a < n; a++) for (std::size_t b = a + 1; b < n; b++) switch (sym_choose(3, "edge")) { case 0: break; case 1: w.edge(a, b); break; default: w.edge(a, b, true); any = true; break; } if (!any) sym_stop(); w.bootstrap(); drain(w); finished(w); }
HARNESS(c39_error) { inl(true); std::size_t n = 2 + static_cast<std::size_t>(sym_choose(QT(2, 3), "steps")); world w; for (std::size_t i = 0; i < n; i++) w.step(true, 1); auto f = static_cast<std::size_t>(sym_choose(static_cast<int>(n), "fail")); w.st[f]->fail_at = 0; w.st[f]->tasks = 2; edges(w); w.bootstrap(); drain(w); SYM_ASSERT(w.error); finished(w); }
HARNESS(c39_init) { inl(true); world w; std::size_t n = 1 + static_cast<std::size_t>(sym_choose(QT(2, 3), "steps")); for (std::size_t i = 0; i < n; i++) w.step(false, 1); edges(w);
    // an earlier graph of which some tasks were run is given up; the new one starts from scratch
    { executor::common::graph old; auto* o = new tstep(); o->tasks = 1; old.insert(std::unique_ptr<model::step>(o)); auto& d = scheduler::dag_controller::impl::get_impl(w.dc); d.init(old, *w.rc); if (sym_bit("begun")) d.process_internal_events(); { std::lock_guard<std::mutex> l(w.qu.m); while (!w.qu.q.empty()) { w.qu.q.pop_front(); --w.job->task_count(); } } w.bootstrap(); w.run_one(); } drain(w); finished(w); }

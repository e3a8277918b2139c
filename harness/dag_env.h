// the job control code (DAG controller, flat tasks, job context) between a stand-in task queue and steps whose work is recorded
#pragma once
#include "sym.h"
#include "fail_env.h"
#include <optional>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/utils/cancel_request.h>
#include <deque>
#include <vector>
#include <mutex>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/common/graph.h>
#include <jogasaki/executor/common/step.h>
#include <jogasaki/executor/common/utils.h>
#include <jogasaki/executor/exchange/task.h>
#include <jogasaki/executor/process/task.h>
#include <jogasaki/scheduler/dag_controller.h>
#include <jogasaki/scheduler/statement_scheduler.h>
#include <jogasaki/scheduler/statement_scheduler_impl.h>
#include <jogasaki/scheduler/task_scheduler.h>
#include <jogasaki/scheduler/flat_task.h>
#include <jogasaki/scheduler/thread_local_info.h>
#include <jogasaki/scheduler/request_detail.h>
namespace jogasaki::scheduler {
// the parts of the statement scheduler that do not concern DDL statements
statement_scheduler::impl::impl(maybe_shared_ptr<dag_controller> c) : dag_controller_(std::move(c)) {}
statement_scheduler::impl::impl(std::shared_ptr<configuration>) { std::abort(); }
statement_scheduler::impl::impl(std::shared_ptr<configuration>, task_scheduler&) { std::abort(); }
void statement_scheduler::impl::schedule(model::statement const&, request_context&) { std::abort(); }
dag_controller& statement_scheduler::impl::controller() noexcept { return *dag_controller_; }
statement_scheduler::impl& statement_scheduler::impl::get_impl(statement_scheduler& a) { return *a.impl_; }
task_scheduler& statement_scheduler::impl::get_task_scheduler() noexcept { return dag_controller_->get_task_scheduler(); }
}
namespace jogasaki::global {
inline configuration the_cfg{}; inline takatori::util::maybe_shared_ptr<configuration> the_cfg_ptr{&the_cfg};
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { return the_cfg_ptr; }
}
static bool sym_bit(char const* name) { return (sym_u8(name) & 1u) != 0; }
namespace dag {
using namespace jogasaki; using scheduler::flat_task; using scheduler::flat_task_kind; using scheduler::task_enum_tag;
struct world;
inline world* W = nullptr;
struct queue : scheduler::task_scheduler {
    std::deque<flat_task> q; std::mutex m; std::size_t unreg{}, reg{}, conditional{}; scheduler::schedule_option last{};
    void do_schedule_task(flat_task&& t, scheduler::schedule_option o) override { std::lock_guard<std::mutex> l(m); q.emplace_back(std::move(t)); last = o; }
    void do_schedule_conditional_task(scheduler::conditional_task&&) override { ++conditional; }
    void wait_for_progress(std::size_t) override {} void start() override {} void stop() override {}
    scheduler::task_scheduler_kind kind() const noexcept override { return scheduler::task_scheduler_kind::stealing; }
    void register_job(std::shared_ptr<scheduler::job_context>) override { ++reg; }
    void unregister_job(std::size_t id) override;
    void print_diagnostic(std::ostream&) override {}
};
struct tstep; 
enum mode { plain_task, process_task };
struct tflow : model::flow {
    tstep* s; std::vector<std::shared_ptr<model::task>> main_, pre_; std::size_t created{}; std::vector<std::size_t> precreated;
    model::step_kind kind() const noexcept override; model::sequence_view<std::shared_ptr<model::task>> create_tasks() override; model::sequence_view<std::shared_ptr<model::task>> create_pretask(port_index_type p) override;
    ~tflow() override;
};
struct tstep : executor::common::step {
    std::size_t tasks{1}; bool proc{}; std::size_t yields{}; model::task_transaction_kind tk{model::task_transaction_kind::none}; int fail_at{-1};
    std::size_t activated{}, deactivated{}, created{}, started{}, finished{}, prestarted{}, prefinished{}; std::vector<std::size_t> up, down, subup;
    model::step_kind kind() const noexcept override { return proc ? model::step_kind::process : model::step_kind::group; }
    void activate(request_context& r) override; void deactivate(request_context& r) override { ++deactivated; before_deactivate(); executor::common::step::deactivate(r); }
    void notify_completed(request_context&) override {}
    void before_deactivate(); void on_start(); void on_finish();
};
struct world {
    request_context* rc{}; queue qu; executor::common::graph g; std::vector<tstep*> st; scheduler::dag_controller dc; scheduler::statement_scheduler ss; std::shared_ptr<transaction_context> tx; std::shared_ptr<writer_pool_t> pool;
    std::size_t callbacks{}, running{}, bad{}; bool keep{}; bool dead{}, error{}, cut{}; std::mutex m; scheduler::job_context* job{}; std::shared_ptr<scheduler::request_detail> det;
    world() : dc(std::shared_ptr<configuration>(std::shared_ptr<configuration>{}, &global::the_cfg), qu), ss(&dc) { W = this; rc = new request_context(); auto j = std::make_shared<scheduler::job_context>(); job = j.get(); rc->ts_ = &qu; rc->ss_ = &ss; pool = std::make_shared<writer_pool_t>(); rc->pool_ = pool; rc->job(j); j->callback([this] { ++callbacks; SYM_ASSERT(running == 0); SYM_ASSERT(!dead); }); qu.register_job(j); }
    ~world() { W = nullptr; if (keep) { stub_job_gone = false; delete rc; } }
    tstep& step(bool proc, std::size_t n) { auto s = std::make_unique<tstep>(); s->proc = proc; s->tasks = n; auto* p = s.get(); g.insert(std::move(s)); st.push_back(p); return *p; }
    void edge(std::size_t a, std::size_t b, bool sub = false) { if (sub) { st[a]->connect_to_sub(*st[b]); st[b]->subup.push_back(a); } else { st[a]->connect_to(*st[b]); st[b]->up.push_back(a); } st[a]->down.push_back(b); }
    bool complete(std::size_t i) { return st[i]->created != 0 && st[i]->finished == st[i]->tasks; }
    void bootstrap() { qu.schedule_task(flat_task{task_enum_tag<flat_task_kind::bootstrap>, rc, g}); }
    // run one queued task to its end; false when there is none
    bool run_one(std::size_t index = 0, std::size_t worker = 0) { auto t = [&] { std::lock_guard<std::mutex> l(qu.m); std::optional<flat_task> r; if (index < qu.q.size()) { r.emplace(std::move(qu.q[index])); qu.q.erase(qu.q.begin() + static_cast<std::ptrdiff_t>(index)); } return r; }(); if (!t) return false; tateyama::task_scheduler::context c(worker); (*t)(c); return true; }
};
inline void queue::unregister_job(std::size_t) { ++unreg; SYM_ASSERT(unreg == 1); SYM_ASSERT(W->callbacks == 1); W->dead = true; { std::lock_guard<std::mutex> l(m); SYM_ASSERT(q.empty()); } if (W->keep) { W->job->task_count().store(77); W->job->completing().store(false); stub_job_gone = true; return; } auto* r = W->rc; W->rc = nullptr; W->job = nullptr; delete r; }
struct texec : executor::process::abstract::process_executor { tstep* s; std::size_t left; bool fail{}, begun{}; texec(tstep* p, std::size_t y, bool f) : s(p), left(y), fail(f) {} status run() override { if (!begun) { begun = true; s->on_start(); } if (left) { --left; return status::to_yield; } if (fail) { set_error_context(*W->rc, error_code::sql_execution_exception, "", jogasaki::status::err_unknown); W->error = true; s->on_finish(); return status::completed_with_errors; } s->on_finish(); return status::completed; } };
struct ttask : executor::exchange::task { tstep* s; bool pre; ttask(request_context* r, tstep* p, bool pr) : executor::exchange::task(r, p), s(p), pre(pr) {} model::task_result operator()() override { if (pre) { ++s->prestarted; for (auto u : s->subup) if (!W->error) SYM_ASSERT(W->st[u]->created != 0); ++s->prefinished; } else { s->on_start(); s->on_finish(); } return executor::exchange::task::operator()(); } };
inline model::step_kind tflow::kind() const noexcept { return s->kind(); }
inline model::sequence_view<std::shared_ptr<model::task>> tflow::create_tasks() { ++s->created; SYM_ASSERT(s->created == 1); SYM_ASSERT(!W->dead);
    // inputs are complete and every receiver is ready before a step starts
    for (auto u : s->up) SYM_ASSERT(W->error || W->complete(u)); for (auto u : s->subup) SYM_ASSERT(W->error || W->complete(u)); for (auto d : s->down) { SYM_ASSERT(W->st[d]->activated == 1); SYM_ASSERT(W->st[d]->deactivated == 0); } SYM_ASSERT(s->prefinished == s->subup.size());
    for (std::size_t i = 0; i < s->tasks; i++) { if (s->proc) main_.push_back(std::make_shared<executor::process::task>(W->rc, s, std::make_shared<texec>(s, s->yields, s->fail_at == static_cast<int>(i)), nullptr, s->tk)); else main_.push_back(std::make_shared<ttask>(W->rc, s, false)); }
    return main_; }
inline model::sequence_view<std::shared_ptr<model::task>> tflow::create_pretask(port_index_type p) { for (auto x : precreated) SYM_ASSERT(x != p); precreated.push_back(p); pre_.clear(); pre_.push_back(std::make_shared<ttask>(W->rc, s, true)); return pre_; }
inline tflow::~tflow() = default;
inline void tstep::activate(request_context& r) { ++activated; SYM_ASSERT(activated == 1); for (auto u : up) SYM_ASSERT(W->st[u]->activated == 1); auto f = std::make_unique<tflow>(); f->s = this; data_flow_object(r, std::move(f)); }
// released only when its own work and that of all readers is over
inline void tstep::before_deactivate() { SYM_ASSERT(deactivated == 1); SYM_ASSERT(activated == 1); if (!W->error) { SYM_ASSERT(finished == tasks); for (auto d : down) SYM_ASSERT(W->st[d]->finished == W->st[d]->tasks); } else { SYM_ASSERT(finished == started); for (auto d : down) SYM_ASSERT(W->st[d]->finished == W->st[d]->started); } }
inline void tstep::on_start() { std::lock_guard<std::mutex> l(W->m); ++started; ++W->running; SYM_ASSERT(!W->dead); SYM_ASSERT(started <= tasks); SYM_ASSERT(W->callbacks == 0); }
inline void tstep::on_finish() { std::lock_guard<std::mutex> l(W->m); ++finished; --W->running; }
}

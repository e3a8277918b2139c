#pragma once
#include <cstddef>
#include <deque>
#include <functional>
#include <mutex>
#include <ostream>
#include <vector>
#include <tateyama/task_scheduler/task_scheduler_cfg.h>
#include <tateyama/task_scheduler/schedule_option.h>
#include <tateyama/task_scheduler/context.h>
namespace tateyama::task_scheduler {
// queues without threads: pinned[w] is run by worker w only, shared by any worker
template <class T, class S> struct scheduler {
    std::vector<std::deque<T>> pinned; std::deque<T> shared; std::deque<S> cond; std::function<void(std::size_t)> init; std::size_t next{}, preferred{}, started{}, stopped{}; std::mutex m;
    explicit scheduler(task_scheduler_cfg c = {}, std::function<void(std::size_t)> i = {}) : pinned(c.thread_count()), init(std::move(i)) { last() = this; }
    static scheduler*& last() { static scheduler* p = nullptr; return p; }
    void schedule(T&& t, schedule_option = schedule_option{}) { std::lock_guard<std::mutex> l(m); shared.emplace_back(std::move(t)); }
    void schedule_at(T&& t, std::size_t w) { std::lock_guard<std::mutex> l(m); pinned.at(w).emplace_back(std::move(t)); }
    void schedule_conditional(S&& s) { std::lock_guard<std::mutex> l(m); cond.emplace_back(std::move(s)); }
    std::size_t preferred_worker_for_current_thread() { return preferred; } std::size_t next_worker() { return next++ % pinned.size(); }
    void start() { ++started; } void stop() { ++stopped; } template <class O> void print_worker_stats(O&&) {} void print_diagnostic(std::ostream&) {}
};
}

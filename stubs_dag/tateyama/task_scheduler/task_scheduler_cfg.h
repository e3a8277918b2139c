#pragma once
#include <cstddef>
#include <utility>
namespace tateyama::task_scheduler {
struct rational { std::size_t n, d; };
struct task_scheduler_cfg {
    std::size_t threads_{1}; bool preferred_{};
    void thread_count(std::size_t n) { threads_ = n; } std::size_t thread_count() const { return threads_; }
    template <class T> void force_numa_node(T) {} void core_affinity(bool) {} void assign_numa_nodes_uniformly(bool) {} void initial_core(std::size_t) {} void stealing_enabled(bool) {}
    void use_preferred_worker_for_current_thread(bool b) { preferred_ = b; } bool use_preferred_worker_for_current_thread() const { return preferred_; }
    template <class T> void stealing_wait(T) {} template <class T> void task_polling_wait(T) {} void busy_worker(bool) {} template <class T> void watcher_interval(T) {} template <class T> void worker_try_count(T) {} template <class T> void worker_suspend_timeout(T) {} void ratio_check_local_first(rational) {}
};
}

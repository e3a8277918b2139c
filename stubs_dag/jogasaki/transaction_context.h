#pragma once
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <jogasaki/status.h>
namespace jogasaki {
// what a worker sees of the transaction: the use count that keeps it from being terminated under a running task
struct termination_state { std::size_t n{}; bool abort{}, commit{}; bool going_to_abort() const { return abort; } bool going_to_commit() const { return commit; } bool task_empty() const { return n == 0; } std::size_t task_use_count() const { return n; } };
struct termination_manager {
    std::size_t n{}, fail{}; bool aborting{}, refuse{}; std::mutex m;
    bool try_increment_task_use_count(termination_state& t) { std::lock_guard<std::mutex> l(m); if (aborting || refuse) { t = {n, aborting, false}; return false; } ++n; t = {n, aborting, false}; return true; }
    void decrement_task_use_count(termination_state& t) { std::lock_guard<std::mutex> l(m); if (n == 0) fail = 1; else --n; t = {n, aborting, false}; }
};
class transaction_context {
public:
    using mutex_type = std::recursive_mutex;
    termination_manager tm; mutex_type mx; std::size_t aborts{}; std::ptrdiff_t workers{};
    termination_manager& termination_mgr() { return tm; } mutex_type& mutex() { return mx; } // all sticky tasks of a transaction go to the worker that has one already
    std::size_t worker{}; std::mutex wm; bool increment_worker_count(std::uint32_t& w) { std::lock_guard<std::mutex> l(wm); if (workers > 0 && worker != w) { w = static_cast<std::uint32_t>(worker); return false; } worker = w; ++workers; return true; }
    void decrement_worker_count() { std::lock_guard<std::mutex> l(wm); --workers; } status abort_transaction() { ++aborts; return status::ok; }
};
}

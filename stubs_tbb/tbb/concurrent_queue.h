// stand-in for tbb::concurrent_queue: every operation is one atomic step (one scheduling point)
#pragma once
#include <atomic>
#include <deque>
namespace tbb { template <class T> class concurrent_queue { std::deque<T> q_; mutable std::atomic<int> step_{};
public: concurrent_queue() = default; concurrent_queue(concurrent_queue const& o) : q_(o.q_) {} using value_type = T; void push(T v) { step_.fetch_add(1); q_.push_back(std::move(v)); } template <class... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); } bool try_pop(T& v) { step_.fetch_add(1); if (q_.empty()) return false; v = std::move(q_.front()); q_.pop_front(); return true; } bool empty() const { step_.fetch_add(1); return q_.empty(); } std::size_t unsafe_size() const { return q_.size(); } auto unsafe_begin() const { return q_.begin(); } auto unsafe_end() const { return q_.end(); } void clear() { q_.clear(); } }; }

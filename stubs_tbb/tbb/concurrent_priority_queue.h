// stand-in for tbb::concurrent_priority_queue: every operation is one atomic step (one scheduling point); the top is the element no other one is above
#pragma once
#include <atomic>
#include <vector>
namespace tbb { template <class T, class C> class concurrent_priority_queue { std::vector<T> q_; C c_; mutable std::atomic<int> step_{};
public: explicit concurrent_priority_queue(C const& c = C{}) : c_(c) {} void push(T v) { step_.fetch_add(1); q_.push_back(std::move(v)); } template <class... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
    bool try_pop(T& v) { step_.fetch_add(1); if (q_.empty()) return false; std::size_t b = 0; for (std::size_t i = 1; i < q_.size(); i++) if (c_(q_[b], q_[i])) b = i; v = std::move(q_[b]); q_.erase(q_.begin() + (std::ptrdiff_t)b); return true; }
    bool empty() const { step_.fetch_add(1); return q_.empty(); } std::size_t size() const { step_.fetch_add(1); return q_.size(); } }; }

#pragma once
#include <deque>
#include <mutex>
namespace tbb { // sequential-consistency model: every operation is one critical section
template <class T> class concurrent_queue {
public:
    concurrent_queue() = default; concurrent_queue(const concurrent_queue& o) : q_(o.q_) {} concurrent_queue(concurrent_queue&& o) : q_(std::move(o.q_)) {}
    void push(const T& v) { std::lock_guard<std::mutex> l(m_); q_.push_back(v); } void push(T&& v) { std::lock_guard<std::mutex> l(m_); q_.push_back(std::move(v)); }
    template <class... A> void emplace(A&&... a) { std::lock_guard<std::mutex> l(m_); q_.emplace_back(std::forward<A>(a)...); }
    bool try_pop(T& v) { std::lock_guard<std::mutex> l(m_); if (q_.empty()) return false; v = std::move(q_.front()); q_.pop_front(); return true; }
    bool empty() const { std::lock_guard<std::mutex> l(m_); return q_.empty(); } size_t unsafe_size() const { return q_.size(); } void clear() { q_.clear(); }
    auto unsafe_begin() const { return q_.begin(); } auto unsafe_end() const { return q_.end(); }
private: std::deque<T> q_; mutable std::mutex m_;
};
}

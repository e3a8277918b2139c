// stand-in for tbb::concurrent_hash_map: every operation is one atomic step (one scheduling point); an accessor holds the write
// lock of its element and a const_accessor a read lock, whoever waits for the lock of an element that is erased meanwhile finds
// nothing, and erasing an element waits for the other holders of its lock
#pragma once
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
namespace tbb { template <class K, class V> class concurrent_hash_map {
public: using value_type = std::pair<K const, V>;
private: using item = value_type; struct node { item v; int rd = 0; bool wr = false; explicit node(K const& k) : v(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()) {} bool free(bool w) const { return !wr && !(w && rd); } }; using map = std::map<K, std::shared_ptr<node>>;
    mutable map m_; mutable std::atomic<int> step_{}; mutable std::mutex wm_; mutable std::condition_variable wc_; mutable int waiting_ = 0;
    void wake() const { if (waiting_) { std::lock_guard<std::mutex> l(wm_); wc_.notify_all(); } }
    template <class P> void wait(P p) const { while (!p()) { waiting_++; { std::unique_lock<std::mutex> l(wm_); if (!p()) wc_.wait(l); } waiting_--; } }
public:
    class const_accessor { public: std::shared_ptr<node> n; concurrent_hash_map const* o = nullptr; bool w = false; const_accessor() = default; const_accessor(const_accessor const&) = delete; const_accessor& operator=(const_accessor const&) = delete; ~const_accessor() { release(); } void release() { if (n) { auto k = std::move(n); if (w) k->wr = false; else k->rd--; o->wake(); } } item const* operator->() const { return &n->v; } item const& operator*() const { return n->v; } bool empty() const { return !n; } };
    class accessor : public const_accessor { public: item* operator->() const { return &this->n->v; } item& operator*() const { return this->n->v; } };
private: bool look(const_accessor& a, K const& k, bool w, bool create) const { a.release(); step_.fetch_add(1); bool fresh = false; std::shared_ptr<node> n; wait([&] { auto i = m_.find(k); if (i == m_.end()) { if (!create) { n.reset(); return true; } fresh = true; i = m_.emplace(k, std::make_shared<node>(k)).first; } n = i->second; return n->free(w); }); if (!n) return false; if (w) n->wr = true; else n->rd++; a.n = n; a.o = this; a.w = w; return create ? fresh : true; }
    void unlink(std::shared_ptr<node> const& n) { auto i = m_.find(n->v.first); if (i != m_.end() && i->second == n) m_.erase(i); wake(); }
public:
    class const_iterator { public: typename map::const_iterator i; item const& operator*() const { return i->second->v; } item const* operator->() const { return &i->second->v; } const_iterator& operator++() { ++i; return *this; } bool operator!=(const_iterator const& o) const { return i != o.i; } bool operator==(const_iterator const& o) const { return i == o.i; } };
    class iterator { public: typename map::iterator i; item& operator*() const { return i->second->v; } item* operator->() const { return &i->second->v; } iterator& operator++() { ++i; return *this; } bool operator!=(iterator const& o) const { return i != o.i; } bool operator==(iterator const& o) const { return i == o.i; } };
    concurrent_hash_map() = default;
    bool insert(const_accessor& a, K const& k) { return look(a, k, false, true); } bool insert(accessor& a, K const& k) { return look(a, k, true, true); }
    bool insert(item const& x) { return emplace(x.first, x.second); }
    bool emplace(K const& k, V v) { step_.fetch_add(1); if (m_.count(k)) return false; auto n = std::make_shared<node>(k); n->v.second = std::move(v); m_.emplace(k, std::move(n)); return true; }
    bool find(const_accessor& a, K const& k) const { return look(a, k, false, false); } bool find(accessor& a, K const& k) { return look(a, k, true, false); }
    std::size_t count(K const& k) const { step_.fetch_add(1); return m_.count(k); }
    bool erase(const_accessor& a) { step_.fetch_add(1); auto n = a.n; bool in = m_.count(n->v.first) && m_[n->v.first] == n; unlink(n); if (!a.w) { n->rd--; a.n.reset(); wait([&] { return n->free(true); }); } else a.release(); return in; }
    bool erase(K const& k) { step_.fetch_add(1); auto i = m_.find(k); if (i == m_.end()) return false; auto n = i->second; unlink(n); wait([&] { return n->free(true); }); return true; }
    void clear() { m_.clear(); }
    iterator begin() { step_.fetch_add(1); return {m_.begin()}; } iterator end() { return {m_.end()}; }
    const_iterator begin() const { step_.fetch_add(1); return {m_.begin()}; } const_iterator end() const { return {m_.end()}; }
    bool empty() const { return size() == 0; }
    std::size_t size() const { step_.fetch_add(1); return m_.size(); }
}; }

#pragma once
#include <map>
#include <mutex>
#include <utility>
// the used part of the map, guarded by one mutex
namespace tbb { template <class K, class V> class concurrent_hash_map {
    std::map<K, V> m_; std::mutex x_;
public:
    struct accessor { std::pair<K const, V>* p{}; std::pair<K const, V>* operator->() { return p; } };
    bool emplace(K k, V v) { std::lock_guard<std::mutex> l(x_); if (m_.find(k) != m_.end()) return false; m_.emplace(k, std::move(v)); return true; }
    bool erase(K const& k) { V v{}; std::lock_guard<std::mutex> l(x_); auto i = m_.find(k); if (i == m_.end()) return false; v = std::move(i->second); m_.erase(i); return true; }
    bool find(accessor& a, K const& k) { std::lock_guard<std::mutex> l(x_); auto i = m_.find(k); if (i == m_.end()) return false; a.p = &*i; return true; }
    bool empty() const { return m_.empty(); } void clear() { m_.clear(); } auto begin() { return m_.begin(); } auto end() { return m_.end(); } std::size_t size() const { return m_.size(); }
}; }

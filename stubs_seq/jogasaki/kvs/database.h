// model of the transaction engine: writes and sequence updates of a transaction take effect at commit, the sequence value
// with the greatest version wins, creation and deletion of sequences take effect at once
#pragma once
#include <glog/logging.h>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <jogasaki/common_types.h>
#include <jogasaki/status.h>
namespace jogasaki::kvs {
class database; class transaction;
enum class end_point_kind { unbound, prefixed_inclusive, inclusive, exclusive, prefixed_exclusive };
class iterator { public: std::vector<std::pair<std::string, std::string>> rows; std::size_t pos = 0; bool begun = false;
    status next() { if (begun) pos++; begun = true; return pos < rows.size() ? status::ok : status::not_found; } status read_key(std::string_view& k) const { k = rows[pos].first; return status::ok; } status read_value(std::string_view& v) const { v = rows[pos].second; return status::ok; } };
class storage { public: std::string name; status content_put(transaction& tx, std::string_view k, std::string_view v); status content_delete(transaction& tx, std::string_view k); status content_scan(transaction& tx, std::string_view, end_point_kind, std::string_view, end_point_kind, std::unique_ptr<iterator>& it); };
class transaction { public: kvs::database* db; bool over = false; std::map<std::string, std::pair<bool, std::string>> w; std::map<sequence_id, sequence_versioned_value> s; explicit transaction(kvs::database* d) : db(d) {} kvs::database* database() { return db; } status commit(); status abort_transaction() { over = true; return status::ok; } };
class database { public: std::map<std::string, std::string> rows; std::map<sequence_id, sequence_versioned_value> seqs; sequence_id next_id = 0; bool stale = false; int fail_next = 0;
    std::unique_ptr<transaction> create_transaction() { return std::make_unique<transaction>(this); } std::unique_ptr<storage> get_storage(std::string_view) { return std::make_unique<storage>(); }
    status create_sequence(sequence_id& out) noexcept { out = next_id++; seqs[out] = {0, 0}; return status::ok; }
    status update_sequence(transaction& tx, sequence_id id, sequence_version v, sequence_value x) noexcept { if (!seqs.count(id)) return status::err_not_found; tx.s[id] = {v, x}; return status::ok; }
    status read_sequence(sequence_id id, sequence_versioned_value& o) { auto i = seqs.find(id); if (i == seqs.end()) return status::err_not_found; o = i->second; return status::ok; }
    status delete_sequence(sequence_id id) noexcept { return seqs.erase(id) ? status::ok : status::err_not_found; } };
inline status storage::content_put(transaction& tx, std::string_view k, std::string_view v) { tx.w[std::string(k)] = {true, std::string(v)}; return status::ok; }
inline status storage::content_delete(transaction& tx, std::string_view k) { std::string s{k}; bool have = tx.w.count(s) ? tx.w[s].first : tx.db->rows.count(s) > 0; tx.w[s] = {false, {}}; return have ? status::ok : status::not_found; }
inline status storage::content_scan(transaction& tx, std::string_view, end_point_kind, std::string_view, end_point_kind, std::unique_ptr<iterator>& it) { auto m = tx.db->rows; for (auto& [k, p] : tx.w) { if (p.first) m[k] = p.second; else m.erase(k); } it = std::make_unique<iterator>(); for (auto& e : m) it->rows.push_back(e); return status::ok; }
inline status transaction::commit() { if (over) return status::err_inactive_transaction; over = true; for (auto& [k, p] : w) { if (p.first) db->rows[k] = p.second; else db->rows.erase(k); } for (auto& [i, v] : s) { auto f = db->seqs.find(i); if (f != db->seqs.end() && f->second.version_ < v.version_) f->second = v; } return status::ok; }
}

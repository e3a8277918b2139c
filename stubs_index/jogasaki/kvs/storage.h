// stand-in: a storage is an in-memory list of entries with distinct keys; the operation numbered `fail_at` fails with `fail_status`
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <jogasaki/lob/lob_id.h>
#include <jogasaki/status.h>
#include "transaction.h"
#include "iterator.h"
extern "C" bool sym_index_same(const char* a, const char* b, size_t n);
namespace jogasaki::kvs {
enum class put_option : std::uint32_t { create_or_update = 0U, create, update };
struct content { std::vector<std::pair<std::string, std::string>> x; std::vector<lob::lob_id_type> lobs;
    long find(std::string_view k) const { for (size_t i = 0; i < x.size(); ++i) if (x[i].first.size() == k.size() && sym_index_same(x[i].first.data(), k.data(), k.size())) return (long)i; return -1; } };
struct fault { static inline int fail_at = -1, ops = 0; static inline status fail_status = status::ok; static bool hit() { return ops++ == fail_at; } };
class storage { content* c; public: explicit storage(content& x) : c(&x) {}
    status content_get(transaction&, std::string_view k, std::string_view& v) { if (fault::hit()) return fault::fail_status; auto i = c->find(k); if (i < 0) return status::not_found; v = c->x[(size_t)i].second; return status::ok; }
    status content_put(transaction&, std::string_view k, std::string_view v, put_option o = put_option::create_or_update, std::vector<lob::lob_id_type> const& lobs = {}) { if (fault::hit()) return fault::fail_status; auto i = c->find(k);
        if (i >= 0 && o == put_option::create) return status::already_exists; if (i < 0 && o == put_option::update) return status::not_found;
        c->lobs.insert(c->lobs.end(), lobs.begin(), lobs.end()); if (i >= 0) c->x[(size_t)i].second.assign(v); else c->x.emplace_back(std::string(k), std::string(v)); return status::ok; }
    status content_delete(transaction&, std::string_view k) { if (fault::hit()) return fault::fail_status; auto i = c->find(k); if (i < 0) return status::not_found; c->x.erase(c->x.begin() + i); return status::ok; }
    status content_scan(transaction&, std::string_view b, end_point_kind bk, std::string_view e, end_point_kind ek, std::unique_ptr<iterator>& it, std::size_t limit = 0, bool reverse = false) { if (fault::hit()) return fault::fail_status; it = open(*c, b, bk, e, ek, limit, reverse); return status::ok; }
    std::unique_ptr<iterator> open(content&, std::string_view, end_point_kind, std::string_view, end_point_kind, std::size_t, bool); };
}

// model of an index: its keys in ascending order; scans may fail at a chosen step
#pragma once
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <jogasaki/status.h>
namespace jogasaki::kvs {
enum class end_point_kind { unbound, prefixed_inclusive, inclusive, exclusive, prefixed_exclusive };
class transaction { public: bool aborted = false; status abort_transaction() { aborted = true; return status::ok; } };
class iterator { public: std::vector<std::string> rows; std::size_t pos = 0; bool begun = false; int fail = 0; status st = status::ok;
    status next() { if (fail == 2) return st; if (begun) pos++; begun = true; return pos < rows.size() ? status::ok : status::not_found; } status read_key(std::string_view& k) const { if (fail == 3) return st; k = rows[pos]; return status::ok; } };
class storage { public: std::vector<std::string> keys; int fail = 0; status st = status::ok; int skip = 0;
    status content_scan(transaction&, std::string_view, end_point_kind b, std::string_view, end_point_kind e, std::unique_ptr<iterator>& it, std::size_t limit = 0, bool reverse = false) { if (b != end_point_kind::unbound || e != end_point_kind::unbound) return status::err_unsupported; int f = 0; if (fail) { if (skip) skip--; else f = fail; } if (f == 1) return st; it = std::make_unique<iterator>(); it->fail = f; it->st = st; it->rows = keys; if (reverse) it->rows.assign(keys.rbegin(), keys.rend()); if (limit && it->rows.size() > limit) it->rows.resize(limit); return status::ok; } };
}

// model of the transaction engine's storage deletion: records what is deleted, deletion may fail
#pragma once
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <jogasaki/status.h>
namespace jogasaki::kvs { class database; class storage { public: database* d; std::string key; status delete_storage(); }; class database { public: std::set<std::string> live; std::vector<std::string> deleted; std::string fails; std::unique_ptr<storage> get_storage(std::string_view k) { if (!live.count(std::string(k))) return nullptr; auto s = std::make_unique<storage>(); s->d = this; s->key = k; return s; } };
inline status storage::delete_storage() { if (key == d->fails) return status::err_io_error; d->live.erase(key); d->deleted.push_back(key); return status::ok; } }

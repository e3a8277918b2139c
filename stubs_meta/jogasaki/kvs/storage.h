// stand-in: the options kept with each storage, by storage key
#pragma once
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <jogasaki/status.h>
namespace sharksfin { struct StorageOptions { std::string p; std::string const& payload() const { return p; } StorageOptions& payload(std::string_view v) { p = std::string(v); return *this; } }; }
namespace jogasaki::kvs { struct storage { struct entry { std::string key; std::string options; }; entry* e; inline static bool fail = false; status set_options(sharksfin::StorageOptions const& o) { if (fail) return status::err_io_error; e->options = o.p; return status::ok; } status get_options(sharksfin::StorageOptions& o) { o.p = e->options; return status::ok; } };
struct database { std::vector<storage::entry> l; std::unique_ptr<storage> get_storage(std::string_view k) { for (auto& x : l) if (x.key == k) return std::make_unique<storage>(storage{&x}); return {}; } }; }

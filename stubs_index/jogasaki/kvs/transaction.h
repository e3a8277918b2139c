#pragma once
#include <memory>
#include <jogasaki/status.h>
namespace jogasaki::kvs { class transaction { public: std::unique_ptr<transaction> acquire_strand() { return {}; } }; }

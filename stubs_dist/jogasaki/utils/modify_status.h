#pragma once
#include <jogasaki/kvs/storage.h>
namespace jogasaki::utils { inline void modify_concurrent_operation_status(kvs::transaction&, status& st, bool) { if (st == status::concurrent_operation) st = status::not_found; } }

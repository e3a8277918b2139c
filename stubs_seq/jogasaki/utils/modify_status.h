#pragma once
#include <jogasaki/kvs/transaction.h>
namespace jogasaki::utils { inline void modify_concurrent_operation_status(kvs::transaction&, status&, bool) {} }

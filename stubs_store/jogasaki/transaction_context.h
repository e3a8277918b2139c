#pragma once
#include <jogasaki/kvs/database.h>
namespace jogasaki { class transaction_context {}; }

#pragma once
#include <jogasaki/request_context.h>
namespace jogasaki { inline void log_end_of_tx(transaction_context&, bool, request_info const&) {} }

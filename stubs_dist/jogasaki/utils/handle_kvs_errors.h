#pragma once
#include <jogasaki/request_context.h>
namespace jogasaki::utils { inline void report_error(request_context& c, status st) { c.st = st; } }
#define handle_kvs_errors(rctx, s) jogasaki::utils::report_error(rctx, s)

#pragma once
#include <jogasaki/utils/handle_kvs_errors.h>
#define handle_generic_error(rctx, s, ec) jogasaki::utils::report_error(rctx, s)

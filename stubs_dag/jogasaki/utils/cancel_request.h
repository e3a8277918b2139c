#pragma once
#include <jogasaki/request_context.h>
#include <jogasaki/request_cancel_config.h>
#include <jogasaki/error/error_info_factory.h>
namespace jogasaki { inline bool stub_cancel_enabled = false; inline void cancel_request(request_context& r) { set_error_context(r, error_code::request_canceled, "", status::request_canceled); }
namespace utils { inline bool request_cancel_enabled(request_cancel_kind) { return stub_cancel_enabled; } } }

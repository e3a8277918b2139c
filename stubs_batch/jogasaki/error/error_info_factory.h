#pragma once
#include <memory>
#include <jogasaki/error/error_info.h>
namespace jogasaki::error { inline std::shared_ptr<error_info> stub_error(error_code c, std::string_view m, status s) { auto e = std::make_shared<error_info>(c, m, "f", "1", ""); e->status(s); return e; } }
#define create_error_info(code, msg, st) jogasaki::error::stub_error((code), (msg), (st))

// stand-in: an error is its code and status
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <jogasaki/error/error_info.h>
#include <jogasaki/utils/storage_metadata_exception.h>
namespace jogasaki::error { inline std::shared_ptr<error_info> stub_error(error_code c, std::string_view m, status s) { auto e = std::make_shared<error_info>(c, m, "f", "1", ""); e->status(s); return e; } }
#define create_error_info(code, msg, st) jogasaki::error::stub_error((code), (msg), (st))
#define create_error_from_exception(e) jogasaki::error::stub_error((e).get_code(), "", (e).get_status())

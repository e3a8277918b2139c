#pragma once
#include <memory>
#include <jogasaki/error_code.h>
#include <jogasaki/status.h>
#include <jogasaki/error/error_info.h>
namespace jogasaki { class request_context { public: status st = status::ok; std::shared_ptr<error::error_info> info; std::shared_ptr<error::error_info> const& error_info() const { return info; } }; }

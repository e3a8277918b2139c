#pragma once
#include <string>
#include <string_view>
#include <jogasaki/error/error_info.h>
#include <jogasaki/request_context.h>
namespace jogasaki {
inline void set_error_info(request_context& r, std::shared_ptr<error::error_info> i) { ++r.errors_; if (!r.err_) { r.err_ = i ? std::move(i) : std::make_shared<error::error_info>(); r.st_ = status::err_unknown; } }
inline void set_error_context(request_context& r, error_code c, std::string_view, status s) { ++r.errors_; if (!r.err_) { r.err_ = std::make_shared<error::error_info>(); r.err_->code = static_cast<int>(c); r.st_ = s; } }
namespace error { using jogasaki::set_error_info; using jogasaki::set_error_context; }
}

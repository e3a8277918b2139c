// stand-in: an error is its code and status; the first one reported stays
#pragma once
#include <memory>
#include <string_view>
#include <jogasaki/request_context.h>
#include <takatori/util/string_builder.h>
#include <takatori/util/exception.h>
#include <jogasaki/utils/line_number_string.h>
namespace jogasaki::error { inline std::shared_ptr<error_info> stub_error(error_code c, status s) { auto e = std::make_shared<error_info>(); e->c = c; e->s = s; return e; }
inline void set_error_info(request_context& r, std::shared_ptr<error_info> const& e) { if (!r.err) r.err = e; }
inline void set_error_context_impl(request_context& r, error_code c, std::string_view, std::string_view, std::string_view, status s, bool) { set_error_info(r, stub_error(c, s)); } }
#define create_error_info(code, msg, st) ((void)(msg), jogasaki::error::stub_error((code), (st)))
#define set_error_context(rctx, code, msg, st) jogasaki::error::set_error_context_impl((rctx), (code), (msg), "", "", (st), false)

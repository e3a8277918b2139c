#pragma once
#include <functional>
#include <string>
#include <utility>
#include <jogasaki/status.h>
namespace jogasaki::executor::file { enum class loader_result { ok, running, error }; class loader { public: std::function<loader_result()> f; loader_result operator()() { return f(); } std::pair<status, std::string> error_info() { return {status::err_unknown, std::string{}}; } }; }

#pragma once
#include <stdexcept>
#include <jogasaki/error/error_info_factory.h>
namespace jogasaki::plan { struct plan_exception : std::runtime_error { std::shared_ptr<error::error_info> e; explicit plan_exception(std::shared_ptr<error::error_info> x) : std::runtime_error("plan"), e(std::move(x)) {} }; }

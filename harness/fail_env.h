// stand-in for utils/fail.cpp (needs boost::stacktrace output): the same outcome, a std::logic_error, without the trace text
#pragma once
#include <stdexcept>
#include <string>
#include <string_view>
namespace jogasaki::utils {
[[noreturn]] void fail_with_exception_impl(std::string_view msg, std::string_view, std::string_view) { throw std::logic_error(std::string(msg)); }
void fail_no_exception_impl(std::string_view, std::string_view, std::string_view) {}
}

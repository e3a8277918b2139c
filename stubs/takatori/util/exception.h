#pragma once
// stand-in for takatori/util/exception.h: the stack trace decoration is dropped
#include <exception>
#include <stdexcept>
#include <string>
#include <ostream>
#include <utility>
namespace takatori::util {
class stacktrace {};
template <class T> [[noreturn]] void throw_exception(T const& e) { throw e; }
template <class T> stacktrace const* find_trace(T const&) noexcept { return nullptr; }
inline void print_trace(std::ostream&, std::exception const&) {}
}

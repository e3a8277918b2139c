#pragma once
#include "exception.h"
namespace takatori::util { [[noreturn]] inline void fail() { throw_exception(std::domain_error("fail")); } [[noreturn]] inline void fail(std::string const& m) { throw_exception(std::domain_error(m)); } }

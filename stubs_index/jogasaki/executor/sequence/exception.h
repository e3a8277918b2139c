#pragma once
#include <stdexcept>
#include <jogasaki/status.h>
namespace jogasaki::executor::sequence { struct exception : std::runtime_error { status s; explicit exception(status x) : std::runtime_error("sequence"), s(x) {} status get_status() const noexcept { return s; } }; }

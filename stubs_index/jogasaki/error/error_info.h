#pragma once
#include <jogasaki/error_code.h>
#include <jogasaki/status.h>
#include <ostream>
namespace jogasaki::error { struct error_info { error_code c{}; jogasaki::status s{}; error_code code() const { return c; } jogasaki::status status() const { return s; } }; inline std::ostream& operator<<(std::ostream& o, error_info const&) { return o; } }

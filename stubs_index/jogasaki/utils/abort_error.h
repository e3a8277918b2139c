#pragma once
#include <string>
#include <jogasaki/request_context.h>
namespace jogasaki::utils { inline std::string create_abort_message(request_context const&) { return {}; } }

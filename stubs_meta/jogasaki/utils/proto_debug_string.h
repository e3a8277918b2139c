#pragma once
#include <string>
namespace jogasaki::utils { template <class M> std::string to_debug_string(M const&) { return {}; } }

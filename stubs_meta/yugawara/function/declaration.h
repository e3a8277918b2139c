#pragma once
#include <cstddef>
namespace yugawara::function { struct declaration { std::size_t d{}; std::size_t definition_id() const { return d; } }; }

// stand-in: the id under which the function implementation is registered
#pragma once
#include <cstddef>
#include <memory>
namespace yugawara::aggregate { struct declaration { std::size_t id{}; std::size_t definition_id() const { return id; } }; }

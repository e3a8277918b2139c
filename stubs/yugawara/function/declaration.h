#pragma once
#include <string>
#include <vector>
#include <takatori/type/type_kind.h>
namespace yugawara::function { struct declaration { std::size_t id{}; std::string name; takatori::type::data ret; std::vector<takatori::type::data> args; }; }

// stand-in: what a function declaration carries
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <takatori/type/type_kind.h>
namespace yugawara::aggregate { struct declaration { static constexpr std::string_view name_suffix_distinct = "$distinct"; static constexpr std::size_t minimum_builtin_function_id = 10000; std::size_t id{}; std::string name; takatori::type::data ret; std::vector<takatori::type::data> args; bool incremental{}; }; }

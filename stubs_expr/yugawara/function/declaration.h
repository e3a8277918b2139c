#pragma once
#include <functional>
#include <string>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::function { struct declaration { static constexpr std::size_t minimum_builtin_function_id = 10000; std::size_t id{}; std::string name; takatori::type::data ret; std::vector<std::reference_wrapper<takatori::type::data const>> args; declaration() = default; declaration(std::size_t i, std::string n, takatori::type::data r, std::vector<takatori::type::data> const&) : id(i), name(std::move(n)), ret(r) {} std::size_t definition_id() const { return id; } auto const& parameter_types() const { return args; } }; }

#pragma once
#include <unordered_map>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
namespace yugawara { struct compiled_info { std::unordered_map<takatori::descriptor::variable, takatori::type::data const*> types; takatori::type::data const& type_of(takatori::descriptor::variable const& v) const { return *types.at(v); } std::unordered_map<takatori::scalar::expression const*, takatori::type::data const*> etypes; takatori::type::data const& type_of(takatori::scalar::expression const& e) const { return *etypes.at(&e); } }; }

#pragma once
#include <takatori/scalar/expression.h>
namespace yugawara { struct compiled_info { takatori::type::data const& type_of(takatori::descriptor::variable const&) const { std::abort(); } takatori::type::data const& type_of(takatori::scalar::expression const& e) const { return *e.type_; } }; }

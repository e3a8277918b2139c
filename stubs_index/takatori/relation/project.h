#pragma once
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
namespace takatori::relation { struct project { struct column { descriptor::variable v; scalar::expression const* e; descriptor::variable const& variable() const { return v; } scalar::expression const& value() const { return *e; } }; }; }

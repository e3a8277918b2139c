#pragma once
#include <yugawara/variable/nullity.h>
namespace yugawara::variable { struct criteria { variable::nullity x; criteria(variable::nullity n) : x(n) {} variable::nullity const& nullity() const { return x; } }; }

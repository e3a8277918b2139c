#pragma once
#include "expression_kind.h"
namespace takatori::relation { struct expression { virtual ~expression() = default; virtual expression_kind kind() const { return expression_kind::write; } }; }

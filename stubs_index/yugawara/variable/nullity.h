#pragma once
namespace yugawara::variable { struct nullity { bool n{}; bool nullable() const { return n; } }; struct criteria { variable::nullity x; variable::nullity const& nullity() const { return x; } }; }

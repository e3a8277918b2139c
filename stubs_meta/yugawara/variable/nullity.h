#pragma once
namespace yugawara::variable { struct nullity { bool n{}; explicit nullity(bool b) : n(b) {} bool nullable() const { return n; } }; }

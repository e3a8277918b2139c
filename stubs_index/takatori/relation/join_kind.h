#pragma once
#include <iostream>
namespace takatori::relation { enum class join_kind { inner, left_outer, left_outer_at_most_one, full_outer, semi, anti }; inline std::ostream& operator<<(std::ostream& o, join_kind k) { return o << (int)k; } }

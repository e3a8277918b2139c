#pragma once
namespace takatori::relation { enum class sort_direction { ascendant, descendant }; }

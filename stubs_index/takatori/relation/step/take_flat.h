#pragma once
#include <takatori/relation/search_key.h>
namespace takatori::relation::step { struct take_flat { using column = relation::details::map_column; }; }

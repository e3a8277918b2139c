#pragma once
#include <takatori/relation/search_key.h>
namespace takatori::relation::step { struct take_cogroup { using column = relation::details::map_column; }; }

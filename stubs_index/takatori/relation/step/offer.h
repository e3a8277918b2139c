#pragma once
#include <takatori/relation/search_key.h>
namespace takatori::relation::step { struct offer { using column = relation::details::map_column; }; }

#pragma once
#include <takatori/relation/search_key.h>
namespace takatori::relation::step { struct join {}; }

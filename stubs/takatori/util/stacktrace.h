#pragma once
#include "exception.h"
#include <ostream>
namespace takatori::util { inline std::ostream& operator<<(std::ostream& o, stacktrace const&) { return o; } }

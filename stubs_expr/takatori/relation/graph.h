#pragma once
#include "expression.h"
namespace takatori::relation { struct graph_type {}; }

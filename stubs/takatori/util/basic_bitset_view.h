#pragma once
#include "bitset_view.h"

#pragma once
#include "search_key.h"

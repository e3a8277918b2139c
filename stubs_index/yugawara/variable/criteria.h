#pragma once
#include "nullity.h"

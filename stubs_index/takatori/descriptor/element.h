#pragma once
#include "variable.h"

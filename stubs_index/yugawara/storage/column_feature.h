#pragma once
#include "column.h"

#pragma once
#include "datetime_interval.h"

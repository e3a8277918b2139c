#pragma once
#include <takatori/value/data.h>

#pragma once
#include <takatori/util/reference_vector.h>

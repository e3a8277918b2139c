#pragma once
#include <takatori/scalar/expression.h>

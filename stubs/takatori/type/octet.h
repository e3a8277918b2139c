#pragma once
#include <takatori/type/type_kind.h>

#pragma once
#include <yugawara/storage/column.h>

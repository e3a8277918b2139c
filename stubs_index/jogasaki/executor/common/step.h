#pragma once
#include <jogasaki/utils/interference_size.h>

#pragma once
#include <jogasaki/kvs/database.h>

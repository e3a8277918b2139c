#pragma once
#include <vector>
#include <jogasaki/kvs/storage.h>

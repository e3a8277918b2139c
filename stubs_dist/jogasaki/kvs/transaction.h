#pragma once
#include <jogasaki/kvs/storage.h>

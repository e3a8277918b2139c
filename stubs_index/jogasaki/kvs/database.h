#pragma once
#include <jogasaki/kvs/storage.h>
namespace jogasaki::kvs { class database {}; }

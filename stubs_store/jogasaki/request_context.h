#pragma once
#include <algorithm>
#include <iostream>
#include <glog/logging.h>
#include <jogasaki/utils/interference_size.h>
#include <jogasaki/utils/assert.h>
namespace jogasaki { class request_context {}; }

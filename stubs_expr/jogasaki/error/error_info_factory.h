#pragma once
#include <jogasaki/utils/assert.h>
#include <jogasaki/configuration.h>
namespace jogasaki { class request_context; }
#include_next <jogasaki/error/error_info_factory.h>

// stand-in: not used by the code under check
#pragma once
#include <memory>
#include <jogasaki/utils/assert.h>
#include <jogasaki/configuration.h>
namespace jogasaki { class request_context {}; }
namespace jogasaki::executor::process::impl {}

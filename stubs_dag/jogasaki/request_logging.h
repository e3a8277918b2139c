#pragma once
#include <jogasaki/scheduler/request_detail.h>
#include <jogasaki/request_context.h>
namespace jogasaki { inline void log_request(scheduler::request_detail const&, bool = true) {} }

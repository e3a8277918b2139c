#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <iostream>
#include <string>
#include <vector>
#include <glog/logging.h>
#include <string_view>
namespace sharksfin { using durability_marker_type = std::uint64_t; struct TransactionHandle { void* p{}; }; struct TransactionControlHandle { void* p{}; }; enum class StatusCode : std::int64_t { OK = 0, ERR_ABORTED = -1 }; enum class ErrorCode : std::int32_t { OK = 0 }; }

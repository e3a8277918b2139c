#pragma once
#include <chrono>
#include <cstdint>
#include <memory>
#include <optional>
namespace jogasaki { class transaction_context { public: std::uint64_t surrogate_id() const { return 7; } std::optional<std::chrono::system_clock::time_point> st; std::optional<std::chrono::system_clock::time_point> const& start_time() const { return st; } }; }

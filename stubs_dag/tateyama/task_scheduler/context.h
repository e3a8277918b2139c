#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class context {
    std::size_t i_{};
public:
    context() = default; explicit context(std::size_t i) noexcept : i_(i) {}
    std::size_t index() const noexcept { return i_; } bool task_is_stolen() const noexcept { return false; } std::size_t last_steal_from() const noexcept { return 0; }
};
}

#pragma once
namespace tateyama::task_scheduler {
enum class schedule_policy_kind { undefined, suspended_worker };
class schedule_option { schedule_policy_kind k_{}; public: schedule_option() = default; explicit schedule_option(schedule_policy_kind k) noexcept : k_(k) {} schedule_policy_kind policy() const noexcept { return k_; } };
}

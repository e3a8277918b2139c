// the task an exchange creates only reports its completion
#pragma once
#include <memory>
#include <cstdint>
#include <string_view>
#include <jogasaki/model/task.h>
#include <jogasaki/executor/exchange/step.h>
#include <jogasaki/request_context.h>
namespace jogasaki::executor::exchange { class task : public model::task { public: task(request_context*, exchange::step*) {} identity_type id() const override { return 0; } model::task_result operator()() override { return model::task_result::complete; } model::task_transaction_kind transaction_capability() override { return {}; } protected: std::ostream& write_to(std::ostream& out) const override { return out; } }; }

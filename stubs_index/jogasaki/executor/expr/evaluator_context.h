#pragma once
#include <memory>
#include <jogasaki/transaction_context.h>
#include <jogasaki/relay/blob_session_container.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/request_context.h>
#include <deque>
#include <ostream>
#include <jogasaki/executor/diagnostic_record.h>
namespace jogasaki::executor::expr { enum class error_kind_stub { x }; inline std::string_view to_string_view(error_kind_stub) noexcept { return {}; } inline std::ostream& operator<<(std::ostream& o, error_kind_stub) { return o; } using error_type = diagnostic_record<error_kind_stub>; class evaluator_context { std::deque<error_type> errs_; std::shared_ptr<jogasaki::error::error_info> e_; public: evaluator_context(memory::lifo_paged_memory_resource*, transaction_context*) {} std::deque<error_type> const& errors() const { return errs_; } void set_transaction(transaction_context*) {} void blob_session(relay::blob_session_container*) {} std::shared_ptr<jogasaki::error::error_info> const& get_error_info() const { return e_; } }; }

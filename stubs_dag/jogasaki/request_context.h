#pragma once
#include <memory>
#include <takatori/util/maybe_shared_ptr.h>
#include <atomic>
#include <string>
#include <takatori/util/maybe_shared_ptr.h>
#include <jogasaki/status.h>
#include <jogasaki/error_code.h>
#include <jogasaki/model/flow_repository.h>
#include <jogasaki/configuration.h>
#include <jogasaki/scheduler/job_context.h>
#include <jogasaki/transaction_context.h>
#include <boost/exception/exception.hpp>
#include <sstream>
#include <immintrin.h>
#include <exception>
#include <jogasaki/executor/global.h>
#include <jogasaki/logging.h>
#include <jogasaki/logging_helper.h>
namespace jogasaki::error { struct error_info; }
namespace jogasaki::scheduler { class statement_scheduler; class task_scheduler; }
namespace jogasaki { inline bool stub_job_gone = false; using takatori::util::maybe_shared_ptr;
struct response_source_t { bool cancel{}; std::size_t checks{}; bool check_cancel() { ++checks; return cancel; } };
struct request_info { std::shared_ptr<response_source_t> rs; std::shared_ptr<response_source_t> const& response_source() const { return rs; } };
struct writer_pool_t { std::size_t released{}; void release_pool() { ++released; } };
class request_context {
public:
    std::shared_ptr<scheduler::job_context> job_; std::shared_ptr<transaction_context> tx_; std::shared_ptr<error::error_info> err_; std::shared_ptr<model::flow_repository> flows_; std::shared_ptr<writer_pool_t> pool_;
    request_info info_; scheduler::task_scheduler* ts_{}; scheduler::statement_scheduler* ss_{}; status st_{status::ok}; bool light_{}; bool lightweight() const { return light_; } std::size_t errors_{}; mutable std::size_t stub_late_{};
    // stub_job_gone: the owner of the job released it, nobody may come back for it
    std::shared_ptr<scheduler::job_context> const& job() const { if (stub_job_gone) ++stub_late_; return job_; } void job(std::shared_ptr<scheduler::job_context> j) { job_ = std::move(j); }
    std::shared_ptr<transaction_context> const& transaction() const { return tx_; } std::shared_ptr<error::error_info> const& error_info() const { return err_; }
    std::shared_ptr<model::flow_repository> const& flows() const { return flows_; } void flows(std::shared_ptr<model::flow_repository> f) { flows_ = std::move(f); }
    std::shared_ptr<writer_pool_t> const& writer_pool() const { return pool_; } request_info const& req_info() const { return info_; } status status_code() const { return st_; }
    scheduler::task_scheduler* scheduler() const { return ts_; } scheduler::statement_scheduler* stmt_scheduler() const { return ss_; }
};
}
#ifndef trace_scope_name
#define trace_scope_name(x)
#endif
namespace takatori::util { inline std::string const* find_trace(std::exception const&) { return nullptr; } }

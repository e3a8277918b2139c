// stand-in: the request context members the index code uses; statistics are the real class
#pragma once
#include <memory>
#include <takatori/util/maybe_shared_ptr.h>
#include <jogasaki/configuration.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/error_code.h>
#include <jogasaki/request_statistics.h>
#include <jogasaki/status.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/executor/diagnostic_record.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/executor/sequence/manager.h>
namespace jogasaki { struct stub_response { bool cancel{}; bool check_cancel() const { return cancel; } }; struct stub_request_info { std::shared_ptr<stub_response> rs; std::shared_ptr<stub_response> const& response_source() const { return rs; } };
using takatori::util::maybe_shared_ptr; struct request_context { std::shared_ptr<transaction_context> tx; std::shared_ptr<class configuration> conf; std::shared_ptr<request_statistics> stats; std::shared_ptr<error::error_info> err; std::string storage_name; stub_request_info info; executor::sequence::manager* seqs{}; std::shared_ptr<kvs::database> db; executor::sequence::manager* sequence_manager() const { return seqs; } std::shared_ptr<kvs::database> const& database() const { return db; } stub_request_info const& req_info() const { return info; }
    std::shared_ptr<transaction_context> const& transaction() const { return tx; } std::shared_ptr<class configuration> const& configuration() const { return conf; }
    std::shared_ptr<request_statistics> const& enable_stats() { if (!stats) stats = std::make_shared<request_statistics>(); return stats; } std::shared_ptr<error::error_info> error_info() const { return err; } }; }

#pragma once
#include <functional>
#include <memory>
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/parameter_set.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/request_statistics.h>
namespace jogasaki::executor { using error_info_stats_callback = std::function<void(status, std::shared_ptr<error::error_info>, std::shared_ptr<request_statistics>)>;
status create_transaction(std::shared_ptr<transaction_context>& out, std::shared_ptr<api::transaction_option> opt);
bool execute_async(api::impl::database& db, std::shared_ptr<transaction_context> tx, std::shared_ptr<api::impl::prepared_statement> stmt, std::shared_ptr<api::parameter_set> ps, std::nullptr_t, error_info_stats_callback cb); }

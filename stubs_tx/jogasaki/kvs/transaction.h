// model of the transaction engine: records commits and aborts
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <sharksfin/api.h>
#include <sharksfin/CallResult.h>
#include <sharksfin/TransactionState.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/status.h>
namespace jogasaki::kvs { class transaction { public: using commit_callback_type = std::function<void(::sharksfin::StatusCode, ::sharksfin::ErrorCode, ::sharksfin::durability_marker_type)>;
    int commits{}, aborts{}; status result{status::ok}; std::function<void()> hook; std::string id{"tx"}; sharksfin::TransactionState st;
    status commit(bool = false) { commits++; if (hook) hook(); return result; } bool commit(commit_callback_type cb) { commits++; if (hook) hook(); cb(sharksfin::StatusCode::OK, sharksfin::ErrorCode::OK, 1); return true; } status abort_transaction() { aborts++; if (hook) hook(); return result; }
    sharksfin::TransactionControlHandle control_handle() { return {}; } sharksfin::TransactionHandle handle() { return {}; } kvs::database* database() { return nullptr; } std::shared_ptr<sharksfin::CallResult> recent_call_result() { return {}; } sharksfin::TransactionState check_state() { return st; } std::string_view transaction_id() { return id; } }; }

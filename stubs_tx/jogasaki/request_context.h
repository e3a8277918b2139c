#pragma once
#include <memory>
#include <jogasaki/transaction_context.h>
#include <jogasaki/request_cancel_config.h>
namespace jogasaki { struct stub_source { bool cancelled{}; int asked{}; bool check_cancel() { asked++; return cancelled; } }; struct stub_info { std::shared_ptr<stub_source> s; std::shared_ptr<stub_source> const& response_source() const { return s; } }; struct stub_job { std::size_t i{}; std::size_t id() const { return i; } };
class request_context { public: std::shared_ptr<transaction_context> t; stub_info info; std::shared_ptr<stub_job> j; int calls{}; std::shared_ptr<transaction_context> const& transaction() const { return t; } stub_info const& req_info() const { return info; } std::shared_ptr<stub_job> const& job() const { return j; } }; }

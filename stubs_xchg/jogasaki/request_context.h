// what the exchanges use of a request: its configuration and status
#pragma once
#include <memory>
#include <jogasaki/configuration.h>
#include <jogasaki/status.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/page_pool.h>
namespace jogasaki { class request_context { public: std::shared_ptr<class configuration> cfg = std::make_shared<class configuration>(); status st = status::ok; std::shared_ptr<class configuration> const& configuration() const { return cfg; } status status_code() const { return st; } }; }

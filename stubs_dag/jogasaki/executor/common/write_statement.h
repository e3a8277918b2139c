#pragma once
#include <functional>
#include <jogasaki/request_context.h>
namespace jogasaki::executor::common { class write_statement { public: std::function<void(request_context&)> f; bool operator()(request_context& r) { f(r); return true; } }; }

#pragma once
#include <jogasaki/plan/prepared_statement.h>
namespace jogasaki::api::impl { class prepared_statement { public: std::shared_ptr<plan::prepared_statement> b = std::make_shared<plan::prepared_statement>(); auto const& body() const { return b; } }; }

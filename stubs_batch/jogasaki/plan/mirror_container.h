#pragma once
#include <jogasaki/executor/process/impl/variable_table_info.h>
namespace jogasaki::plan { class mirror_container { public: std::shared_ptr<executor::process::impl::variable_table_info> v = std::make_shared<executor::process::impl::variable_table_info>(); auto const& host_variable_info() const { return v; } }; }

// stand-in: variables of the blocks, host variables, and the variable types
#pragma once
#include <memory>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/relation/graph.h>
#include <takatori/relation/search_key.h>
#include <takatori/relation/expression_kind.h>
#include <yugawara/compiled_info.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/executor/process/impl/variable_table_info.h>
#include <jogasaki/executor/process/impl/ops/write_kind.h>
namespace jogasaki::executor::process { struct processor_info { impl::variables_info_list blocks; impl::variable_table const* host{}; yugawara::compiled_info ci;
    impl::variables_info_list const& vars_info_list() const { return blocks; } impl::variable_table const* host_variables() const { return host; } yugawara::compiled_info const& compiled_info() const { return ci; } }; }

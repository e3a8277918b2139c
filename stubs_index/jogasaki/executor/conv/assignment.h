#pragma once
#include <takatori/type/data.h>
#include <jogasaki/data/any.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/request_context.h>
#include <jogasaki/status.h>
namespace jogasaki::executor::conv { status conduct_assignment_conversion(takatori::type::data const& source_type, takatori::type::data const& target_type, data::any const& in, data::any& out, request_context& ctx, memory::lifo_paged_memory_resource* resource); }

#pragma once
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <jogasaki/data/any.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
namespace jogasaki::executor::conv { data::any create_immediate_default_value(takatori::value::data const& v, takatori::type::data const& t, memory::lifo_paged_memory_resource* r); }

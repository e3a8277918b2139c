#pragma once
#include <yugawara/storage/column.h>
#include <takatori/descriptor/variable.h>
namespace yugawara::binding { struct factory { takatori::descriptor::variable operator()(storage::column const& c) const { return {c.id}; } }; }

#pragma once
#include <takatori/descriptor/variable.h>
#include "expression.h"
namespace takatori::relation { enum class write_kind { insert, update, delete_, insert_overwrite, insert_skip }; struct write { struct key { descriptor::variable s, d; descriptor::variable const& source() const { return s; } descriptor::variable const& destination() const { return d; } }; using column = key; }; }
namespace takatori::relation::details { using mapping_element = relation::write::key; }

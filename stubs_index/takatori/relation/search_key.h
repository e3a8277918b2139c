#pragma once
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/tree/tree_fragment_vector.h>
#include "endpoint_kind.h"
#include "join_kind.h"
#include "sort_direction.h"
#include "expression.h"
namespace takatori::relation::details { struct map_column { descriptor::variable s, d; descriptor::variable const& source() const { return s; } descriptor::variable const& destination() const { return d; } };
struct search_key { descriptor::variable v; scalar::expression const* e; descriptor::variable const& variable() const { return v; } scalar::expression const& value() const { return *e; } };
struct searching { using column = map_column; using key = search_key; }; }
namespace takatori::relation { struct find : details::searching {}; struct scan : details::searching {}; struct join_find : details::searching {}; struct join_scan : details::searching {}; }

// stand-in: an aggregate column names its function, arguments and result
#pragma once
#include <vector>
#include <takatori/relation/search_key.h>
#include <yugawara/aggregate/declaration.h>
namespace takatori::relation::details { struct aggregate_column { std::shared_ptr<yugawara::aggregate::declaration const> f; std::vector<descriptor::variable> a; descriptor::variable d; auto const& function() const { return f; } std::vector<descriptor::variable> const& arguments() const { return a; } descriptor::variable const& destination() const { return d; } }; }
namespace takatori::relation::step { struct aggregate { using column = relation::details::aggregate_column; }; }

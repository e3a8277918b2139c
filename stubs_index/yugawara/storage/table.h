#pragma once
#include "index.h"
namespace yugawara::storage { struct table { std::vector<column> cols; storage::provider const* o{}; std::vector<column> const& columns() const { return cols; } storage::provider const* owner() const { return o; } };
struct provider { std::vector<std::shared_ptr<index const>> idx; std::shared_ptr<index const> find_primary_index(table const&) const { return idx.empty() ? nullptr : idx[0]; } template <class F> void each_table_index(table const&, F&& f) const { for (auto& i : idx) f(i->simple_name(), i); } }; }

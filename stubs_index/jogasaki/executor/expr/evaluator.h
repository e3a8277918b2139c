// stand-in: the value of an expression is given by the harness; null and false conditions are false
#pragma once
#include <takatori/scalar/expression.h>
#include <yugawara/compiled_info.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/executor/process/impl/variables_view.h>
#include <jogasaki/executor/global.h>
#include "evaluator_context.h"
namespace jogasaki::executor::expr { class evaluator { takatori::scalar::expression const* e_{}; public: evaluator() = default; explicit evaluator(takatori::scalar::expression const& e, yugawara::compiled_info const&, process::impl::variable_table const* = nullptr) noexcept : e_(&e) {}
    data::any operator()(evaluator_context&, process::impl::variables_view v, memory::lifo_paged_memory_resource* = nullptr) const { return e_->eval(v); } };
inline data::any evaluate_bool(evaluator_context& c, evaluator& e, process::impl::variables_view v, memory::lifo_paged_memory_resource* r = nullptr) { auto a = e(c, v, r); if (a.error()) return a; return data::any{std::in_place_type<bool>, a && a.to<bool>()}; } }

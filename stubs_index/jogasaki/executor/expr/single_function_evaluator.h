// stand-in: the value of a function is given by the harness
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
#include <jogasaki/data/any.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/global.h>
namespace jogasaki::executor::expr { class single_function_evaluator { std::size_t id_{}; public: static inline std::function<data::any(std::size_t)> hook; single_function_evaluator() = default; template <class F> explicit single_function_evaluator(std::size_t id, F const&) : id_(id) {} data::any operator()(evaluator_context&) const { return hook(id_); } }; }

// stand-in of the scalar expression tree: every node carries its resolved type
#pragma once
#include <cstdlib>
#include <memory>
#include <vector>
#include <iostream>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <takatori/descriptor/variable.h>
#include <takatori/util/optional_ptr.h>
namespace yugawara::function { struct declaration; }
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
struct expression { expression_kind kind; type::data const* type_{}; explicit expression(expression_kind k, type::data const* t = nullptr) : kind(k), type_(t) {} virtual ~expression() = default; };
using eref = std::shared_ptr<expression>;
struct immediate : expression { value::data v; immediate(value::data x, type::data const& t) : expression(expression_kind::immediate, &t), v(std::move(x)) {} value::data const& value() const { return v; } type::data const& type() const { return *type_; } };
struct variable_reference : expression { descriptor::variable v; variable_reference(descriptor::variable x, type::data const& t) : expression(expression_kind::variable_reference, &t), v(x) {} descriptor::variable const& variable() const { return v; } };
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
struct unary : expression { using operator_kind_type = unary_operator; unary_operator op; eref o; unary(unary_operator p, eref x, type::data const* t = nullptr) : expression(expression_kind::unary, t), op(p), o(std::move(x)) {} unary_operator operator_kind() const { return op; } expression const& operand() const { return *o; } };
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
struct cast : expression { cast_loss_policy p; eref o; cast(type::data const& t, cast_loss_policy x, eref y) : expression(expression_kind::cast, &t), p(x), o(std::move(y)) {} type::data const& type() const { return *type_; } cast_loss_policy loss_policy() const { return p; } expression const& operand() const { return *o; } };
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
struct binary : expression { using operator_kind_type = binary_operator; binary_operator op; eref l, r; binary(binary_operator p, eref x, eref y, type::data const* t = nullptr) : expression(expression_kind::binary, t), op(p), l(std::move(x)), r(std::move(y)) {} binary_operator operator_kind() const { return op; } expression const& left() const { return *l; } expression const& right() const { return *r; } };
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
struct compare : expression { comparison_operator op; eref l, r; compare(comparison_operator p, eref x, eref y, type::data const* t = nullptr) : expression(expression_kind::compare, t), op(p), l(std::move(x)), r(std::move(y)) {} comparison_operator operator_kind() const { return op; } expression const& left() const { return *l; } expression const& right() const { return *r; } };
struct match : expression { enum class operator_kind_type { like, similar }; operator_kind_type op; eref i, p, e; match(operator_kind_type o, eref x, eref y, eref z, type::data const* t = nullptr) : expression(expression_kind::match, t), op(o), i(std::move(x)), p(std::move(y)), e(std::move(z)) {} operator_kind_type operator_kind() const { return op; } expression const& input() const { return *i; } expression const& pattern() const { return *p; } expression const& escape() const { return *e; } };
struct conditional : expression { struct alternative { eref c, b; expression const& condition() const { return *c; } expression const& body() const { return *b; } }; std::vector<alternative> a; eref d; conditional(std::vector<alternative> x, eref y, type::data const* t) : expression(expression_kind::conditional, t), a(std::move(x)), d(std::move(y)) {} std::vector<alternative> const& alternatives() const { return a; } util::optional_ptr<expression const> default_expression() const { return d ? util::optional_ptr<expression const>(*d) : util::optional_ptr<expression const>(); } };
struct expressions { std::vector<eref> v; struct iterator { eref const* p; expression const& operator*() const { return **p; } iterator& operator++() { ++p; return *this; } bool operator!=(iterator o) const { return p != o.p; } }; iterator begin() const { return {v.data()}; } iterator end() const { return {v.data() + v.size()}; } std::size_t size() const { return v.size(); } };
struct coalesce : expression { expressions a; coalesce(std::vector<eref> x, type::data const* t) : expression(expression_kind::coalesce, t), a{std::move(x)} {} expressions const& alternatives() const { return a; } };
struct let : expression { let() : expression(expression_kind::let) {} };
struct function_call : expression { yugawara::function::declaration const* f; expressions a; function_call(yugawara::function::declaration const& x, std::vector<eref> y, type::data const* t) : expression(expression_kind::function_call, t), f(&x), a{std::move(y)} {} yugawara::function::declaration const* function() const { return f; } expressions const& arguments() const { return a; } };
struct extension : expression { extension() : expression(expression_kind::extension) {} };
template <class F> auto dispatch(F&& f, expression const& e) {
    switch (e.kind) {
        case expression_kind::immediate: return f(static_cast<immediate const&>(e));
        case expression_kind::variable_reference: return f(static_cast<variable_reference const&>(e));
        case expression_kind::unary: return f(static_cast<unary const&>(e));
        case expression_kind::cast: return f(static_cast<cast const&>(e));
        case expression_kind::binary: return f(static_cast<binary const&>(e));
        case expression_kind::compare: return f(static_cast<compare const&>(e));
        case expression_kind::match: return f(static_cast<match const&>(e));
        case expression_kind::conditional: return f(static_cast<conditional const&>(e));
        case expression_kind::coalesce: return f(static_cast<coalesce const&>(e));
        case expression_kind::let: return f(static_cast<let const&>(e));
        case expression_kind::function_call: return f(static_cast<function_call const&>(e));
        default: return f(static_cast<extension const&>(e));
    }
}
}

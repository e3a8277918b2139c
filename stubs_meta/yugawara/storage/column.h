#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <takatori/relation/sort_direction.h>
#include <takatori/type/type_kind.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/reference_vector.h>
#include <takatori/value/data.h>
#include <yugawara/function/declaration.h>
#include <yugawara/variable/criteria.h>
namespace yugawara::storage {
using takatori::relation::sort_direction;
enum class column_feature { synthesized, hidden, read_only };
enum class column_value_kind { nothing, immediate, sequence, function };
enum class index_feature { primary, find, scan, unique, unique_constraint };
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
struct sequence { using definition_id_type = std::size_t; std::optional<definition_id_type> d; std::string n; std::int64_t i{}, s{}, lo{}, hi{}; bool c{}; std::string x;
    sequence(std::string name, std::int64_t initial, std::int64_t inc, std::int64_t min, std::int64_t max, bool cycle, std::string desc) : n(std::move(name)), i(initial), s(inc), lo(min), hi(max), c(cycle), x(std::move(desc)) {}
    std::optional<definition_id_type> definition_id() const { return d; } sequence& definition_id(definition_id_type v) { d = v; return *this; } std::string_view simple_name() const { return n; } std::string const& description() const { return x; }
    std::int64_t initial_value() const { return i; } std::int64_t increment_value() const { return s; } std::int64_t min_value() const { return lo; } std::int64_t max_value() const { return hi; } bool cycle() const { return c; } };
struct column_value { column_value_kind k{}; std::shared_ptr<takatori::value::data const> i; std::shared_ptr<sequence const> s; std::shared_ptr<function::declaration const> f;
    column_value() = default; template <class T, std::enable_if_t<std::is_base_of_v<takatori::value::data, T>, int> = 0> explicit column_value(std::shared_ptr<T> v) : k(column_value_kind::immediate), i(std::move(v)) {} explicit column_value(std::shared_ptr<sequence> v) : k(column_value_kind::sequence), s(std::move(v)) {} explicit column_value(std::shared_ptr<function::declaration const> v) : k(column_value_kind::function), f(std::move(v)) {}
    column_value_kind kind() const { return k; } template <column_value_kind K> auto const& element() const { if constexpr (K == column_value_kind::immediate) return i; else if constexpr (K == column_value_kind::sequence) return s; else return f; } };
struct column { using feature_set_type = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>; std::string n; std::shared_ptr<takatori::type::data const> t; variable::criteria cr; column_value dv; feature_set_type f; std::string x;
    column(std::string name, std::shared_ptr<takatori::type::data const> type, variable::criteria c, column_value v, feature_set_type fs, std::string desc) : n(std::move(name)), t(std::move(type)), cr(c), dv(std::move(v)), f(fs), x(std::move(desc)) {}
    std::string_view simple_name() const { return n; } takatori::type::data const& type() const { return *t; } variable::criteria const& criteria() const { return cr; } column_value const& default_value() const { return dv; } feature_set_type const& features() const { return f; } std::string const& description() const { return x; } };
struct table { using definition_id_type = std::size_t; std::optional<definition_id_type> d; std::string n; takatori::util::reference_vector<column> c; std::string x;
    table(std::optional<definition_id_type> id, std::string name, takatori::util::reference_vector<column> cols, std::string desc) : d(id), n(std::move(name)), c(std::move(cols)), x(std::move(desc)) {}
    std::optional<definition_id_type> definition_id() const { return d; } std::string_view simple_name() const { return n; } takatori::util::reference_vector<column> const& columns() const { return c; } std::string const& description() const { return x; } };
struct index { using definition_id_type = std::size_t; using column_ref = std::reference_wrapper<storage::column const>;
    struct key { storage::column const* c; sort_direction dir; key(storage::column const& x, sort_direction d) : c(&x), dir(d) {} storage::column const& column() const { return *c; } sort_direction direction() const { return dir; } };
    std::optional<definition_id_type> d; std::shared_ptr<storage::table const> t; std::string n; std::vector<key> k; std::vector<column_ref> v; index_feature_set f; std::string x;
    index(std::optional<definition_id_type> id, std::shared_ptr<storage::table const> tbl, std::string name, std::vector<key> ks, std::vector<column_ref> vs, index_feature_set fs, std::string desc) : d(id), t(std::move(tbl)), n(std::move(name)), k(std::move(ks)), v(std::move(vs)), f(fs), x(std::move(desc)) {}
    std::optional<definition_id_type> definition_id() const { return d; } storage::table const& table() const { return *t; } std::shared_ptr<storage::table const> const& shared_table() const { return t; } std::string_view simple_name() const { return n; } std::vector<key> const& keys() const { return k; } std::vector<column_ref> const& values() const { return v; } index_feature_set const& features() const { return f; } std::string const& description() const { return x; } };
class configurable_provider { template <class T> using list = std::vector<std::pair<std::string, std::shared_ptr<T const>>>; list<table> t_; list<index> i_; list<sequence> s_;
    template <class T, class P> static P put(list<T>& l, P p, bool overwrite) { for (auto& e : l) if (e.first == p->simple_name()) { if (!overwrite) throw std::invalid_argument("already exists"); e.second = p; return p; } l.emplace_back(std::string(p->simple_name()), p); return p; }
    template <class T> static std::shared_ptr<T const> get(list<T> const& l, std::string_view n) { for (auto& e : l) if (e.first == n) return e.second; return {}; } template <class T> static bool del(list<T>& l, std::string_view n) { for (auto i = l.begin(); i != l.end(); ++i) if (i->first == n) { l.erase(i); return true; } return false; }
public: std::shared_ptr<table> add_table(std::shared_ptr<table> p, bool o = false) { return put(t_, std::move(p), o); } std::shared_ptr<table const> add_table(std::shared_ptr<table const> p, bool o = false) { return put(t_, std::move(p), o); } template <class P> P add_index(P p, bool o = false) { return put(i_, std::move(p), o); } template <class P> P add_sequence(P p, bool o = false) { return put(s_, std::move(p), o); }
    std::shared_ptr<table const> find_table(std::string_view n) const { return get(t_, n); } std::shared_ptr<table const> find_relation(std::string_view n) const { return get(t_, n); } std::shared_ptr<index const> find_index(std::string_view n) const { return get(i_, n); } std::shared_ptr<sequence const> find_sequence(std::string_view n) const { return get(s_, n); }
    bool remove_relation(std::string_view n) { return del(t_, n); } bool remove_index(std::string_view n) { return del(i_, n); } bool remove_sequence(std::string_view n) { return del(s_, n); }
    template <class F> void each_index(F&& f) const { for (auto& e : i_) f(e.first, e.second); } template <class F> void each_sequence(F&& f) const { for (auto& e : s_) f(e.first, e.second); } template <class F> void each_relation(F&& f) const { for (auto& e : t_) f(e.first, e.second); } std::size_t count() const { return t_.size() + i_.size() + s_.size(); } };
}

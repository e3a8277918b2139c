#pragma once
#include <map>
#include <string>
#include <string_view>
#include <jogasaki/meta/field_type_traits.h>
namespace jogasaki::plan {
struct ptype { meta::field_type_kind kind_{}; meta::field_type_kind kind() const { return kind_; } };
struct pvalue { std::size_t idx{}; std::string name{}; template <class T> T& ref() { if constexpr (std::is_same_v<T, std::string>) return name; else return idx; } template <class T> T const& ref() const { return const_cast<pvalue*>(this)->ref<T>(); } };
struct pentry { ptype t{}; pvalue v{}; ptype const& type() const { return t; } pvalue const& value() const { return v; } };
class parameter_set { public: std::map<std::string, pentry> e{}; std::map<std::string, std::int64_t> got{}; auto begin() const { return e.begin(); } auto end() const { return e.end(); }
    void set_null(std::string_view n) { got[std::string(n)] = -1; } void set_int8(std::string_view n, std::int64_t v) { got[std::string(n)] = v; }
#define X(k) template <class T> void set_##k(std::string_view n, T const&) { got[std::string(n)] = -2; }
    X(boolean) X(int4) X(float4) X(float8) X(decimal) X(character) X(octet) X(date) X(time_of_day) X(time_point)
#undef X
};
}

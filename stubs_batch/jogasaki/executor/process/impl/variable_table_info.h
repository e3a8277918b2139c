#pragma once
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <jogasaki/meta/field_type_kind.h>
namespace jogasaki::meta { struct bm_type { field_type_kind k{}; field_type_kind kind() const { return k; } }; class record_meta { public: std::size_t field_count() const { return 1; } bm_type at(std::size_t) const { return {field_type_kind::int8}; } std::size_t value_offset(std::size_t) const { return 8; } std::size_t nullity_offset(std::size_t) const { return 3; } }; }
namespace jogasaki::executor::process::impl {
struct variable_info { std::size_t i{}; std::size_t index() const { return i; } };
class variable_table_info { public: std::map<std::string, variable_info> m{{"c", {0}}}; std::shared_ptr<meta::record_meta> mt = std::make_shared<meta::record_meta>(); auto name_list_begin() const { return m.begin(); } auto name_list_end() const { return m.end(); } variable_info const& at(std::string_view n) const { return m.at(std::string(n)); } std::shared_ptr<meta::record_meta> const& meta() const { return mt; } };
}

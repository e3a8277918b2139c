#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/executor/process/impl/variable_table_info.h>
namespace jogasaki::executor::file { constexpr static std::size_t npos = static_cast<std::size_t>(-1);
struct reader_field_locator { reader_field_locator() = default; reader_field_locator(std::string_view n, std::size_t i) : name_(n), index_(i), empty_(false) {} std::string name_{}; std::size_t index_{npos}; bool empty_{true}; };
struct reader_option { std::vector<reader_field_locator> loc_{}; meta::record_meta const* meta_{}; reader_option() = default; reader_option(std::vector<reader_field_locator> l, meta::record_meta const& m) : loc_(std::move(l)), meta_(&m) {} };
class file_reader { public: static constexpr std::size_t index_unspecified = static_cast<std::size_t>(-1); virtual ~file_reader() = default; virtual bool next(accessor::record_ref& ref) = 0; virtual bool close() = 0; virtual std::size_t row_group_count() const noexcept = 0; }; }

#pragma once
#include <jogasaki/executor/file/file_reader.h>
#include <jogasaki/meta/field_type_kind.h>
namespace jogasaki::executor::file { struct parameter { meta::field_type_kind type_{}; std::size_t index_{}; std::size_t value_offset_{}; std::size_t nullity_offset_{}; }; }

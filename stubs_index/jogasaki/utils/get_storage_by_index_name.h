#pragma once
#include <memory>
#include <string_view>
#include <jogasaki/kvs/storage.h>
namespace jogasaki::utils { std::unique_ptr<kvs::storage> get_storage_by_index_name(std::string_view name); }

// stand-in of the datastore's functions (defined by the harness)
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <jogasaki/error/error_info.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/lob/lob_id.h>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/status.h>
#include <jogasaki/transaction_context.h>
namespace jogasaki::datastore {
status assign_lob_id(lob::lob_reference const& ref, transaction_context* tx, lob::lob_id_type& id, std::shared_ptr<error::error_info>& error);
status register_lob_data(std::string_view data, transaction_context* tx, lob::lob_id_type& out, std::shared_ptr<error::error_info>& error);
status find_path_by_lob_id(lob::lob_id_type id, std::string& path, std::shared_ptr<error::error_info>& error);
}

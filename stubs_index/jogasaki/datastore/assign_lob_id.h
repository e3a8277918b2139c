#pragma once
#include <jogasaki/request_context.h>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/error/error_info_factory.h>
namespace jogasaki::datastore { status assign_lob_id(lob::lob_reference const& ref, transaction_context* tx, lob::lob_id_type& id, std::shared_ptr<error::error_info>& error); }

#pragma once
#include <jogasaki/lob/lob_id.h>
namespace jogasaki::datastore {
class datastore { public: virtual ~datastore() = default; virtual std::uint64_t generate_reference_tag(lob::lob_id_type blob_id, std::uint64_t transaction_id) = 0; };
datastore* get_datastore(bool reset_cache = false);
}

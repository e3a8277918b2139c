#pragma once
#include <cstdint>
namespace data_relay_grpc::common { struct blob_session { std::uint64_t session_id() const { return 1; } void dispose() {} }; }

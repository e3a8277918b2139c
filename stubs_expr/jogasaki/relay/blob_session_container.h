#pragma once
#include <data_relay_grpc/common/session.h>
namespace jogasaki::relay { class blob_session_container { public: data_relay_grpc::common::blob_session* s{}; data_relay_grpc::common::blob_session* get_or_create() { return s; } }; }

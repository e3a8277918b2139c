#pragma once
namespace limestone::api { class blob_pool { public: virtual ~blob_pool() = default; virtual void release() = 0; }; }

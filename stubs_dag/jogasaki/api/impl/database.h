#pragma once
#include <memory>
#include <jogasaki/status.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <jogasaki/api/executable_statement.h>
#include <jogasaki/api/parameter_set.h>
#include <jogasaki/error/error_info.h>
namespace jogasaki::api { class statement_handle; }
namespace jogasaki::api::impl { class database { public: template <class S> status resolve_common(S const&, takatori::util::maybe_shared_ptr<api::parameter_set const>, std::unique_ptr<api::executable_statement>&, std::shared_ptr<error::error_info>&) { return status::err_unknown; } }; }

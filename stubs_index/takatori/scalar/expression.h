// stand-in: an expression is evaluated by the harness
#pragma once
#include <jogasaki/data/any.h>
namespace jogasaki::executor::process::impl { class variables_view; }
namespace takatori::scalar { struct expression { virtual ~expression() = default; virtual jogasaki::data::any eval(jogasaki::executor::process::impl::variables_view const&) const = 0; }; }

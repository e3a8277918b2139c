#pragma once
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <jogasaki/status.h>
namespace jogasaki::api { class transaction_handle { public: using callback = std::function<void(status, std::string_view)>; }; }

#pragma once
#include <string>
namespace boost { class exception { public: virtual ~exception() = default; }; inline std::string diagnostic_information(exception const&) { return {}; } }

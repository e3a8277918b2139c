#pragma once
namespace jogasaki::error { struct error_info { int code{}; }; }

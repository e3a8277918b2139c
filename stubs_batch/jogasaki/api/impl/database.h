#pragma once
#include <memory>
namespace jogasaki::api::impl { class prepared_statement; class database {}; }

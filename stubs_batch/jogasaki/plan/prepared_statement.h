#pragma once
#include <jogasaki/plan/mirror_container.h>
namespace jogasaki::plan { class prepared_statement { public: std::shared_ptr<mirror_container> m = std::make_shared<mirror_container>(); auto const& mirrors() const { return m; } }; }

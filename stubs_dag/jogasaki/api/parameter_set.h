#pragma once
namespace jogasaki::api { class parameter_set {}; }

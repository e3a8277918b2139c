#pragma once
namespace jogasaki::api { class database {}; }

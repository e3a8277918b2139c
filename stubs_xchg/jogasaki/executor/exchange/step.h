// exchanges only pass pointers to their step around
#pragma once
namespace jogasaki::executor::exchange { class step {}; }

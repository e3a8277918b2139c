#pragma once
namespace jogasaki::api { class executable_statement {}; }

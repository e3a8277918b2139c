#pragma once
namespace jogasaki::api { class statement_handle {}; }

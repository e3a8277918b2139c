#pragma once
namespace jogasaki::api::impl { class prepared_statement {}; }

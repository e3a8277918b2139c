#pragma once
namespace jogasaki::meta { class external_record_meta {}; }

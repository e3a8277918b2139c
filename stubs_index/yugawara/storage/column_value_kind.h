#pragma once
namespace yugawara::storage { enum class column_value_kind { nothing, immediate, sequence, function }; }

#pragma once
namespace takatori::relation { enum class expression_kind { find, scan, join_find, write }; }

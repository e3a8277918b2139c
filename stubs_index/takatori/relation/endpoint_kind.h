#pragma once
namespace takatori::relation { enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive }; }

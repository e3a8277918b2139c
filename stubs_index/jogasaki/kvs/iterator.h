#pragma once
#include <cstdint>
#include <string_view>
#include <jogasaki/status.h>
#include <ostream>
namespace jogasaki::kvs { enum class end_point_kind : std::uint32_t { unbound = 0U, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& o, end_point_kind k) { return o << (unsigned)k; }
class iterator { public: virtual ~iterator() = default; virtual status next() = 0; virtual status read_key(std::string_view&) = 0; virtual status read_value(std::string_view&) = 0; }; }

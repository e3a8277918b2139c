//@property C29
//@src src/jogasaki/utils/surrogate_id_utils.cpp
//@stubs
//@entry c29_roundtrip quick=30 thorough=60 | every 64-bit id
//@entry c29_order quick=30 thorough=60 | every pair of 64-bit ids
//@entry c29_from_bytes quick=30 thorough=60 | every byte string of 0..10 bytes
//@entry c29_is_surrogate quick=30 thorough=60 | every byte string of 0..10 bytes
#include "sym.h"
#include <stdexcept>
#include <jogasaki/utils/surrogate_id_utils.h>
using namespace jogasaki::utils;
HARNESS(c29_roundtrip) { uint64_t id = sym_u64("id"); std::string s = to_big_endian(id); SYM_ASSERT(s.size() == 8); for (size_t i = 0; i < 8 && i < s.size(); i++) sym_assert((uint8_t)s[i] == (uint8_t)(id >> (56 - 8 * i)), "most significant byte first"); uint64_t back = from_big_endian(s); sym_assert(back == id, "same id back"); sym_assert(is_surrogate_id(s) == (id < (uint64_t)1 << 56), "keys of ids below 2^56 are surrogate keys"); sym_observe("id", back); }
HARNESS(c29_order) { uint64_t a = sym_u64("a"), b = sym_u64("b"); std::string x = to_big_endian(a), y = to_big_endian(b); if (x.size() != 8 || y.size() != 8) { SYM_ASSERT(false); return; } int c = std::memcmp(x.data(), y.data(), 8); sym_assert((c < 0) == (a < b), "smaller id, smaller key"); sym_assert((c == 0) == (a == b), "same id, same key"); sym_observe("lt", c < 0); }
HARNESS(c29_from_bytes) { sym_buf b(sym_size("n", 0, 10), "b"); bool thrown = false; uint64_t v = 0; try { v = from_big_endian({b.p, b.n}); } catch (std::logic_error const&) { thrown = true; } SYM_ASSERT(thrown == (b.n != 8)); if (b.n == 8 && !thrown) { uint64_t w = 0; for (size_t i = 0; i < 8; i++) w = w << 8 | b[i]; sym_assert(v == w, "big endian value"); std::string s = to_big_endian(v); sym_assert(s.size() == 8 && sym_eq(s.data(), b.p, 8), "same bytes back"); } sym_observe("v", v); }
HARNESS(c29_is_surrogate) { sym_buf b(sym_size("n", 0, 10), "b"); bool r = is_surrogate_id({b.p, b.n}); if (b.n != 8) SYM_ASSERT(!r); else sym_assert(r == (b[0] == 0), "eight bytes with a zero head"); sym_observe("r", r); }

//@property C25
//@src src/jogasaki/utils/base64_utils.cpp
//@entry c25_encode quick=60 thorough=400 | input length 0..7 (thorough 0..13), every byte symbolic
//@entry c25_roundtrip quick=90 thorough=600 | input length 0..6 (thorough 0..9), every byte symbolic
//@entry c25_is_base64 quick=60 thorough=400 | text length 0..8 (thorough 0..12), every byte symbolic
//@entry c25_decode_any quick=60 thorough=400 | any text accepted by is_base64, length 4 or 8; decoding never throws and has the right size
#include "sym.h"
#include <jogasaki/utils/base64_utils.h>
namespace u = jogasaki::utils;
static const char A64[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static uint8_t ch(unsigned v) { v &= 63; return (uint8_t)sym_ite(v < 26, 'A' + v, sym_ite(v < 52, 'a' + v - 26, sym_ite(v < 62, '0' + v - 52, sym_ite(v == 62, '+', '/')))); }
static bool is64(uint8_t c) { return sym_or(sym_or(sym_and(c >= 'A', c <= 'Z'), sym_and(c >= 'a', c <= 'z')), sym_or(sym_and(c >= '0', c <= '9'), sym_or(c == '+', c == '/'))); }
HARNESS(c25_encode) {
    size_t n = sym_size("len", 0, QT(7, 13)); sym_buf b(n, "s"); std::string o = u::encode_base64({b.p, n});
    SYM_ASSERT(o.size() == (n + 2) / 3 * 4); bool ok = o.size() == (n + 2) / 3 * 4;
    for (size_t g = 0; ok && g * 3 < n; g++) { size_t r = n - g * 3; uint32_t x = (uint32_t)b[3 * g] << 16; if (r > 1) x |= (uint32_t)b[3 * g + 1] << 8; if (r > 2) x |= b[3 * g + 2];
        sym_assert((uint8_t)o[4 * g] == ch(x >> 18), "first digit"); sym_assert((uint8_t)o[4 * g + 1] == ch(x >> 12), "second digit"); sym_assert((uint8_t)o[4 * g + 2] == (r > 1 ? ch(x >> 6) : '='), "third digit or padding"); sym_assert((uint8_t)o[4 * g + 3] == (r > 2 ? ch(x) : '='), "fourth digit or padding"); }
    sym_observe_bytes("o", o.data(), o.size());
}
HARNESS(c25_roundtrip) {
    size_t n = sym_size("len", 0, QT(6, 9)); sym_buf b(n, "s"); std::string o = u::encode_base64({b.p, n}); 
    sym_assert(n == 0 || u::is_base64(o), "encoded text is accepted");
    std::string d = u::decode_base64(o); SYM_ASSERT(d.size() == n); sym_assert(d.size() == n && sym_eq(d.data(), b.p, n), "decode(encode(x)) == x");
}
HARNESS(c25_is_base64) {
    size_t n = sym_size("len", 0, QT(8, 12)); sym_buf b(n, "s"); bool r = u::is_base64({b.p, n});
    bool e = n != 0 && n % 4 == 0;
    if (e) { for (size_t i = 0; i + 2 < n; i++) e = sym_and(e, is64(b[i])); bool l2 = is64(b[n - 2]), l1 = is64(b[n - 1]); bool p2 = b[n - 2] == '=', p1 = b[n - 1] == '='; e = sym_and(e, sym_or(sym_and(l2, sym_or(l1, p1)), sym_and(p2, p1))); }
    sym_assert(r == e, "accepts exactly padded base64 of non-zero length"); sym_observe("r", r);
}
HARNESS(c25_decode_any) {
    size_t n = 4 * sym_size("groups", 1, QT(2, 3)); sym_buf b(n, "s"); sym_assume(u::is_base64({b.p, n}));
    std::string d = u::decode_base64({b.p, n}); size_t pad = (b[n - 1] == '=') + (b[n - 2] == '=');
    SYM_ASSERT(d.size() == n / 4 * 3 - pad); sym_observe_bytes("d", d.data(), d.size());
}

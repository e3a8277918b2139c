// independent reference: well-formed UTF-8 per Unicode Table 3-7 / RFC 3629 section 4
#pragma once
#include "sym.h"
namespace ref {
// length of the well-formed sequence at i, 0 if ill-formed; branch-light
inline size_t utf8_len(const unsigned char* s, size_t n, size_t i) {
    unsigned char a = s[i];
    if (a < 0x80) return 1;
    if (a < 0xC2 || a > 0xF4) return 0;
    size_t len = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4;
    if (n - i < len) return 0;
    unsigned char lo = 0x80, hi = 0xBF;
    if (a == 0xE0) lo = 0xA0; else if (a == 0xED) hi = 0x9F; else if (a == 0xF0) lo = 0x90; else if (a == 0xF4) hi = 0x8F;
    if (!sym_and(s[i + 1] >= lo, s[i + 1] <= hi)) return 0;
    for (size_t k = 2; k < len; k++) if (!sym_and(s[i + k] >= 0x80, s[i + k] <= 0xBF)) return 0;
    return len;
}
// structural classes of the SQL scanner (mizugaki sql_scanner.ll): [00-7f] | [c2-df]U | [e0-ef]UU | [f0-f4]UUU, U=[80-bf]
inline size_t utf8_class(const unsigned char* s, size_t n, size_t i) {
    unsigned char a = s[i];
    if (a < 0x80) return 1;
    if (a < 0xC2 || a > 0xF4) return 0;
    size_t len = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4;
    if (n - i < len) return 0;
    bool ok = true; for (size_t k = 1; k < len; k++) ok = sym_and(ok, sym_and(s[i + k] >= 0x80, s[i + k] <= 0xBF));
    return ok ? len : 0;
}
}

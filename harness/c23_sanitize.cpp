//@property C23
//@src src/jogasaki/utils/sanitize_utf8.cpp
//@entry c23_short quick=120 thorough=300 | input length 0..3, every byte symbolic
//@entry c23_ascii quick=120 thorough=900 | length 4 (thorough 5), first byte 00..7F, the rest symbolic
//@entry c23_cont quick=120 thorough=900 | length 4 (thorough 5), first byte 80..BF, the rest symbolic
//@entry c23_lead2 quick=120 thorough=900 | length 4 (thorough 5), first byte C0..DF, the rest symbolic
//@entry c23_lead3 quick=120 thorough=900 | length 4 (thorough 5), first byte E0..EF, the rest symbolic
//@entry c23_lead4 quick=120 thorough=900 | length 4 (thorough 5), first byte F0..FF, the rest symbolic
//@entry c23_two_chunks quick=60 thorough=600 | split of a 4-byte (thorough 5-byte) input at a character boundary: sanitising is compositional
#include "utf8_ref.h"
#include <jogasaki/utils/sanitize_utf8.h>
using namespace jogasaki::utils;
static void esc(std::string& o, unsigned char b) { static const char* hx = "0123456789abcdef"; o += "\\x{"; unsigned h = b >> 4, l = b & 15; o += (char)(h < 10 ? '0' + h : 'a' + h - 10); o += (char)(l < 10 ? '0' + l : 'a' + l - 10); o += '}'; (void)hx; }
static void body(size_t n, unsigned lo, unsigned hi) {
    sym_buf b(n, "s"); if (n) sym_assume(sym_and(b[0] >= lo, b[0] <= hi));
    std::string out = sanitize_utf8(std::string_view(b.p, n));
    const unsigned char* s = (const unsigned char*)b.p;
    std::string e;
    for (size_t i = 0; i < n;) {
        size_t l = ref::utf8_len(s, n, i);
        bool keep = l != 0;
        if (l == 1 && (s[i] < 0x20 || s[i] == 0x7f)) keep = false;
        if (l == 2 && s[i] == 0xC2 && s[i + 1] < 0xA0) keep = false; // C1 controls
        size_t step = l ? l : 1;
        for (size_t k = 0; k < step; k++) if (keep) e += (char)s[i + k]; else esc(e, s[i + k]);
        i += step;
    }
    sym_observe_bytes("out", out.data(), out.size());
    SYM_ASSERT(out.size() == e.size());
    if (out.size() == e.size()) for (size_t i = 0; i < e.size(); i++) sym_assert(out[i] == e[i], "sanitised text equals the reference");
}
HARNESS(c23_short) { body(sym_size("len", 0, 3), 0, 255); }
HARNESS(c23_ascii) { body(QT(4, 5), 0, 0x7f); }
HARNESS(c23_cont) { body(QT(4, 5), 0x80, 0xbf); }
HARNESS(c23_lead2) { body(QT(4, 5), 0xc0, 0xdf); }
HARNESS(c23_lead3) { body(QT(4, 5), 0xe0, 0xef); }
HARNESS(c23_lead4) { body(QT(4, 5), 0xf0, 0xff); }
HARNESS(c23_two_chunks) {
    constexpr size_t n = QT(4, 5);
    sym_buf b(n, "s"); size_t cut = sym_size("cut", 1, n - 1);
    const unsigned char* s = (const unsigned char*)b.p;
    sym_assume((s[cut] & 0xC0) != 0x80); // no sequence crosses the cut
    std::string a = sanitize_utf8({b.p, n}), x = sanitize_utf8({b.p, cut}), y = sanitize_utf8({b.p + cut, n - cut});
    SYM_ASSERT(a.size() == x.size() + y.size());
    sym_assert(sym_same(a, x + y), "sanitise(xy) == sanitise(x)+sanitise(y)");
}

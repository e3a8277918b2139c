//@property C24
//@src src/jogasaki/utils/hex_to_octet.cpp
//@entry c24_hex_to_octet quick=60 thorough=400 | text length 0..6 (thorough 0..8), every byte symbolic, prior content of the output symbolic
//@entry c24_binary_printer quick=60 thorough=300 | 0..4 (thorough 0..6) symbolic bytes, all hyphen/line-width settings up to 3 bytes per line
//@entry c24_cpp_literal quick=60 thorough=300 | 0..3 (thorough 0..4) symbolic bytes
//@entry c24_hex_print quick=30 thorough=60 | every value of 8 bytes, 4 bytes, 2 bytes; widths 0..18; stream state restored
//@entry c24_roundtrip quick=60 thorough=300 | 0..4 (thorough 0..8) symbolic bytes printed then parsed
#include "sym.h"
#include <jogasaki/utils/hex_to_octet.h>
#include <jogasaki/utils/binary_printer.h>
#include <jogasaki/utils/hex.h>
#include <sstream>
#include <iomanip>
namespace u = jogasaki::utils;
static bool isdig(uint8_t c) { return sym_or(sym_and(c >= '0', c <= '9'), sym_or(sym_and(c >= 'a', c <= 'f'), sym_and(c >= 'A', c <= 'F'))); }
static uint8_t val(uint8_t c) { uint8_t l = c | 0x20; return (uint8_t)(c <= '9' ? c - '0' : l - 'a' + 10); }
static char dig(unsigned v) { return (char)(v < 10 ? '0' + v : 'a' + v - 10); }
HARNESS(c24_hex_to_octet) {
    size_t n = sym_size("len", 0, QT(6, 8)); sym_buf b(n, "s");
    std::string out(sym_size("prior", 0, 2), 'z');
    bool r = u::hex_to_octet({b.p, n}, out);
    bool ok = n % 2 == 0; for (size_t i = 0; i < n; i++) ok = sym_and(ok, isdig(b[i]));
    sym_assert(r == ok, "accepts exactly even-length strings of hex digits");
    if (r) { SYM_ASSERT(out.size() == n / 2); for (size_t i = 0; i < n / 2; i++) sym_assert((uint8_t)out[i] == (uint8_t)(val(b[2 * i]) * 16 + val(b[2 * i + 1])), "octet value"); sym_observe_bytes("out", out.data(), out.size()); }
    sym_observe("r", r);
}
HARNESS(c24_binary_printer) {
    size_t n = sym_size("len", 0, QT(4, 6)); sym_buf b(n, "s"); bool hy = sym_choose(2, "hyphen"); size_t bpl = sym_size("bpl", 0, 3); bool viaview = bpl == 0 && sym_choose(2, "view");
    std::ostringstream os; u::binary_printer p = viaview ? u::binary_printer(std::string_view(b.p, n)) : u::binary_printer(b.p, n, bpl); p.show_hyphen(hy); os << p; std::string o = os.str(), e;
    for (size_t i = 0; i < n; i++) { if (i) { if (hy) e += '-'; if (bpl && i % bpl == 0) e += '\n'; } e += dig(b[i] >> 4); e += dig(b[i] & 15); }
    sym_observe_bytes("o", o.data(), o.size());
    SYM_ASSERT(o.size() == e.size()); sym_assert(sym_same(o, e), "two lower-case hex digits per byte, separators as configured");
    os << 255; sym_assert(os.str().substr(o.size()) == "255", "stream format restored");
}
HARNESS(c24_cpp_literal) {
    size_t n = sym_size("len", 0, QT(3, 4)); sym_buf b(n, "s"); std::ostringstream os; os << u::binary_printer(b.p, n).cpp_literal(true); std::string o = os.str(), e;
    for (size_t i = 0; i < n; i++) { uint8_t c = b[i]; if (c >= 0x20 && c < 0x7f) e += (char)c; else { e += "\\u00"; e += dig(c >> 4); e += dig(c & 15); } }
    sym_observe_bytes("o", o.data(), o.size());
    SYM_ASSERT(o.size() == e.size()); sym_assert(sym_same(o, e), "printable bytes as is, others as \\u00hh");
    os << 255; sym_assert(os.str().substr(o.size()) == "255", "stream format restored");
}
template <class T> static void hx(T v, size_t w, bool dflt) {
    std::ostringstream os; os << std::setfill('*'); if (dflt) os << u::hex(v); else os << u::hex(v, w); std::string o = os.str();
    size_t width = dflt ? sizeof(T) * 2 : w; size_t nd = 1; for (size_t i = 1; i < sizeof(T) * 2; i++) if ((v >> (4 * i)) != 0) nd = i + 1;
    size_t len = nd < width ? width : nd; SYM_ASSERT(o.size() == len);
    bool ok = true; for (size_t i = 0; i < len && i < o.size(); i++) { size_t p = len - 1 - i; unsigned d = p < sizeof(T) * 2 ? (unsigned)((v >> (4 * p)) & 15) : 0; ok = sym_and(ok, o[i] == dig(d)); }
    sym_assert(ok, "zero-padded lower-case hexadecimal");
    sym_observe_bytes("o", o.data(), o.size());
    os << std::setw(5) << 100; sym_assert(os.str().substr(o.size()) == "**100", "base and fill restored");
}
HARNESS(c24_hex_print) {
    switch (sym_choose(4, "type")) {
    case 0: hx<uint64_t>(sym_u64("v"), 0, true); break; case 1: hx<uint32_t>(sym_u32("v"), 0, true); break; case 2: hx<uint16_t>(sym_u16("v"), 0, true); break;
    default: hx<uint32_t>(sym_u32("v"), sym_size("w", 0, 18), false); }
}
HARNESS(c24_roundtrip) {
    size_t n = sym_size("len", 0, QT(4, 8)); sym_buf b(n, "s"); std::ostringstream os; os << u::binary_printer(b.p, n).show_hyphen(false); std::string back;
    SYM_ASSERT(u::hex_to_octet(os.str(), back)); SYM_ASSERT(back.size() == n); sym_assert(back.size() == n && sym_eq(back.data(), b.p, n), "hex dump parses back to the same bytes");
}

//@property C26
//@src src/jogasaki/utils/utf8_utils.cpp
//@entry c26_detect quick=60 thorough=300 | view length 0..5, every offset 0..6, every byte symbolic, exact-size buffer
//@entry c26_valid quick=60 thorough=600 | view length 0..5 (thorough 0..6), every byte symbolic
//@entry c26_consts quick=20 thorough=20 | all 256 byte values and all encoding_type values
#include "utf8_ref.h"
#include <jogasaki/utils/utf8_utils.h>
using namespace jogasaki::utils;
HARNESS(c26_detect) {
    size_t n = sym_size("len", 0, 5); sym_buf b(n, "s"); size_t off = sym_size("off", 0, n + 1);
    auto r = detect_next_encoding({b.p, n}, off); size_t l = off < n ? ref::utf8_class((const unsigned char*)b.p, n, off) : 0;
    sym_assert(get_byte(r) == l, "length of the character at offset, INVALID if there is none");
    sym_observe("r", (uint64_t)r);
}
HARNESS(c26_valid) {
    size_t n = sym_size("len", 0, QT(5, 6)); sym_buf b(n, "s"); bool r = is_valid_utf8({b.p, n}); bool e = true;
    for (size_t i = 0; i < n;) { size_t l = ref::utf8_class((const unsigned char*)b.p, n, i); if (!l) { e = false; break; } i += l; }
    sym_assert(r == e, "true exactly when the view is a sequence of scanner characters"); sym_observe("r", r);
}
HARNESS(c26_consts) {
    uint8_t c = sym_u8("c"); sym_assert(is_continuation_byte(c) == (c >= 0x80 && c <= 0xBF), "continuation byte range");
    SYM_ASSERT(get_byte(encoding_type::ASCII_1BYTE) == 1); SYM_ASSERT(get_byte(encoding_type::UTF8_2BYTE) == 2); SYM_ASSERT(get_byte(encoding_type::UTF8_3BYTE) == 3); SYM_ASSERT(get_byte(encoding_type::UTF8_4BYTE) == 4); SYM_ASSERT(get_byte(encoding_type::INVALID) == 0);
}

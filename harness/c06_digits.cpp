//@property C06
//@src src/jogasaki/utils/coder.cpp src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/decimal_field_option.cpp
//@stubs
//@entry c06_digits quick=30 thorough=30 | every number of digits 0..39 against every coefficient of that many digits (128-bit symbolic), and numbers of digits beyond the supported range
#include "sym.h"
#include <jogasaki/utils/coder.h>
#include "kvs_env.h"
using u128 = unsigned __int128;
HARNESS(c06_digits) {
    size_t d = sym_size("d", 0, 42); size_t n = 0; bool thr = false; try { n = jogasaki::utils::bytes_required_for_digits(d); } catch (std::logic_error const&) { thr = true; } SYM_ASSERT(thr == (d >= 40)); if (thr || d == 0) return; SYM_ASSERT(n >= 1 && n <= 17); if (d > 38) return;
    u128 mx = 1; for (size_t i = 0; i < d; i++) mx *= 10; u128 c = (u128)sym_u64("h") << 64 | sym_u64("l"); sym_assume(c < mx); auto fits = [](u128 c, size_t k) { return k >= 17 || (k > 0 && c < (u128)1 << (8 * k - 1)); }; sym_assert(fits(c, n), "every coefficient of that many digits fits"); SYM_ASSERT(!fits(mx - 1, n - 1)); sym_observe("n", n);
}

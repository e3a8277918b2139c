//@property C30
//@src src/jogasaki/utils/convert_offset.cpp src/jogasaki/utils/convert_offset_string.cpp
//@stubs
//@ubsan signed-integer-overflow
//@entry c30_string quick=30 thorough=60 | every accepted zone offset -23:59..+23:59, refused text, empty text (the text parser itself is a library outside this repository)
//@entry c30_time_point quick=60 thorough=200 solverms=20000 | every time point in +-2^50 seconds with any subsecond, every offset within +-1439 minutes
//@entry c30_tod_plus quick=120 thorough=300 solverms=20000 | every nanosecond of a day, every offset 0..1439 minutes
//@entry c30_tod_minus quick=120 thorough=300 solverms=20000 | every nanosecond of a day, every offset -1439..0 minutes
#include "sym.h"
#include <takatori/datetime/conversion.h>
#include <jogasaki/utils/convert_offset.h>
#include <jogasaki/utils/convert_offset_string.h>
using namespace jogasaki::utils; using namespace takatori::datetime;
static conversion_result<zone_offset_info>* PREP; static conversion_result<zone_offset_info> prep(std::string_view s) { SYM_ASSERT(s == "x"); return *PREP; }
HARNESS(c30_string) {
    zone_parser = prep; size_t k = sym_choose(3, "case"); int32_t out = 12345; if (k == 0) { SYM_ASSERT(convert_offset_string("", out)); SYM_ASSERT(out == 0); return; }
    if (k == 1) { conversion_result<zone_offset_info> r{std::string("bad")}; PREP = &r; SYM_ASSERT(!convert_offset_string("x", out)); SYM_ASSERT(out == 12345); return; }
    zone_offset_info z; z.plus = sym_choose(2, "plus") != 0; z.hour = sym_u8("h"); z.minute = sym_u8("m"); sym_assume(sym_and(z.hour < 24, z.minute < 60)); conversion_result<zone_offset_info> r{z}; PREP = &r; SYM_ASSERT(convert_offset_string("x", out)); int32_t w = (int32_t)(z.hour * 60 + z.minute); sym_assert(out == (z.plus ? w : -w), "signed minutes"); sym_observe("out", (uint64_t)out);
}
static int32_t off() { int32_t o = (int32_t)sym_i16("off"); sym_assume(sym_and(o >= -1439, o <= 1439)); return o; }
HARNESS(c30_time_point) {
    int64_t s = sym_i64("s"); sym_assume(sym_and(s > -((int64_t)1 << 50), s < (int64_t)1 << 50)); uint32_t n = sym_u32("n"); sym_assume(n < 1000000000); int32_t o = off(); time_point tp{std::chrono::seconds{s}, std::chrono::nanoseconds{n}}; auto z = add_offset(tp, o); SYM_ASSERT(z.second == o); sym_assert(z.first.seconds_since_epoch().count() == s + (int64_t)o * 60, "offset added"); sym_assert(z.first.subsecond().count() == n, "subsecond kept"); auto b = remove_offset(z); sym_assert(b == tp, "same time point back"); sym_observe("s", (uint64_t)b.seconds_since_epoch().count());
}
static void tod(bool plus) {
    uint64_t n = sym_u64("n"); sym_assume(n < time_of_day::day_ns); int32_t o; { size_t h = sym_choose(24, "hour"); uint8_t m = sym_u8("minute"); sym_assume(m < 60); o = (int32_t)(h * 60) + m; if (!plus) o = -o; } time_of_day t{std::chrono::nanoseconds{(int64_t)n}}; auto z = add_offset(t, o); SYM_ASSERT(z.second == o); int64_t w = (int64_t)n + (int64_t)o * 60000000000LL; uint64_t want = sym_ite(w < 0, (uint64_t)(w + (int64_t)time_of_day::day_ns), sym_ite(w >= (int64_t)time_of_day::day_ns, (uint64_t)(w - (int64_t)time_of_day::day_ns), (uint64_t)w)); sym_assert(z.first.time_since_epoch().count() == want, "offset added modulo a day"); auto b = remove_offset(z); sym_assert(b == t, "same time back"); sym_observe("n", b.time_since_epoch().count());
}
HARNESS(c30_tod_plus) { tod(true); }
HARNESS(c30_tod_minus) { tod(false); }

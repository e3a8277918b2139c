//@property C28
//@entry c28_round quick=120 thorough=600 | every 64-bit value
//@entry c28_hash quick=60 thorough=300 | every pair of 64-bit values for hash_combine, every value for split_mix64 against the published mixing steps
//@entry c28_xorshift32 quick=60 thorough=300 | every 32-bit state: not zero for non-zero, injective, equal to the published step
//@entry c28_xorshift64 quick=60 thorough=300 | every 64-bit state: not zero for non-zero, injective, equal to the published step
//@entry c28_subtract quick=60 thorough=600 | lists of 0..3 and 0..2 (thorough 0..3) symbolic elements of eight ordered values
//@entry c28_aligned quick=60 thorough=100 | alignments 8..256, sizes 0..300
//@entry c28_variant quick=20 thorough=20 | the alternatives of one variant type
#include "sym.h"
#include <new>
#include <stdexcept>
#include <type_traits>
#include <variant>
#include <jogasaki/utils/round.h>
#include <jogasaki/utils/random.h>
#include <jogasaki/utils/subtract_vectors.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
#include <jogasaki/utils/variant.h>
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/split_mix64.h>
namespace u = jogasaki::utils;
namespace jogasaki::utils {
[[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail"); }
void fail_no_exception_impl(std::string_view, std::string_view, std::string_view) {}
}
HARNESS(c28_round) {
    uint64_t v = sym_u64("v"); bool p2 = u::is_power_of_two(v); sym_observe("p2", p2);
    bool ref = false; for (int i = 0; i < 64; i++) ref = sym_or(ref, v == (1ull << i));
    sym_assert(p2 == ref, "power of two exactly when one bit is set");
    uint64_t d = u::round_down_to_power_of_two(v); sym_observe("d", d);
    uint64_t e = 0; for (int i = 0; i < 64; i++) e = sym_ite(v >= (1ull << i), 1ull << i, e);
    sym_assert(d == e, "largest power of two not above the argument (0 for 0)");
    if (v <= (1ull << 63)) { uint64_t up = u::round_up_to_power_of_two(v); uint64_t f = 0; for (int i = 63; i >= 0; i--) f = sym_ite(v <= (1ull << i), 1ull << i, f); sym_observe("up", up);
        sym_assert(up == sym_ite(v == 0, 0, f), "smallest power of two not below the argument (0 for 0)"); }
}
HARNESS(c28_hash) {
    uint64_t a = sym_u64("a"), b = sym_u64("b"); sym_observe("h", u::hash_combine(a, b));
    sym_assert(u::hash_combine(a, b) == (a ^ (b + 0x9e3779b9u + (a << 6) + (a >> 2))), "boost mixing step");
    uint64_t x = a + 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; x ^= x >> 31;
    sym_assert(u::split_mix64(a) == x, "split-mix step"); sym_observe("s", x);
}
HARNESS(c28_xorshift32) {
    uint32_t s = sym_u32("s"); uint32_t x = s; x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    if (s == 0) { bool th = false; try { u::xorshift_random32 r(s); } catch (std::exception&) { th = true; } SYM_ASSERT(th); th = false; u::xorshift_random32 q; try { q.seed(s); } catch (std::exception&) { th = true; } SYM_ASSERT(th); return; }
    u::xorshift_random32 r(s); uint32_t y = r(); sym_observe("y", y); sym_assert(y == x, "published xorshift32 step"); sym_assert(y != 0, "the state never becomes zero");
    u::xorshift_random32 q; q.seed(s); SYM_ASSERT(q() == y); uint32_t y2 = r(); x ^= x << 13; x ^= x >> 17; x ^= x << 5; SYM_ASSERT(y2 == x);
    uint32_t t = sym_u32("t"); if (t != 0 && t != s) { u::xorshift_random32 z(t); sym_assert(z() != y, "distinct states stay distinct"); }
}
HARNESS(c28_xorshift64) {
    uint64_t s = sym_u64("s"); uint64_t x = s; x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if (s == 0) { bool th = false; try { u::xorshift_random64 r(s); } catch (std::exception&) { th = true; } SYM_ASSERT(th); th = false; u::xorshift_random64 q; try { q.seed(s); } catch (std::exception&) { th = true; } SYM_ASSERT(th); return; }
    u::xorshift_random64 r(s); uint64_t y = r(); sym_observe("y", y); sym_assert(y == x, "published xorshift64 step"); sym_assert(y != 0, "the state never becomes zero");
    u::xorshift_random64 q; q.seed(s); SYM_ASSERT(q() == y); uint64_t y2 = r(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; SYM_ASSERT(y2 == x);
    uint64_t t = sym_u64("t"); if (t != 0 && t != s) { u::xorshift_random64 z(t); sym_assert(z() != y, "distinct states stay distinct"); }
}
HARNESS(c28_subtract) {
    size_t n = sym_size("n", 0, 3), m = sym_size("m", 0, QT(2, 3)); std::vector<uint8_t> x, y; for (size_t i = 0; i < n; i++) x.push_back((uint8_t)sym_var("x", 3)); for (size_t i = 0; i < m; i++) y.push_back((uint8_t)sym_var("y", 3));
    auto cnt = [](std::vector<uint8_t> const& v, uint8_t k) { uint64_t c = 0; for (auto e : v) if (e == k) c++; return c; };
    auto r = u::subtract_vectors(x, y); sym_observe_bytes("r", r.data(), r.size());
    for (auto e : x) { uint64_t cx = cnt(x, e), cy = cnt(y, e); sym_assert(cnt(r, e) == sym_ite(cx > cy, cx - cy, 0), "each element of the first list remains as often as it exceeds the second"); }
    for (auto e : r) sym_assert(cnt(x, e) > 0, "no foreign element");
    for (size_t i = 1; i < r.size(); i++) sym_assert(r[i - 1] <= r[i], "ascending");
}
HARNESS(c28_aligned) {
    size_t al = (size_t)8 << sym_choose(6, "al"); size_t sz = QT(sym_size("sz", 0, 40), sym_size("sz", 0, 300)); if (sym_choose(2, "big")) sz += 240;
    auto p = u::make_aligned_array<char>(al, sz); SYM_ASSERT(p.get() != nullptr); SYM_ASSERT(reinterpret_cast<uintptr_t>(p.get()) % al == 0);
    if (sz) { p.get()[0] = 1; p.get()[sz - 1] = 2; SYM_ASSERT(p.get()[sz - 1] == 2); } sym_observe("ok", 1);
}
HARNESS(c28_variant) {
    using V = std::variant<std::monostate, int, long, double, std::string>; using jogasaki::alternative_index; (void)sym_bool("x");
    SYM_ASSERT((alternative_index<std::monostate, V>() == 0 && alternative_index<int, V>() == 1 && alternative_index<long, V>() == 2 && alternative_index<double, V>() == 3 && alternative_index<std::string, V>() == 4));
    SYM_ASSERT((alternative_index<char, V>() == (std::size_t)-1));
}

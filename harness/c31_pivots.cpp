//@property C31
//@src src/jogasaki/dist/uniform_key_distribution.cpp src/jogasaki/dist/simple_key_distribution.cpp src/jogasaki/dist/key_range.cpp src/jogasaki/error/error_info.cpp
//@stubs
//@inc stubs_dist
//@entry c31_strings1 quick=60 thorough=200 | every pair of ends of 0..6 bytes each (thorough 0..7), no pivot or one
//@entry c31_strings2 quick=60 thorough=300 | every pair of ends of 0..3 bytes each (thorough 0..5), two pivots
//@entry c31_strings3 quick=60 thorough=300 | every pair of ends of 0..3 bytes each (thorough 0..5), three pivots
//@entry c31_narrow quick=60 thorough=200 | ends that differ by less than 32 in their first four distinct bytes, with an optional common first byte and tail, 1 or 3 pivots (thorough 1..6)
//@entry c31_count quick=60 thorough=60 | ends of up to 5 bytes whose first differing bytes are far enough apart, 1 or 3 pivots (thorough also 2): exactly as many as requested, evenly spread
//@entry c31_prefix quick=30 thorough=60 | every pair of strings of 0..4 bytes (thorough 0..6)
//@entry c31_range quick=60 thorough=200 | indexes of 0..2 keys (thorough 0..3) of 0..2 bytes, every range endpoint kind, range keys of 0..1 bytes (thorough 0..2), 0..1 pivots (thorough 0..2)
//@entry c31_fail quick=30 thorough=30 | scans of the first or the last key failing at every step with every status
//@entry c31_simple quick=60 thorough=60 | every range of two-byte ends or open ends, all and some of the pivots
#include "sym.h"
#include <jogasaki/dist/uniform_key_distribution.h>
#include <jogasaki/dist/simple_key_distribution.h>
#include <jogasaki/plan/plan_exception.h>
#include "fail_env.h"
#include <algorithm>
#include <random>
using namespace jogasaki; using namespace jogasaki::dist; using kvs::end_point_kind;
void std::random_device::_M_init(std::string const&) {} void std::random_device::_M_fini() {} unsigned std::random_device::_M_getval() { return 20u + (unsigned)sym_choose(2, "seed"); }
static unsigned at(std::string_view s, size_t i) { return (unsigned char)s[i]; }
// lexicographic order of byte strings, without branching on the bytes
static bool less(std::string_view a, std::string_view b) { bool r = a.size() < b.size(); for (size_t i = std::min(a.size(), b.size()); i-- > 0;) r = sym_or(at(a, i) < at(b, i), sym_and(at(a, i) == at(b, i), r)); return r; }
static void inside(std::vector<std::string> const& p, size_t max, std::string_view lo, std::string_view hi) {
    SYM_ASSERT(p.size() <= max); for (size_t i = 0; i < p.size(); i++) { sym_assert(less(lo, p[i]), "a pivot is greater than the low end"); sym_assert(less(p[i], hi), "a pivot is less than the high end"); if (i) sym_assert(less(p[i - 1], p[i]), "pivots ascend"); sym_observe_bytes("pivot", p[i].data(), p[i].size()); } sym_observe("count", p.size());
    if (!p.empty()) sym_assert(less(lo, hi), "no pivot unless the range is not empty"); }
static std::string str(char const* n, size_t lo, size_t hi) { return sym_string(sym_size(n, lo, hi), n); }
static void strings(size_t n, size_t max) { auto lo = str("lo", 0, max), hi = str("hi", 0, max); inside(generate_strings2(n, lo, hi), n, lo, hi); }
HARNESS(c31_strings1) { strings(sym_size("count", 0, 1), QT(6, 7)); }
HARNESS(c31_strings2) { strings(2, QT(3, 5)); }
HARNESS(c31_strings3) { strings(3, QT(3, 5)); }
HARNESS(c31_narrow) { size_t n = QT((size_t)sym_choose(2, "count") * 2 + 1, sym_size("count", 1, 6)); auto pre = str("prefix", 0, 1); static const unsigned char A[] = {0, 0x7f, 0xfe}; unsigned char a = A[sym_choose(3, "a")], x = sym_u8("x"), y = sym_u8("y"); sym_assume(x > 0xf0); sym_assume(y < 0x10); std::string lo = pre, hi = pre; lo += (char)a; lo += "\xff\xff"; lo += (char)x; if (sym_choose(2, "longer")) lo += (char)sym_u8("tail"); hi += (char)(a + 1); hi.resize(hi.size() + sym_size("zeros", 0, 2)); if (sym_choose(2, "full")) { hi.resize(pre.size() + 3); hi += (char)y; } inside(generate_strings2(n, lo, hi), n, lo, hi); }
HARNESS(c31_count) {
    size_t n = QT(sym_choose(2, "count") ? 3 : 1, sym_size("count", 1, 3)), c = sym_size("common", 0, QT(1, 2)); auto pre = sym_string(c, "prefix"), lo = str("lo", 1, QT(2, 3)), hi = str("hi", 1, QT(2, 3)); unsigned a = at(lo, 0), b = at(hi, 0); sym_assume(b > a); sym_assume(b - a > n + 1); lo = pre + lo; hi = pre + hi; auto p = generate_strings2(n, lo, hi); SYM_ASSERT(p.size() == n); inside(p, n, lo, hi);
    auto head = [&](std::string_view s) { return (uint32_t)at(s, c); }; uint32_t l = head(lo), h = head(hi); for (size_t i = 0; i < n; i++) { uint32_t x = head(p[i]) * (uint32_t)(n + 1), want = l * (uint32_t)(n + 1) + (h - l) * (uint32_t)(i + 1); sym_assert(x <= want + 2 * (n + 1), "evenly spread"); sym_assert(want <= x + 2 * (n + 1), "evenly spread"); } }
HARNESS(c31_prefix) { auto a = str("a", 0, QT(4, 6)), b = str("b", 0, QT(4, 6)); size_t n = common_prefix_len(a, b); SYM_ASSERT(n <= a.size() && n <= b.size()); for (size_t i = 0; i < n; i++) sym_assert(at(a, i) == at(b, i), "common"); if (n < a.size() && n < b.size()) sym_assert(at(a, n) != at(b, n), "longest"); }
HARNESS(c31_range) {
    size_t n = sym_size("count", 0, QT(1, 2)); kvs::storage s; kvs::transaction tx; request_context rc; size_t k = sym_size("keys", 0, QT(2, 3)); for (size_t i = 0; i < k; i++) s.keys.push_back(i == 1 && k == 3 ? std::string(1, (char)sym_u8("mid")) : str("key", 0, 2)); for (size_t i = 1; i < k; i++) sym_assume(less(s.keys[i - 1], s.keys[i]));
    auto bk = str("begin", 0, QT(1, 2)), ek = str("end", 0, QT(1, 2)); auto be = (end_point_kind)sym_choose(5, "begin kind"), ee = (end_point_kind)sym_choose(5, "end kind"); if (be == end_point_kind::unbound && !bk.empty()) bk = "\x01"; if (ee == end_point_kind::unbound && !ek.empty()) ek = "\x01"; key_range r{bk, be, ek, ee}; SYM_ASSERT(r.begin_key() == bk && r.end_key() == ek && r.begin_endpoint() == be && r.end_endpoint() == ee);
    uniform_key_distribution d{s, tx, &rc}; auto p = d.compute_pivots(n, r); SYM_ASSERT(rc.st == status::ok && !tx.aborted); if (!k) { SYM_ASSERT(p.empty()); return; } inside(p, n, s.keys.front(), s.keys.back()); for (auto& e : p) { if (be != end_point_kind::unbound) sym_assert(less(bk, e), "a pivot is beyond the begin of the range"); if (ee != end_point_kind::unbound) sym_assert(less(e, ek), "a pivot is before the end of the range"); }
    if (be == end_point_kind::unbound && ee == end_point_kind::unbound && k > 1 && n) { auto q = generate_strings2(n, s.keys.front(), s.keys.back()); SYM_ASSERT(q.size() == p.size()); } std::string o; SYM_ASSERT(d.lowkey(o) == status::ok); SYM_ASSERT(o.size() == s.keys.front().size()); sym_assert(sym_eq(o.data(), s.keys.front().data(), o.size()), "lowest key"); SYM_ASSERT(d.highkey(o) == status::ok); SYM_ASSERT(o.size() == s.keys.back().size()); sym_assert(sym_eq(o.data(), s.keys.back().data(), o.size()), "highest key"); }
HARNESS(c31_fail) {
    static const status ST[] = {status::not_found, status::concurrent_operation, status::err_io_error, status::err_inactive_transaction, status::err_serialization_failure, status::err_unknown}; kvs::storage s; kvs::transaction tx; request_context rc; s.keys = {"a", "z"}; s.fail = 1 + (int)sym_choose(3, "step"); s.st = ST[sym_choose(6, "status")]; s.skip = (int)sym_choose(2, "second scan"); if (s.fail != 3 && s.st == status::concurrent_operation) sym_stop(); uniform_key_distribution d{s, tx, &rc}; bool thrown = false; std::vector<std::string> p; try { p = d.compute_pivots(2, key_range{}); } catch (plan::plan_exception const&) { thrown = true; }
    bool nf = s.st == status::not_found || s.st == status::concurrent_operation; SYM_ASSERT(thrown == !nf); SYM_ASSERT(p.empty()); if (!nf) SYM_ASSERT(rc.st == s.st); if (s.fail == 3) SYM_ASSERT(tx.aborted == !nf); }
HARNESS(c31_simple) {
    simple_key_distribution d; int symb = 0; auto end = [&](char const* n, bool& open) { unsigned k = sym_choose(5, "end kind"); open = k == 0; return open ? std::string{} : std::string(1, (char)0x81) + std::string(1, k == 1 ? (symb++ ? sym_stop(), (char)0 : (char)sym_u8(n)) : k == 2 ? (char)0 : k == 3 ? (char)0x80 : (char)0xff); }; bool lopen, hopen; auto lo = end("lo", lopen), hi = end("hi", hopen); if (lo.size() && hi.size() && sym_choose(2, "both") == 0) sym_stop(); size_t max = sym_choose(2, "all") ? 256 : lopen && hopen ? sym_size("max", 0, 2) : 1; key_range r{lo, lopen ? end_point_kind::unbound : end_point_kind::inclusive, hi, hopen ? end_point_kind::unbound : end_point_kind::exclusive}; auto p = d.compute_pivots(max, r); SYM_ASSERT(p.size() <= max);
    for (size_t i = 0; i < p.size(); i++) { if (!lopen) sym_assert(!less(p[i], lo), "not below the low end"); if (!hopen) sym_assert(less(p[i], hi), "below the high end"); if (i) sym_assert(less(p[i - 1], p[i]), "pivots ascend"); } }

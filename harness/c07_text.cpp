//@property C07
//@src src/jogasaki/accessor/text.cpp
//@entry c07_keep quick=60 thorough=300 | 0..20 (thorough 0..40) symbolic bytes, every constructor, text and binary
//@entry c07_concat quick=60 thorough=300 | operands of 0..18 and 0..18 (thorough 0..24) bytes, every byte symbolic
//@entry c07_order quick=120 thorough=900 | pairs of lengths 0..4 (thorough 0..7), symbolic bytes; trichotomy and byte order
//@entry c07_order_long quick=120 thorough=600 | lengths 14..17, common symbolic prefix, last bytes symbolic
//@entry c07_total quick=120 thorough=600 | triples of lengths 0..2 (thorough 0..3): transitivity
//@entry c07_print quick=60 thorough=100 | 0..4 and 16 symbolic bytes
#include "sym.h"
#include "mem_res.h"
#include <sstream>
#include <jogasaki/accessor/text.h>
#include <jogasaki/accessor/binary.h>
using namespace jogasaki; using accessor::text; using accessor::binary;
template <class V> static void content(const V& v, const char* p, size_t n) {
    std::string_view sv(v); sym_observe("n", sv.size()); sym_assert(v.size() == n && sv.size() == n, "size kept"); if (sv.size() != n) return;
    sym_assert(sym_eq(sv.data(), p, n), "content kept"); sym_assert(v.empty() == (n == 0) && static_cast<bool>(v) == (n != 0), "empty exactly when there is no byte");
    std::string s(v); sym_assert(s.size() == n && sym_eq(s.data(), p, n), "string form kept"); sym_observe_bytes("c", s.data(), s.size());
}
template <class V> static void keep() {
    size_t n = sym_size("n", 0, QT(20, 40)); sym_buf b(n, "b"); exact_resource r; std::string copy(b.p, n);
    switch (sym_choose(6, "ctor")) {
    case 0: { V v(&r, b.p, n); std::memset(b.p, 0x5a, n); content(v, copy.data(), n); sym_assert((r.count == 0) == v.is_short(), "inline values use no resource memory"); break; }
    case 1: { V v(&r, std::string_view(b.p, n)); std::memset(b.p, 0x5a, n); content(v, copy.data(), n); break; }
    case 2: { V v(b.p, n); content(v, copy.data(), n); if (v.is_short()) { std::memset(b.p, 0x5a, n); content(v, copy.data(), n); } else SYM_ASSERT(std::string_view(v).data() == b.p); break; }
    case 3: { V v(std::string_view(b.p, n)); V w = v; content(w, copy.data(), n); break; }
    case 4: { V src(b.p, n); V v(&r, src); std::memset(b.p, 0x5a, n); content(v, copy.data(), n); break; }
    default: { V v; content(v, "", 0); V w("abc"); content(w, "abc", 3); V u("0123456789abcdefgh"); content(u, "0123456789abcdefgh", 18); } }
}
HARNESS(c07_keep) { if (sym_choose(2, "binary")) keep<binary>(); else keep<text>(); }
HARNESS(c07_concat) {
    size_t n = sym_size("n", 0, QT(18, 24)), m = sym_size("m", 0, QT(18, 24)); sym_buf a(n, "a"), b(m, "b"); std::string e(a.p, n); e.append(b.p, m); exact_resource r;
    if (sym_choose(2, "binary")) { binary v(&r, binary(a.p, n), binary(b.p, m)); std::memset(a.p, 1, n); std::memset(b.p, 2, m); content(v, e.data(), n + m); }
    else { text v(&r, text(a.p, n), text(b.p, m)); std::memset(a.p, 1, n); std::memset(b.p, 2, m); content(v, e.data(), n + m); }
}
template <class V> static void order(const char* a, size_t n, const char* b, size_t m) {
    V x(a, n), y(b, m);
    bool lt = false, eq = true; size_t k = n < m ? n : m;
    for (size_t i = 0; i < k; i++) { lt = sym_or(lt, sym_and(eq, (uint8_t)a[i] < (uint8_t)b[i])); eq = sym_and(eq, a[i] == b[i]); }
    lt = sym_or(lt, sym_and(eq, n < m)); eq = sym_and(eq, n == m);
    int c = compare(x, y);
    sym_assert((c < 0) == lt, "compare is negative exactly for the lexicographically smaller bytes"); sym_assert((c == 0) == eq, "compare is zero exactly for equal bytes"); sym_observe("c", (uint64_t)(c < 0 ? 2 : c > 0));
    sym_assert((x < y) == lt, "<"); sym_assert((x == y) == eq, "=="); sym_assert((x != y) == !eq, "!="); sym_assert((x > y) == !sym_or(lt, eq), ">"); sym_assert((x <= y) == sym_or(lt, eq), "<="); sym_assert((x >= y) == !lt, ">=");
    if (x == y) sym_assert(std::hash<V>{}(x) == std::hash<V>{}(y), "equal values hash equally");
}
HARNESS(c07_order) { size_t n = sym_size("n", 0, QT(4, 7)), m = sym_size("m", 0, QT(4, 7)); sym_buf a(n, "a"), b(m, "b"); if (sym_choose(2, "binary")) order<binary>(a.p, n, b.p, m); else order<text>(a.p, n, b.p, m); }
HARNESS(c07_order_long) {
    size_t n = sym_size("n", 14, 17), m = sym_size("m", 14, 17); sym_buf a(n, sym_buf::raw{}), b(m, sym_buf::raw{}); std::memset(a.p, 'x', n); std::memset(b.p, 'x', m);
    a.p[0] = b.p[0] = (char)sym_u8("first"); sym_bytes(a.p + 13, n - 13, "a"); sym_bytes(b.p + 13, m - 13, "b"); order<text>(a.p, n, b.p, m);
}
HARNESS(c07_total) {
    size_t n = sym_size("n", 0, QT(2, 3)), m = sym_size("m", 0, QT(2, 3)), k = sym_size("k", 0, QT(2, 3)); sym_buf a(n, "a"), b(m, "b"), c(k, "c"); text x(a.p, n), y(b.p, m), z(c.p, k);
    bool xy = x <= y, yz = y <= z, xz = x <= z; sym_assert(!sym_and(xy, yz) || xz, "transitive"); bool yx = y <= x; sym_assert(sym_or(xy, yx), "total"); sym_assert(sym_and(xy, yx) == (x == y), "antisymmetric");
}
HARNESS(c07_print) {
    size_t n = sym_choose(2, "long") ? 16 : sym_size("n", 0, 4); sym_buf b(n, "b"); std::ostringstream os; os << text(b.p, n); std::string o = os.str();
    if (n == 0) SYM_ASSERT(o == "<empty>"); else sym_assert(o.size() == n && sym_eq(o.data(), b.p, n), "printed as is");
}

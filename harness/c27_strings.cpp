//@property C27
//@src src/jogasaki/utils/convert_control_characters.cpp src/jogasaki/utils/string_manipulation.cpp src/jogasaki/utils/string_utils.cpp
//@entry c27_control quick=60 thorough=300 | 0..6 (thorough 0..8) symbolic bytes
//@entry c27_trim quick=60 thorough=300 | 0..6 (thorough 0..9) symbolic bytes, both sides
//@entry c27_prefix quick=60 thorough=300 | target 0..5, prefix 0..5 symbolic bytes (thorough 0..8)
//@entry c27_basename quick=60 thorough=300 | C strings of 0..6 (thorough 0..9) symbolic bytes
//@entry c27_schema quick=60 thorough=300 | schema names of 0..8 symbolic bytes
#include "sym.h"
#include <jogasaki/utils/convert_control_characters.h>
#include <jogasaki/utils/string_manipulation.h>
#include <jogasaki/utils/string_utils.h>
#include <jogasaki/utils/base_filename.h>
#include <jogasaki/utils/map_schema_name.h>
namespace u = jogasaki::utils;
HARNESS(c27_control) {
    size_t n = sym_size("len", 0, QT(6, 8)); sym_buf b(n, "s"); std::string o = u::convert_control_characters({b.p, n});
    size_t j = 0; // documented: bytes with the high bit set are dropped, control bytes become '!', others are kept
    for (size_t i = 0; i < n; i++) { uint8_t c = b[i]; if (c >= 0x80) continue; sym_assert(j < o.size(), "no byte lost"); if (j >= o.size()) return; sym_assert((uint8_t)o[j] == (uint8_t)sym_ite(c < 0x20, '!', c), "control bytes become '!', others are unchanged"); j++; }
    sym_assert(o.size() == j, "nothing added"); sym_observe_bytes("o", o.data(), o.size());
}
HARNESS(c27_trim) {
    size_t n = sym_size("len", 0, QT(6, 9)); sym_buf b(n, "s"); std::string_view in(b.p, n); bool right = sym_choose(2, "right");
    auto o = right ? u::rtrim(in) : u::ltrim(in); sym_observe("n", o.size());
    sym_assert(o.size() <= n, "never longer"); if (o.size() > n) return; size_t cut = n - o.size();
    sym_assert(o.empty() || o.data() == (right ? b.p : b.p + cut), "result is the remaining part of the argument");
    for (size_t i = 0; i < cut; i++) sym_assert(b[right ? n - 1 - i : i] == ' ', "only blanks removed");
    if (!o.empty()) sym_assert((right ? o.back() : o.front()) != ' ', "all blanks at that end removed");
}
HARNESS(c27_prefix) {
    size_t n = sym_size("n", 0, QT(5, 8)), m = sym_size("m", 0, QT(5, 8)); sym_buf a(n, "a"), p(m, "p"); bool r = u::is_prefix({a.p, n}, {p.p, m});
    bool e = m <= n; if (e) for (size_t i = 0; i < m; i++) e = sym_and(e, a[i] == p[i]);
    sym_assert(r == e, "true exactly when the target starts with the prefix"); sym_observe("r", r);
}
HARNESS(c27_basename) {
    size_t n = sym_size("len", 0, QT(6, 9)); sym_buf b(n + 1, "s"); b.p[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(b[i] != 0);
    size_t r = u::basename_start(b.p); sym_observe("r", r); sym_assert(r <= n, "inside the path"); if (r > n) return;
    if (r) sym_assert(b[r - 1] == '/', "starts just after a separator"); for (size_t i = r; i < n; i++) sym_assert(b[i] != '/', "no separator left in the base name");
}
HARNESS(c27_schema) {
    size_t n = sym_size("len", 0, 8); sym_buf b(n, "s"); auto o = u::map_schema_name_to_storage_namespace({b.p, n});
    bool pub = n == 6 && sym_eq(b.p, "public", 6); sym_observe("n", o.size());
    if (pub) sym_assert(o.empty(), "public maps to the default namespace"); else sym_assert(o.size() == n && (n == 0 || o.data() == b.p), "other names are kept");
}

//@property C14
//@flags -include exact_align.h
//@src src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/binary_string_value.cpp
//@entry c14_history quick=120 thorough=600 | histories of 3 (thorough 4) operations from {resize, assign view, assign buffer, shrink, write, move-construct, move-assign} with sizes 0..5 and alignment 1..32, every content byte symbolic
//@entry c14_from_view quick=60 thorough=200 | 0..20 symbolic bytes
//@entry c14_grow quick=60 thorough=200 | every pair of sizes 0..12 (thorough 0..24), alignments 1..64, symbolic content
//@entry c14_binary_string quick=30 thorough=100 | 0..20 symbolic bytes
#include "sym.h"
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/binary_string_value.h>
using jogasaki::data::aligned_buffer;
static void inv(aligned_buffer const& b, std::vector<uint8_t> const& m, size_t al) {
    sym_assert(b.size() == m.size(), "size as set"); sym_assert(b.capacity() >= b.size(), "capacity covers the size"); sym_assert(b.alignment() == al, "alignment kept");
    sym_assert(b.empty() == m.empty(), "empty exactly for size zero"); sym_assert(static_cast<bool>(b) == (b.capacity() != 0), "true exactly with capacity");
    sym_assert(reinterpret_cast<uintptr_t>(b.data()) % al == 0, "data aligned"); std::string_view sv = b; sym_assert(sv.size() == m.size() && (const void*)sv.data() == b.data(), "view shows the data");
    if (b.size() != m.size()) return; sym_assert(sym_eq(b.data(), m.data(), m.size()), "content kept"); if (b.capacity()) ((char*)b.data())[b.capacity() - 1] = ((char*)b.data())[b.capacity() - 1];
    sym_observe("cap", b.capacity()); sym_observe_bytes("d", m.data(), m.size());
}
HARNESS(c14_history) {
    size_t al = (size_t)1 << (sym_choose(3, "al") * 2 + 1); size_t cap = sym_size("cap", 0, 2) * 2; aligned_buffer b(cap, al); std::vector<uint8_t> m; size_t curcap = cap; inv(b, m, al); SYM_ASSERT(b.capacity() == cap);
    std::vector<uint8_t> store(cap, 0); // bytes of the whole capacity
    auto grow = [&](size_t n, bool keep) { if (n > curcap) { std::vector<uint8_t> s(n, 0); if (keep) for (size_t i = 0; i < m.size(); i++) s[i] = m[i]; store = s; curcap = n; } else { for (size_t i = 0; i < m.size(); i++) store[i] = m[i]; } m.assign(store.begin(), store.begin() + n); };
    for (int s = 0; s < QT(3, 4); s++) {
        switch (sym_choose(7, "op")) {
        case 0: { size_t n = sym_size("n", 0, 5); b.resize(n); grow(n, true); SYM_ASSERT(b.capacity() == curcap); break; }
        case 1: { size_t n = sym_size("n", 0, 5); sym_buf x(n, "x"); b.assign(std::string_view(x.p, n)); grow(n, false); for (size_t i = 0; i < n; i++) m[i] = x[i]; SYM_ASSERT(b.capacity() == curcap); break; }
        case 2: { size_t n = sym_size("n", 0, 3); aligned_buffer o(n + 2, 4); o.resize(n); for (size_t i = 0; i < n; i++) ((char*)o.data())[i] = (char)sym_u8("x"); std::vector<uint8_t> x((uint8_t*)o.data(), (uint8_t*)o.data() + n); b.assign(o); grow(n, false); for (size_t i = 0; i < n; i++) m[i] = x[i]; SYM_ASSERT(b.capacity() == curcap); inv(o, x, 4); break; }
        case 3: b.shrink_to_fit(); if (m.size() != curcap) { curcap = m.size(); store.assign(m.begin(), m.end()); } SYM_ASSERT(b.capacity() == b.size()); break;
        case 4: { uint8_t v = sym_u8("w"); size_t i = m.size() / 2; if (i < m.size()) { ((uint8_t*)b.data())[i] = v; m[i] = v; } break; }
        case 5: { aligned_buffer c(std::move(b)); inv(c, m, al); b = std::move(c); break; }
        default: { aligned_buffer c(3, 2); c = std::move(b); inv(c, m, al); aligned_buffer d(std::move(c)); b = std::move(d); break; } }
        inv(b, m, al); for (size_t i = 0; i < m.size(); i++) store[i] = m[i];
        SYM_ASSERT(b == b); SYM_ASSERT(!(b != b));
    }
}
HARNESS(c14_from_view) { size_t n = sym_size("n", 0, 20); sym_buf x(n, "x"); aligned_buffer b{std::string_view(x.p, n)}; std::vector<uint8_t> m((uint8_t*)x.p, (uint8_t*)x.p + n); inv(b, m, 1); SYM_ASSERT(b.capacity() == n); aligned_buffer e; inv(e, {}, 1); e.assign(b); inv(e, m, 1); e.assign(e); inv(e, m, 1); }
HARNESS(c14_grow) {
    size_t al = (size_t)1 << sym_choose(7, "al"), n = sym_size("n", 0, QT(12, 24)), k = sym_size("k", 0, QT(12, 24)); aligned_buffer b(0, al); b.resize(n); sym_bytes(b.data(), n, "x"); std::vector<uint8_t> m((uint8_t*)b.data(), (uint8_t*)b.data() + n);
    b.resize(k); if (k > n) m.resize(k, 0); else m.resize(k); inv(b, m, al); SYM_ASSERT(b.capacity() == (k > n ? k : n)); b.shrink_to_fit(); inv(b, m, al); SYM_ASSERT(b.capacity() == k);
}
HARNESS(c14_binary_string) { using jogasaki::data::binary_string_value; size_t n = sym_size("n", 0, 20); std::string s = sym_string(n, "s"); binary_string_value v{std::string_view(s)}, w{s}; binary_string_value d; SYM_ASSERT(d.str().empty()); sym_assert(sym_same(v.str(), s), "view content kept"); sym_assert(sym_same(w.str(), s), "string content kept"); binary_string_value c = v; sym_assert(sym_same(c.str(), s), "copy keeps content"); sym_observe_bytes("s", v.str().data(), v.str().size()); }

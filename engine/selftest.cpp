// differential test of the expression builders: every simplification must agree with evalOp on random assignments
#include "expr.h"
#include <random>
#include <cstdio>
#include <cstdlib>
using namespace jsym;
static std::mt19937_64 R(1);
static u128 rnd(unsigned w) { switch (R() % 8) { case 0: return 0; case 1: return 1; case 2: return mask(w); case 3: return (u128(1) << (R() % w)) & mask(w); case 4: return (mask(w) >> (R() % w)); case 5: return R() % 256 & mask(w); default: return ((u128)R() << 64 | R()) & mask(w); } }
constexpr int NM = 6; struct P { E e; u128 v[NM]; };
int main(int argc, char** argv) {
    long rounds = argc > 1 ? atol(argv[1]) : 2000; const unsigned W[] = {1, 8, 16, 32, 64, 128, 24, 40, 33, 65, 127}; long n = 0;
    for (long r = 0; r < rounds; r++) {
        Model m[NM]; std::vector<P> p; unsigned nv = 0; 
        auto add = [&](E e, const u128* want, const char* what, u32 aux, std::vector<int> ops) { P q{e, {}}; for (int i = 0; i < NM; i++) { u128 g = eval(e, m[i], newStamp()); if (g != (want[i] & mask(e->w))) { fprintf(stderr, "MISMATCH %s aux=%u w=%u got %llx:%llx want %llx:%llx\n", what, aux, e->w, (u64)(g >> 64), (u64)g, (u64)(want[i] >> 64), (u64)want[i]); for (int o : ops) fprintf(stderr, "  op w=%u %s\n", p[o].e->w, str(p[o].e).c_str()); fprintf(stderr, "  res %s\n", str(e).c_str()); exit(1); } q.v[i] = g; } p.push_back(q); n++; };
        for (unsigned w : W) for (int k = 0; k < 2; k++) { u32 id = nv++; u128 v[NM]; for (int i = 0; i < NM; i++) { v[i] = rnd(w); m[i].set(id, v[i]); } add(mkVar(id, w), v, "var", 0, {}); u128 c = rnd(w); for (int i = 0; i < NM; i++) v[i] = c; add(mkConst(c, w), v, "const", 0, {}); }
        for (int s = 0; s < 400; s++) {
            int a = R() % p.size(); unsigned w = p[a].e->w; std::vector<int> same; for (size_t i = 0; i < p.size(); i++) if (p[i].e->w == w) same.push_back(i); int b = same[R() % same.size()]; u128 v[NM]; int op = R() % 24;
            if (p[a].e->size > 300 || p[b].e->size > 300) continue;
            if (op < 13) { K k = (K)((int)K::Add + op); if ((k == K::Shl || k == K::LShr || k == K::AShr) && R() % 4) { u128 c = R() % (w + 2) & mask(w); for (int i = 0; i < NM; i++) v[i] = c; add(mkConst(c, w), v, "const", 0, {}); b = p.size() - 1; } else if (R() % 3 == 0) { u128 c = rnd(w); for (int i = 0; i < NM; i++) v[i] = c; add(mkConst(c, w), v, "const", 0, {}); b = p.size() - 1; if (R() % 2) std::swap(a, b); } bool skip = false; for (int i = 0; i < NM; i++) { u128 vs[3] = {p[a].v[i], p[b].v[i], 0}; unsigned ws[3] = {w, w, 0}; if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && !vs[1]) skip = true; v[i] = evalOp(k, w, 0, vs, ws); } if (skip) continue; add(mkBin(k, p[a].e, p[b].e), v, "bin", (u32)k, {a, b}); }
            else if (op == 13) { unsigned lo = R() % w, ww = 1 + R() % (w - lo); if (R() % 2) { lo = lo / 8 * 8; ww = (ww + 7) / 8 * 8; if (lo + ww > w) continue; } for (int i = 0; i < NM; i++) v[i] = (p[a].v[i] >> lo) & mask(ww); add(mkExtract(p[a].e, lo, ww), v, "extract", lo, {a}); }
            else if (op == 14) { b = R() % p.size(); if (w + p[b].e->w > 128) continue; for (int i = 0; i < NM; i++) v[i] = (p[a].v[i] << p[b].e->w) | p[b].v[i]; add(mkConcat(p[a].e, p[b].e), v, "concat", 0, {a, b}); }
            else if (op == 15 || op == 16) { unsigned ww = W[R() % 11]; if (ww < w) continue; for (int i = 0; i < NM; i++) v[i] = op == 15 ? p[a].v[i] : (u128)sx(p[a].v[i], w) & mask(ww); add(op == 15 ? mkZExt(p[a].e, ww) : mkSExt(p[a].e, ww), v, "ext", op, {a}); }
            else if (op == 17) { std::vector<int> bo; for (size_t i = 0; i < p.size(); i++) if (p[i].e->w == 1) bo.push_back(i); int c = bo[R() % bo.size()]; for (int i = 0; i < NM; i++) v[i] = p[c].v[i] ? p[a].v[i] : p[b].v[i]; add(mkIte(p[c].e, p[a].e, p[b].e), v, "ite", 0, {c, a, b}); }
            else if (op == 18) { for (int i = 0; i < NM; i++) v[i] = ~p[a].v[i] & mask(w); add(mkNot(p[a].e), v, "not", 0, {a}); }
            else { if (R() % 2) { u128 c = rnd(w); for (int i = 0; i < NM; i++) v[i] = c; add(mkConst(c, w), v, "const", 0, {}); b = p.size() - 1; if (R() % 2) std::swap(a, b); } E x = p[a].e, y = p[b].e; for (int i = 0; i < NM; i++) { u128 s = p[a].v[i], t = p[b].v[i]; v[i] = op == 19 ? s == t : op == 20 ? s < t : op == 21 ? s <= t : op == 22 ? sx(s, w) < sx(t, w) : sx(s, w) <= sx(t, w); } add(op == 19 ? mkEq(x, y) : op == 20 ? mkUlt(x, y) : op == 21 ? mkUle(x, y) : op == 22 ? mkSlt(x, y) : mkSle(x, y), v, "cmp", op, {a, b}); }
        }
    }
    printf("selftest ok: %ld operations\n", n);
}

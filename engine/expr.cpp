#include "expr.h"
#include <deque>
#include <cmath>
#include <cstdio>
namespace jsym {
static std::deque<Expr> arena;
static std::vector<Expr*> table(1 << 20, nullptr);
static u64 nexpr = 0;
u64 exprCount() { return nexpr; }
static u64 stampCtr = 1;
u64 newStamp() { return ++stampCtr; }

static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
static u64 hashOf(K k, unsigned w, u32 aux, E a, E b, E c, u128 cv) {
    u64 h = (u64)k * 131 + w; h = mix(h, aux); h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
    h = mix(h, (u64)cv); h = mix(h, (u64)(cv >> 64)); return h;
}
static void rehash() {
    std::vector<Expr*> n(table.size() * 2, nullptr);
    for (auto* e : table) if (e) {
        u64 h = hashOf(e->k, e->w, e->aux, e->a[0], e->a[1], e->a[2], e->c) & (n.size() - 1);
        while (n[h]) h = (h + 1) & (n.size() - 1);
        n[h] = e;
    }
    table.swap(n);
}
static E intern(K k, unsigned w, u32 aux, E a, E b, E c, u128 cv) {
    u64 h = hashOf(k, w, aux, a, b, c, cv) & (table.size() - 1);
    while (Expr* e = table[h]) {
        if (e->k == k && e->w == w && e->aux == aux && e->a[0] == a && e->a[1] == b && e->a[2] == c && e->c == cv) return e;
        h = (h + 1) & (table.size() - 1);
    }
    arena.emplace_back();
    Expr* e = &arena.back();
    e->k = k; e->w = (u8)w; e->aux = aux; e->a[0] = a; e->a[1] = b; e->a[2] = c; e->c = cv; e->id = (u32)nexpr++;
    e->fp = k >= K::FAdd; e->sup = {0, 0, 0, 0}; u64 sz = 1;
    for (E x : {a, b, c}) if (x) { e->fp |= x->fp; sz += x->size; for (int i = 0; i < 4; i++) e->sup[i] |= x->sup[i]; }
    e->size = sz > 1000000000ULL ? 1000000000u : (u32)sz;
    if (k == K::Var) e->sup[(aux >> 6) & 3] |= 1ULL << (aux & 63);
    table[h] = e;
    if (nexpr * 2 > table.size()) rehash();
    return e;
}
E mkConst(u128 c, unsigned w) { return intern(K::Const, w, 0, nullptr, nullptr, nullptr, c & mask(w)); }
E mkVar(u32 id, unsigned w) { return intern(K::Var, w, id, nullptr, nullptr, nullptr, 0); }
E extTrue() { static E t = mkConst(1, 1); return t; }
E extFalse() { static E t = mkConst(0, 1); return t; }
static inline bool isC(E e) { return e->k == K::Const; }
static inline bool isC(E e, u128 v) { return e->k == K::Const && e->c == v; }
static inline bool allOnes(E e) { return e->k == K::Const && e->c == mask(e->w); }

static unsigned bitlen(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
static unsigned abits(E e, int d) {
    switch (e->k) {
    case K::Const: return bitlen(e->c);
    case K::ZExt: return abits(e->a[0], d);
    case K::And: if (d > 0) { unsigned x = abits(e->a[0], d - 1), y = abits(e->a[1], d - 1); return x < y ? x : y; } break;
    case K::Or: case K::Xor: if (d > 0) { unsigned x = abits(e->a[0], d - 1), y = abits(e->a[1], d - 1); return x > y ? x : y; } break;
    case K::Ite: if (d > 0) { unsigned x = abits(e->a[1], d - 1), y = abits(e->a[2], d - 1); return x > y ? x : y; } break;
    case K::LShr: if (d > 0 && isC(e->a[1])) { unsigned x = abits(e->a[0], d - 1); return e->a[1]->c >= x ? 0 : x - (unsigned)e->a[1]->c; } break;
    case K::Add: if (d > 0) { unsigned x = abits(e->a[0], d - 1), y = abits(e->a[1], d - 1); unsigned m = (x > y ? x : y) + 1; return m < e->w ? m : e->w; } break;
    case K::Shl: if (d > 0 && isC(e->a[1])) { u128 m = (u128)abits(e->a[0], d - 1) + e->a[1]->c; return m < e->w ? (unsigned)m : e->w; } break;
    case K::Mul: if (d > 0) { unsigned m = abits(e->a[0], d - 1) + abits(e->a[1], d - 1); return m < e->w ? m : e->w; } break;
    case K::UDiv: case K::URem: if (d > 0) { unsigned x = abits(e->a[0], d - 1); if (e->k == K::URem && isC(e->a[1]) && e->a[1]->c) { unsigned y = bitlen(e->a[1]->c - 1); return x < y ? x : y; } if (isC(e->a[1]) && e->a[1]->c) return x; } break;
    case K::Concat: if (d > 0) { unsigned x = abits(e->a[0], d - 1); return x ? x + e->a[1]->w : abits(e->a[1], d - 1); } break;
    case K::Extract: if (d > 0) { unsigned x = abits(e->a[0], d - 1); if (x <= e->aux) return 0; x -= e->aux; return x < e->w ? x : e->w; } break;
    default: break;
    }
    return e->w;
}
unsigned activeBits(E e) { return abits(e, 6); }

// ---- concrete semantics -------------------------------------------------
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asFl(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
template <class T> static T rnd(T x, u32 m) { switch (m) { case 0: return std::nearbyint(x); case 1: return std::floor(x); case 2: return std::ceil(x); case 3: return std::trunc(x); default: return std::round(x);} }
u128 evalOp(K k, unsigned w, u32 aux, const u128* v, const unsigned* ws) {
    u128 m = mask(w); unsigned w0 = ws[0];
    switch (k) {
    case K::Add: return (v[0] + v[1]) & m;
    case K::Sub: return (v[0] - v[1]) & m;
    case K::Mul: return (v[0] * v[1]) & m;
    case K::UDiv: return v[1] ? (v[0] / v[1]) & m : m;
    case K::URem: return v[1] ? (v[0] % v[1]) & m : v[0];
    case K::SDiv: { i128 x = sx(v[0], w), y = sx(v[1], w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128(0) - (u128)x) & m; return (u128)(x / y) & m; }
    case K::SRem: { i128 x = sx(v[0], w), y = sx(v[1], w); if (!y) return v[0]; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K::And: return v[0] & v[1];
    case K::Or: return v[0] | v[1];
    case K::Xor: return v[0] ^ v[1];
    case K::Shl: return v[1] >= w ? 0 : (v[0] << (unsigned)v[1]) & m;
    case K::LShr: return v[1] >= w ? 0 : v[0] >> (unsigned)v[1];
    case K::AShr: { i128 x = sx(v[0], w); unsigned s = v[1] >= w ? w - 1 : (unsigned)v[1]; return (u128)(x >> s) & m; }
    case K::Concat: return ((v[0] << ws[1]) | v[1]) & m;
    case K::Extract: return (v[0] >> aux) & m;
    case K::ZExt: return v[0];
    case K::SExt: return (u128)sx(v[0], w0) & m;
    case K::Ite: return v[0] ? v[1] : v[2];
    case K::Eq: return v[0] == v[1];
    case K::Ult: return v[0] < v[1];
    case K::Ule: return v[0] <= v[1];
    case K::Slt: return sx(v[0], w0) < sx(v[1], w0);
    case K::Sle: return sx(v[0], w0) <= sx(v[1], w0);
    default: break;
    }
#define FB(op) (w0 == 64 ? fromD(asD(v[0]) op asD(v[1])) : fromF(asFl(v[0]) op asFl(v[1])))
#define FC(op) (w0 == 64 ? (asD(v[0]) op asD(v[1])) : (asFl(v[0]) op asFl(v[1])))
    switch (k) {
    case K::FAdd: return FB(+);
    case K::FSub: return FB(-);
    case K::FMul: return FB(*);
    case K::FDiv: return FB(/);
    case K::FRem: return w0 == 64 ? fromD(std::fmod(asD(v[0]), asD(v[1]))) : fromF(std::fmod(asFl(v[0]), asFl(v[1])));
    case K::FSqrt: return w0 == 64 ? fromD(std::sqrt(asD(v[0]))) : fromF(std::sqrt(asFl(v[0])));
    case K::FRnd: return w0 == 64 ? fromD(rnd(asD(v[0]), aux)) : fromF(rnd(asFl(v[0]), aux));
    case K::FFma: return w0 == 64 ? fromD(std::fma(asD(v[0]), asD(v[1]), asD(v[2]))) : fromF(std::fma(asFl(v[0]), asFl(v[1]), asFl(v[2])));
    case K::FEq: return FC(==);
    case K::FLt: return FC(<);
    case K::FLe: return FC(<=);
    case K::FUno: return w0 == 64 ? (std::isnan(asD(v[0])) || std::isnan(asD(v[1]))) : (std::isnan(asFl(v[0])) || std::isnan(asFl(v[1])));
    case K::FConv: return w0 == 64 ? fromF((float)asD(v[0])) : fromD((double)asFl(v[0]));
    case K::SToF: { i128 x = sx(v[0], w0); return w == 64 ? fromD((double)x) : fromF((float)x); }
    case K::UToF: return w == 64 ? fromD((double)v[0]) : fromF((float)v[0]);
    case K::FToS: { double d = w0 == 64 ? asD(v[0]) : (double)asFl(v[0]);
        if (std::isnan(d)) return u128(1) << (w - 1); // x86-like "indefinite"
        double lim = std::ldexp(1.0, (int)w - 1); double t = std::trunc(d);
        if (t >= lim || t < -lim) return u128(1) << (w - 1);
        return (u128)(i128)t & m; }
    case K::FToU: { double d = w0 == 64 ? asD(v[0]) : (double)asFl(v[0]);
        if (std::isnan(d)) return m; double t = std::trunc(d); double lim = std::ldexp(1.0, (int)w);
        if (t >= lim || t < 0) return m; return (u128)t & m; }
    default: break;
    }
    fprintf(stderr, "evalOp: bad kind %d\n", (int)k); abort();
}
u128 eval(E e, const Model& md, u64 st) {
    if (e->k == K::Const) return e->c;
    if (e->stamp == st) return e->ev;
    u128 r;
    if (e->k == K::Var) r = md.get(e->aux) & mask(e->w);
    else if (e->k == K::Ite) r = eval(e->a[0], md, st) ? eval(e->a[1], md, st) : eval(e->a[2], md, st);
    else {
        u128 v[3] = {0, 0, 0}; unsigned ws[3] = {0, 0, 0};
        for (int i = 0; i < 3; i++) if (e->a[i]) { v[i] = eval(e->a[i], md, st); ws[i] = e->a[i]->w; }
        r = evalOp(e->k, e->w, e->aux, v, ws);
    }
    e->stamp = st; e->ev = r; return r;
}
static E fold(K k, unsigned w, u32 aux, E a, E b, E c) {
    u128 v[3] = {a ? a->c : 0, b ? b->c : 0, c ? c->c : 0}; unsigned ws[3] = {a ? a->w : 0u, b ? b->w : 0u, c ? c->w : 0u};
    return mkConst(evalOp(k, w, aux, v, ws), w);
}
// ---- builders with simplification --------------------------------------
E mkNot(E a) { return mkBin(K::Xor, a, mkConst(mask(a->w), a->w)); }
static bool isNot(E a, E& in) { if (a->k == K::Xor && allOnes(a->a[1])) { in = a->a[0]; return true; } return false; }
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K::Const: return mkConst(a->c >> lo, w);
    case K::Extract: return mkExtract(a->a[0], a->aux + lo, w);
    case K::Concat: { unsigned lw = a->a[1]->w;
        if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
        if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
        return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo)); }
    case K::ZExt: { unsigned iw = a->a[0]->w;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
        return mkZExt(mkExtract(a->a[0], lo, iw - lo), w); }
    case K::SExt: { unsigned iw = a->a[0]->w;
        if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
        if (lo < iw) return mkSExt(mkExtract(a->a[0], lo, iw - lo), w);
        return mkSExt(mkExtract(a->a[0], iw - 1, 1), w); }
    case K::And: case K::Or: case K::Xor:
        if (isC(a->a[1]) || isC(a->a[0])) return mkBin(a->k, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
        break;
    case K::Add: case K::Sub: case K::Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
        break;
    case K::Shl: if (isC(a->a[1])) { u128 s = a->a[1]->c;
        if (s >= lo + w) return mkConst(0, w);
        if (lo >= s) return mkExtract(a->a[0], lo - (unsigned)s, w); 
        unsigned z = (unsigned)s - lo; return mkConcat(mkExtract(a->a[0], 0, w - z), mkConst(0, z)); } break;
    case K::LShr: if (isC(a->a[1])) { u128 s = a->a[1]->c; 
        if (s + lo + w <= a->w) return mkExtract(a->a[0], lo + (unsigned)s, w);
        if (s + lo >= a->w) return mkConst(0, w);
        return mkZExt(mkExtract(a->a[0], lo + (unsigned)s, a->w - lo - (unsigned)s), w); } break;
    case K::AShr: if (isC(a->a[1])) { u128 s = a->a[1]->c; if (s + lo + w <= a->w) return mkExtract(a->a[0], lo + (unsigned)s, w); } break;
    case K::Ite: if (isC(a->a[1]) || isC(a->a[2]) || w <= 8) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w)); break;
    default: break;
    }
    return intern(K::Extract, w, lo, a, nullptr, nullptr, 0);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w) return mkExtract(lo->a[0], lo->aux, w);
    // extract of x on top of x itself truncated away: lo is full low part
    if (hi->k == K::Concat) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));   // right-assoc
    if (lo->k == K::Concat) { E m = nullptr; E l1 = lo->a[0];
        if (isC(hi) && isC(l1)) m = mkConst((hi->c << l1->w) | l1->c, hi->w + l1->w);
        else if (hi->k == K::Extract && l1->k == K::Extract && hi->a[0] == l1->a[0] && hi->aux == l1->aux + l1->w) m = mkExtract(l1->a[0], l1->aux, hi->w + l1->w);
        if (m) return mkConcat(m, lo->a[1]); }
    if (hi->k == K::ZExt) { E in = hi->a[0]; return mkZExt(mkConcat(in, lo), w); }
    // hi part: extract of ite etc. merged: ite(c,h1,h2)++ite(c,l1,l2)
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a[0] == lo->a[0]) return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
    return intern(K::Concat, w, 0, hi, lo, nullptr, 0);
}
E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->k == K::ZExt) return mkZExt(a->a[0], w);
    if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkConst(a->a[1]->c, w), mkConst(a->a[2]->c, w));
    return intern(K::ZExt, w, 0, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
    if (a->k == K::SExt) return mkSExt(a->a[0], w);
    if (a->k == K::ZExt) return mkZExt(a->a[0], w);
    if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
    return intern(K::SExt, w, 0, a, nullptr, nullptr, 0);
}
E mkIte(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    E in; if (isNot(c, in)) return mkIte(in, b, a);
    if (a->w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(a, 1)) return mkOr1(c, b);
        if (isC(b, 0)) return mkAnd1(c, a);
        if (isC(a, 0)) return mkAnd1(mkNot(c), b);
        if (isC(b, 1)) return mkOr1(mkNot(c), a);
    }
    if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
    if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    if (b->k == K::Ite && b->a[1] == a) return mkIte(mkOr1(c, b->a[0]), a, b->a[2]);
    if (b->k == K::Ite && b->a[2] == a) return mkIte(mkAnd1(mkNot(c), b->a[0]), b->a[1], a);
    return intern(K::Ite, a->w, 0, c, a, b, 0);
}
E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }
E mkEq(E a, E b) {
    if (a == b) return extTrue();
    if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (a->w == 1) return b->c ? a : mkNot(a);
        switch (a->k) {
        case K::ZExt: { E in = a->a[0]; if (b->c >> in->w) return extFalse(); return mkEq(in, mkConst(b->c, in->w)); }
        case K::SExt: { E in = a->a[0]; u128 lowc = b->c & mask(in->w); if (((u128)sx(lowc, in->w) & mask(a->w)) != b->c) return extFalse(); return mkEq(in, mkConst(lowc, in->w)); }
        case K::Concat: return mkAnd1(mkEq(a->a[0], mkConst(b->c >> a->a[1]->w, a->a[0]->w)), mkEq(a->a[1], mkConst(b->c, a->a[1]->w)));
        case K::Ite: if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b)); break;
        case K::Add: if (isC(a->a[1])) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c, a->w)); break;
        case K::Sub: if (isC(a->a[0])) return mkEq(a->a[1], mkConst(a->a[0]->c - b->c, a->w)); if (isC(b, 0)) return mkEq(a->a[0], a->a[1]); break;
        case K::Xor: if (isC(a->a[1])) return mkEq(a->a[0], mkConst(a->a[1]->c ^ b->c, a->w)); if (isC(b, 0)) return mkEq(a->a[0], a->a[1]); break;
        default: break;
        }
        if (activeBits(a) < a->w && (b->c >> activeBits(a))) return extFalse();
    } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->k == K::Concat && b->k == K::Concat && a->a[1]->w == b->a[1]->w) return mkAnd1(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
        if (a->w == 1) return mkNot(mkBin(K::Xor, a, b));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(K::Eq, 1, 0, a, b, nullptr, 0);
}
E mkUlt(E a, E b) {
    if (a == b) return extFalse();
    if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
    if (isC(b, 0) || allOnes(a)) return extFalse();
    if (isC(b, 1)) return mkEq(a, mkConst(0, a->w));
    if (isC(a, 0)) return mkNot(mkEq(b, a));
    if (a->w == 1) return mkAnd1(mkNot(a), b);
    if (isC(b) && activeBits(a) < 128 && (b->c >> activeBits(a))) return extTrue();
    if (isC(a) && activeBits(b) < 128 && a->c >= mask(activeBits(b))) return extFalse();
    if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkUlt(a->a[0], b->a[0]);
    if (a->k == K::ZExt && isC(b)) { E in = a->a[0]; return mkUlt(in, mkConst(b->c, in->w)); }
    if (b->k == K::ZExt && isC(a)) { E in = b->a[0]; return mkUlt(mkConst(a->c, in->w), in); }
    if (a->k == K::Ite && isC(b) && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
    if (b->k == K::Ite && isC(a) && (isC(b->a[1]) || isC(b->a[2]))) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
    return intern(K::Ult, 1, 0, a, b, nullptr, 0);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSlt(E a, E b) {
    if (a == b) return extFalse();
    if (isC(a) && isC(b)) return mkConst(sx(a->c, a->w) < sx(b->c, b->w), 1);
    if (a->w == 1) return mkAnd1(a, mkNot(b));
    if (isC(b, 0)) { // sign bit
        if (activeBits(a) < a->w) return extFalse();
        if (a->k == K::SExt) return mkSlt(a->a[0], mkConst(0, a->a[0]->w));
        if (a->k == K::Ite && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
        return mkExtract(a, a->w - 1, 1);
    }
    if (activeBits(a) < a->w && activeBits(b) < b->w) return mkUlt(a, b);
    if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
    if (a->k == K::SExt && isC(b)) { E in = a->a[0]; i128 v = sx(b->c, b->w), lo = -((i128)1 << (in->w - 1)), hi = ((i128)1 << (in->w - 1)) - 1; if (v > hi) return extTrue(); if (v <= lo) return extFalse(); return mkSlt(in, mkConst((u128)v, in->w)); }
    if (b->k == K::SExt && isC(a)) { E in = b->a[0]; i128 v = sx(a->c, a->w), lo = -((i128)1 << (in->w - 1)), hi = ((i128)1 << (in->w - 1)) - 1; if (v >= hi) return extFalse(); if (v < lo) return extTrue(); return mkSlt(mkConst((u128)v, in->w), in); }
    if (a->k == K::Ite && isC(b) && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
    if (b->k == K::Ite && isC(a) && (isC(b->a[1]) || isC(b->a[2]))) return mkIte(b->a[0], mkSlt(a, b->a[1]), mkSlt(a, b->a[2]));
    if (isC(b) && activeBits(a) < a->w && sx(b->c, b->w) < 0) return extFalse();
    if (isC(a) && activeBits(b) < b->w && sx(a->c, a->w) < 0) return extTrue();
    return intern(K::Slt, 1, 0, a, b, nullptr, 0);
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static bool pow2(u128 v, unsigned& s) { if (!v || (v & (v - 1))) return false; s = bitlen(v) - 1; return true; }
E mkBin(K k, E a, E b) {
    unsigned w = a->w; unsigned s;
    switch (k) { case K::Eq: return mkEq(a, b); case K::Ult: return mkUlt(a, b); case K::Ule: return mkUle(a, b); case K::Slt: return mkSlt(a, b); case K::Sle: return mkSle(a, b); default: break; }
    if (isC(a) && isC(b)) return fold(k, w, 0, a, b, nullptr);
    switch (k) {
    case K::Add: case K::Mul: case K::And: case K::Or: case K::Xor:
        if (isC(a)) std::swap(a, b);
        else if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    default: break;
    }
    switch (k) {
    case K::Add:
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K::Add && isC(a->a[1])) return mkBin(K::Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
        if (isC(b) && a->k == K::Sub && isC(a->a[0])) return mkBin(K::Sub, mkConst(a->a[0]->c + b->c, w), a->a[1]);
        if (w == 1) return mkBin(K::Xor, a, b);
        if (isC(b) && a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(K::Add, a->a[1], b), mkBin(K::Add, a->a[2], b));
        if (a->k == K::Sub && a->a[1] == b) return a->a[0];
        if (b->k == K::Sub && b->a[1] == a) return b->a[0];
        break;
    case K::Sub:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K::Add, a, mkConst(u128(0) - b->c, w));
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a->k == K::Add && a->a[0] == b) return a->a[1];
        if (a->k == K::Add && a->a[1] == b) return a->a[0];
        if (isC(a) && b->k == K::Ite && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mkBin(K::Sub, a, b->a[1]), mkBin(K::Sub, a, b->a[2]));
        break;
    case K::Mul:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && pow2(b->c, s)) return mkBin(K::Shl, a, mkConst(s, w));
        break;
    case K::UDiv: if (isC(b, 1)) return a; if (isC(b) && pow2(b->c, s)) return mkBin(K::LShr, a, mkConst(s, w)); break;
    case K::URem: if (isC(b, 1)) return mkConst(0, w); if (isC(b) && pow2(b->c, s)) return mkBin(K::And, a, mkConst(b->c - 1, w));
        break;
    case K::SDiv: if (isC(b, 1)) return a; break;
    case K::And:
        if (isC(b, 0)) return b;
        if (allOnes(b) || a == b) return a;
        { E in; if (isNot(a, in) && in == b) return mkConst(0, w); if (isNot(b, in) && in == a) return mkConst(0, w); }
        if (isC(b) && a->k == K::And && isC(a->a[1])) return mkBin(K::And, a->a[0], mkConst(a->a[1]->c & b->c, w));
        if (isC(b) && w > 1) {
            // low mask / high-mask -> extract forms
            unsigned n = bitlen(b->c);
            if (b->c == mask(n) ) { if (activeBits(a) <= n) return a; return mkZExt(mkExtract(a, 0, n), w); }
            if (a->k == K::ZExt && n <= a->a[0]->w) return mkZExt(mkBin(K::And, a->a[0], mkConst(b->c, a->a[0]->w)), w);
            if (a->k == K::ZExt) return mkBin(K::And, a, mkConst(b->c & mask(a->a[0]->w), w));
            if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(K::And, a->a[1], b), mkBin(K::And, a->a[2], b));
        }
        if (w == 1) { // absorb
            if (b->k == K::And && (b->a[0] == a || b->a[1] == a)) return b;
            if (a->k == K::And && (a->a[0] == b || a->a[1] == b)) return a;
            if (b->k == K::Or && (b->a[0] == a || b->a[1] == a)) return a;
            if (a->k == K::Or && (a->a[0] == b || a->a[1] == b)) return b;
        }
        break;
    case K::Or:
        if (isC(b, 0) || a == b) return a;
        if (allOnes(b)) return b;
        { E in; if (isNot(a, in) && in == b) return mkConst(mask(w), w); if (isNot(b, in) && in == a) return mkConst(mask(w), w); }
        if (w == 1) {
            if (b->k == K::Or && (b->a[0] == a || b->a[1] == a)) return b;
            if (a->k == K::Or && (a->a[0] == b || a->a[1] == b)) return a;
            if (b->k == K::And && (b->a[0] == a || b->a[1] == a)) return a;
            if (a->k == K::And && (a->a[0] == b || a->a[1] == b)) return b;
        }
        // disjoint or: (x << s) | zext(y) -> concat
        for (int sw = 0; sw < 2; sw++) {
            E h = sw ? b : a, l = sw ? a : b;
            if (h->k == K::Shl && isC(h->a[1])) { unsigned sh = (unsigned)h->a[1]->c; if (sh < w && activeBits(l) <= sh) return mkConcat(mkExtract(h->a[0], 0, w - sh), mkExtract(l, 0, sh)); }
            if (h->k == K::Concat && isC(h->a[1], 0) && activeBits(l) <= h->a[1]->w) return mkConcat(h->a[0], mkExtract(l, 0, h->a[1]->w));
            if (h->k == K::ZExt && h->a[0]->k == K::Concat && isC(h->a[0]->a[1], 0) && activeBits(l) <= h->a[0]->a[1]->w) { E cc = h->a[0]; return mkZExt(mkConcat(cc->a[0], mkExtract(l, 0, cc->a[1]->w)), w); }
            // chain: concat whose tail is zero
            if (h->k == K::Concat && h->a[1]->k == K::Concat) { E t = h; unsigned tw = 0; while (t->k == K::Concat) { t = t->a[1]; } tw = t->w; if (isC(t, 0) && activeBits(l) <= tw) return mkConcat(mkExtract(h, tw, w - tw), mkExtract(l, 0, tw)); }
        }
        break;
    case K::Xor:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(0, w);
        if (isC(b) && a->k == K::Xor && isC(a->a[1])) return mkBin(K::Xor, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
        if (w == 1 && isC(b, 1)) { // not
            if (a->k == K::Ult) break;
        }
        if (isC(b) && a->k == K::Concat) return mkConcat(mkBin(K::Xor, a->a[0], mkConst(b->c >> a->a[1]->w, a->a[0]->w)), mkBin(K::Xor, a->a[1], mkConst(b->c, a->a[1]->w)));
        if (isC(b) && a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(K::Xor, a->a[1], b), mkBin(K::Xor, a->a[2], b));
        break;
    case K::Shl:
        if (isC(b, 0)) return a;
        if (isC(a, 0)) return a;
        if (isC(b)) { if (b->c >= w) return mkConst(0, w); unsigned sh = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - sh), mkConst(0, sh)); }
        break;
    case K::LShr:
        if (isC(b, 0)) return a;
        if (isC(a, 0)) return a;
        if (isC(b)) { if (b->c >= w) return mkConst(0, w); unsigned sh = (unsigned)b->c; return mkZExt(mkExtract(a, sh, w - sh), w); }
        break;
    case K::AShr:
        if (isC(b, 0)) return a;
        if (isC(b)) { unsigned sh = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, sh, w - sh), w); }
        break;
    default: break;
    }
    return intern(k, w, 0, a, b, nullptr, 0);
}
E mkF(K k, E a, E b, E c3, unsigned w, u32 aux) {
    if (isC(a) && (!b || isC(b)) && (!c3 || isC(c3))) return fold(k, w, aux, a, b, c3);
    if (k == K::FConv && a->k == K::FConv && w == 32 && a->a[0]->w == 32) return a->a[0]; // float->double->float (NaN payloads aside)
    return intern(k, w, aux, a, b, c3, 0);
}
static const char* kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","=","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","ftos","ftou","stof","utof","fconv","feq","flt","fle","funo","ffma"};
std::string str(E e, int d) {
    char buf[64];
    if (e->k == K::Const) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
    if (e->k == K::Var) { snprintf(buf, sizeof buf, "v%u:%u", e->aux, e->w); return buf; }
    if (d == 0) return "..";
    std::string s = "("; s += kn[(int)e->k];
    if (e->k == K::Extract) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->w); s += buf; }
    if (e->k == K::ZExt || e->k == K::SExt) { snprintf(buf, sizeof buf, "%u", e->w); s += buf; }
    for (int i = 0; i < 3; i++) if (e->a[i]) { s += " "; s += str(e->a[i], d - 1); }
    return s + ")";
}
}

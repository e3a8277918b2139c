// jsym: symbolic executor
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <sstream>
#include <fstream>
using llvm::Instruction;
namespace jsym {
Exec::Exec(Options o) : opt(o), solver(o.solverMs) { solver.crosscheckDir = o.xdir; solver.crosscheckEvery = o.xevery; regBuiltins(); }
// ---------------------------------------------------------------- values
Value Exec::bin(K k, const Value& a, const Value& b, unsigned w) {
    if (!a.e && !b.e) { Value r; u128 v[2] = {a.c, b.c}; unsigned ws[2] = {w, w};
        switch (k) { case K::Add: r.c = (a.c + b.c) & mask(w); break; case K::Sub: r.c = (a.c - b.c) & mask(w); break; case K::And: r.c = a.c & b.c; break; case K::Or: r.c = a.c | b.c; break; case K::Xor: r.c = a.c ^ b.c; break;
        default: r.c = evalOp(k, w, 0, v, ws); }
        return r; }
    if (k >= K::FAdd) return fromE(mkF(k, toE(a, w), toE(b, w), nullptr, w));
    return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
Value Exec::icmp(unsigned p, const Value& a, const Value& b, unsigned w) {
    using P = llvm::CmpInst; Value r;
    if (!a.e && !b.e) {
        switch (p) { case P::ICMP_EQ: r.c = a.c == b.c; break; case P::ICMP_NE: r.c = a.c != b.c; break; case P::ICMP_UGT: r.c = a.c > b.c; break; case P::ICMP_UGE: r.c = a.c >= b.c; break; case P::ICMP_ULT: r.c = a.c < b.c; break; case P::ICMP_ULE: r.c = a.c <= b.c; break;
        case P::ICMP_SGT: r.c = sx(a.c, w) > sx(b.c, w); break; case P::ICMP_SGE: r.c = sx(a.c, w) >= sx(b.c, w); break; case P::ICMP_SLT: r.c = sx(a.c, w) < sx(b.c, w); break; case P::ICMP_SLE: r.c = sx(a.c, w) <= sx(b.c, w); break; }
        return r; }
    E x = toE(a, w), y = toE(b, w);
    switch (p) { case P::ICMP_EQ: return fromE(mkEq(x, y)); case P::ICMP_NE: return fromE(mkNot(mkEq(x, y))); case P::ICMP_UGT: return fromE(mkUlt(y, x)); case P::ICMP_UGE: return fromE(mkUle(y, x)); case P::ICMP_ULT: return fromE(mkUlt(x, y)); case P::ICMP_ULE: return fromE(mkUle(x, y));
    case P::ICMP_SGT: return fromE(mkSlt(y, x)); case P::ICMP_SGE: return fromE(mkSle(y, x)); case P::ICMP_SLT: return fromE(mkSlt(x, y)); default: return fromE(mkSle(x, y)); }
}
Value Exec::fcmp(unsigned p, const Value& a, const Value& b, unsigned w) {
    using P = llvm::CmpInst; E x = toE(a, w), y = toE(b, w);
    auto F = [&](K k, E m, E n) { return mkF(k, m, n, nullptr, 1); };
    E un = F(K::FUno, x, y); E r;
    switch (p) {
    case P::FCMP_FALSE: r = extFalse(); break; case P::FCMP_TRUE: r = extTrue(); break;
    case P::FCMP_OEQ: r = F(K::FEq, x, y); break; case P::FCMP_OGT: r = F(K::FLt, y, x); break; case P::FCMP_OGE: r = F(K::FLe, y, x); break; case P::FCMP_OLT: r = F(K::FLt, x, y); break; case P::FCMP_OLE: r = F(K::FLe, x, y); break;
    case P::FCMP_ONE: r = mkAnd1(mkNot(un), mkNot(F(K::FEq, x, y))); break; case P::FCMP_ORD: r = mkNot(un); break; case P::FCMP_UNO: r = un; break;
    case P::FCMP_UEQ: r = mkOr1(un, F(K::FEq, x, y)); break; case P::FCMP_UGT: r = mkNot(F(K::FLe, x, y)); break; case P::FCMP_UGE: r = mkNot(F(K::FLt, x, y)); break; case P::FCMP_ULT: r = mkNot(F(K::FLe, y, x)); break; case P::FCMP_ULE: r = mkNot(F(K::FLt, y, x)); break;
    default: r = mkNot(F(K::FEq, x, y)); break; // UNE
    }
    return fromE(r);
}
Value Exec::ite(const Value& c, const Value& a, const Value& b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    return fromE(mkIte(c.e, toE(a, w), toE(b, w)));
}
// ---------------------------------------------------------------- solver helpers
bool Exec::mayBe(State* s, E e, Model* out) {
    if (e->k == K::Const) { if (e->c && out) *out = s->m; return e->c; }
    Model m = s->m; Sat r = solver.check(s->pc, e, m);
    if (r == Sat::Unknown) { nIncomplete++; s->unknown = true; return false; }
    if (r == Sat::Yes && out) *out = std::move(m);
    return r == Sat::Yes;
}
// returns the truth value the current state continues with
bool Exec::branch(Value c) {
    if (!c.e) return c.c;
    E e = c.e, ne = mkNot(e);
    if (S->known(e)) return true;
    if (S->known(ne)) return false;
    bool cur = eval(e, S->m, newStamp());
    Model m2;
    if (mayBe(S, cur ? ne : e, &m2)) { State* n = fork(); n->m = std::move(m2); addC(n, cur ? ne : e); push(n); addC(S, cur ? e : ne); }
    // implied: no need to add the constraint
    return cur;
}
u64 Exec::concretize(const Value& v, unsigned w) {
    if (!v.e) return (u64)v.c;
    u128 x = eval(v.e, S->m, newStamp()); E eq = mkEq(v.e, mkConst(x, w));
    if (!S->known(eq)) {
        Model m2; if (mayBe(S, mkNot(eq), &m2)) { State* n = fork(); n->m = std::move(m2); addC(n, mkNot(eq)); push(n); addC(S, eq); }
    }
    return (u64)x;
}
// ---------------------------------------------------------------- errors / path ends
std::vector<std::pair<std::string, std::pair<u8, u128>>> Exec::inputsOf(const State& s, const Model& m) {
    std::vector<std::pair<std::string, std::pair<u8, u128>>> r;
    for (auto& i : s.in) r.push_back({i.name, {i.w, i.conc ? i.c : (m.get(i.var) & mask(i.w))}});
    return r;
}
static std::string locOf(const Instruction* I) { if (!I) return ""; if (auto& dl = I->getDebugLoc()) { auto* sc = dl->getScope(); std::string f = llvm::cast<llvm::DIScope>(sc)->getFilename().str(); return f + ":" + std::to_string(dl.getLine()); } return ""; }
std::vector<std::string> Exec::stack() {
    std::vector<std::string> r; if (S->th.empty()) return r;
    auto& st = S->T().st;
    for (size_t i = st.size(); i-- > 0;) { auto& f = *st[i]; const Instruction* I = f.pc < (int)f.f->code.size() ? f.f->code[f.pc].I : nullptr; std::string d = llvm::demangle(f.f->name); if (d.size() > 160) d = d.substr(0, 160) + "..."; 
        std::string inl; if (I) { if (auto dl = I->getDebugLoc()) { for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) inl += " < " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()); } }
        r.push_back(d + " @ " + locOf(I) + inl); if (r.size() > 24) break; }
    return r;
}
void Exec::record(const std::string& kind, const std::string& msg, bool inc, const Model& m, bool) {
    auto st = stack(); std::string top; for (auto& x : st) if (x.find(opt.repoPrefix) != std::string::npos || x.find("harness") != std::string::npos) { top = x; break; }
    for (auto& e : errors) if (e.kind == kind && e.msg == msg && (kind == "assert" || (!e.stack.empty() && !st.empty() && e.stack[0] == st[0]))) { e.count++; return; }
    ErrorRec r; r.kind = kind; r.msg = msg; r.stack = st; r.inputs = inputsOf(*S, m); r.sched = S->sched; r.inconclusive = inc; errors.push_back(r);
    if (opt.verbose) { fprintf(stderr, "ERROR %s: %s\n", kind.c_str(), msg.c_str()); for (auto& x : st) fprintf(stderr, "    %s\n", x.c_str()); for (auto& i : r.inputs) fprintf(stderr, "      %s=0x%llx\n", i.first.c_str(), (unsigned long long)i.second.second); }
}
void Exec::fail(const std::string& kind, const std::string& msg, bool inc, const Model* m) {
    if (inc) { nIncomplete++; unmodelled[kind + ": " + msg]++; }
    record(kind, msg, inc, m ? *m : S->m); if (!inc) nErrPaths++;
    throw PathEnd{};
}
void Exec::endPath() { throw PathEnd{}; }
static std::string hex(u128 v) { char b[64]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
void Exec::finishPath() {
    nPaths++;
    // reservoir sampling of finished paths
    static u64 rng = 88172645463325252ULL ^ (opt.seed * 0x9e3779b97f4a7c15ULL); rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    size_t slot = samples.size(); if (slot >= opt.samples) { slot = rng % nPaths; if (slot >= opt.samples) throw PathEnd{}; }
    PathRec p; p.inputs = inputsOf(*S, S->m); u64 st = newStamp(); for (auto& o : S->obs) p.obs.push_back({o.name, hex(o.v.e ? eval(o.v.e, S->m, st) : o.v.c)}); p.sched = S->sched;
    if (opt.traceSched) { fprintf(stderr, "PATH"); for (u8 x : p.sched) fprintf(stderr, " %d", x); fprintf(stderr, "\n"); for (auto& t : S->trace) fprintf(stderr, "   %s\n", t.c_str()); }
    if (slot < samples.size()) samples[slot] = p; else samples.push_back(p);
    throw PathEnd{};
}
// ---------------------------------------------------------------- memory
Object* Exec::lookup(u64 a) { if (auto* o = S->mem.find(a)) return o->p; if (auto* o = base.find(a)) return o->p; return nullptr; }
Object* Exec::wobj(u64 b) {
    if (auto* o = S->mem.find(b)) return o->own();
    auto* o = base.find(b); Object* n = new Object(**o); S->mem.insert(ObjRef(n)); return n;
}
u64 Exec::alloc(u64 n, u64 al, OK_ k, const char* tag) {
    if (n > opt.maxAlloc) fail("huge-alloc", "allocation larger than the modelled maximum", true);
    u64& nx = k == OK_::Stack ? S->stackNext : S->heapNext; if (al < 16) al = 16;
    nx = (nx + al - 1) / al * al; u64 a = nx; nx += n + (n < 4096 ? 64 : 4096);
    Object* o = new Object; o->base = a; o->size = n; o->kind = k; o->tag = tag; o->init(); S->mem.insert(ObjRef(o)); return a;
}
void Exec::dealloc(u64 a, OK_ k) {
    if (!a) return;
    auto* o = S->mem.find(a);
    if (!o || (*o)->base != a || (*o)->kind != k) fail("bad-free", "free of an address that is not a live allocation");
    S->mem.erase(a);
}
static unsigned tz(E e) { // known trailing zero bits
    switch (e->k) { case K::Const: { if (!e->c) return e->w; unsigned n = 0; while (!(e->c >> n & 1)) n++; return n; }
    case K::Concat: { unsigned l = tz(e->a[1]); return l == e->a[1]->w ? l + tz(e->a[0]) : l; }
    case K::Shl: if (e->a[1]->k == K::Const) return std::min<unsigned>(e->w, tz(e->a[0]) + (unsigned)e->a[1]->c); return 0;
    case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(tz(e->a[0]), tz(e->a[1]));
    case K::And: return std::max(tz(e->a[0]), tz(e->a[1]));
    case K::Mul: return std::min<unsigned>(e->w, tz(e->a[0]) + tz(e->a[1]));
    case K::Ite: return std::min(tz(e->a[1]), tz(e->a[2]));
    case K::ZExt: case K::SExt: { unsigned t = tz(e->a[0]); return t == e->a[0]->w ? e->w : t; }
    default: return 0; }
}
static void constLeafs(E e, std::vector<u64>& out, int d) {
    if (out.size() > 64 || d > 40) return;
    if (e->k == K::Const) { out.push_back((u64)e->c); return; }
    if (e->k == K::Ite) { constLeafs(e->a[1], out, d + 1); constLeafs(e->a[2], out, d + 1); }
    else if (e->k == K::Add || e->k == K::Sub) { constLeafs(e->a[0], out, d + 1); constLeafs(e->a[1], out, d + 1); }
}
void Exec::resolve(const Value& addr, u64 n, bool wr, u64& ob, Value& off) {
    u64 a = addr.e ? (u64)eval(addr.e, S->m, newStamp()) : (u64)addr.c;
    Object* o = lookup(a);
    bool ok = o && a - o->base + n <= o->size;
    if (!addr.e) {
        if (!ok) { char b[200]; snprintf(b, sizeof b, "invalid %s of %llu byte(s) at 0x%llx%s", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a, a < 4096 ? " (null pointer)" : o ? " (past the end of an object)" : " (no live object)"); fail(a < 4096 ? "null-deref" : "out-of-bounds", b); }
        if (wr && o->kind == OK_::Const) fail("const-write", "write to constant data");
        ob = o->base; off = Value{a - o->base, nullptr}; return;
    }
    if (!ok) { // the model's address is invalid: report, then continue with valid targets if any
        std::vector<u64> lf; constLeafs(addr.e, lf, 0); std::set<u64> seen;
        for (u64 l : lf) { Object* q = lookup(l); if (!q || q->size < n || !seen.insert(q->base).second) continue;
            E inb = mkUle(mkBin(K::Sub, addr.e, mkConst(q->base, 64)), mkConst(q->size - n, 64)); Model m2; if (mayBe(S, inb, &m2)) { State* s2 = fork(); s2->m = std::move(m2); addC(s2, inb); push(s2); } }
        char b[200]; snprintf(b, sizeof b, "invalid %s of %llu byte(s) through a symbolic address%s", wr ? "write" : "read", (unsigned long long)n, o ? " (past the end of an object)" : ""); fail("out-of-bounds", b);
    }
    E rel = mkBin(K::Sub, addr.e, mkConst(o->base, 64)); E inb = mkUle(rel, mkConst(o->size - n, 64));
    if (!S->known(inb)) { Model m2; if (mayBe(S, mkNot(inb), &m2)) { State* s2 = fork(); s2->m = std::move(m2); addC(s2, mkNot(inb)); push(s2); addC(S, inb); } }
    if (wr && o->kind == OK_::Const) fail("const-write", "write to constant data");
    ob = o->base; off = fromE(rel);
    if (off.e) { // limit the number of candidate offsets
        unsigned t = tz(off.e); u64 cand = (o->size - n) / (1ULL << std::min(t, 20u)) + 1; unsigned ab = activeBits(off.e); if (ab < 63) cand = std::min<u64>(cand, (1ULL << ab >> std::min(t, ab)) + 1);
        if (cand > (wr ? 300u : 1100u)) { u64 c = concretize(off, 64); off = Value{c, nullptr}; }
    }
}
E Exec::byteAt(u64 ob, u64 off) {
    Object* o = lookup(ob); u8 v; E e = nullptr; int k = o->getb(off, v, e);
    if (k == 0) return mkConst(v, 8);
    if (k == 1) return e;
    u32 id = mkInternalVar(S); e = mkVar(id, 8); wobj(ob)->sete(off, e); return e;
}
u32 Exec::mkInternalVar(State* s) { u32 ord = s->nUninit++; auto it = uninitByOrd.find(ord); if (it != uninitByOrd.end()) return it->second; u32 id = (u32)g_vars.size(); g_vars.push_back({"uninit", 8, 1}); uninitByOrd[ord] = id; return id; }
Value Exec::readAt(Object* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8; Value r;
    if (o->allConc(off, n)) { u128 v = 0; u8 b; E e; for (unsigned i = n; i-- > 0;) { o->getb(off + i, b, e); v = v << 8 | b; } r.c = v & mask(w); return r; }
    u64 ob = o->base; E acc = nullptr;
    for (unsigned i = 0; i < n; i++) { E b = byteAt(ob, off + i); acc = acc ? mkConcat(b, acc) : b; }
    if (acc->w > w) acc = mkExtract(acc, 0, w);
    return fromE(acc);
}
void Exec::writeAt(Object* o, u64 off, Value v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { for (unsigned i = 0; i < n; i++) o->setb(off + i, (u8)(v.c >> (8 * i))); return; }
    E e = v.e; if (n * 8 > w) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) o->sete(off + i, n == 1 ? e : mkExtract(e, 8 * i, 8));
}
static E mux(const std::vector<E>& v, size_t lo, size_t n, E idx, unsigned bit) { // v[lo..lo+n), idx bits [0,bit)
    if (n == 1 || bit == 0) return v[lo];
    size_t half = size_t(1) << (bit - 1);
    if (n <= half) return mux(v, lo, n, idx, bit - 1);
    E l = mux(v, lo, half, idx, bit - 1), h = mux(v, lo + half, n - half, idx, bit - 1);
    return mkIte(mkExtract(idx, bit - 1, 1), h, l);
}
Value Exec::loadv(const Value& addr, unsigned w) {
    u64 ob; Value off; unsigned n = (w + 7) / 8; resolve(addr, n, false, ob, off);
    if (!off.e) return readAt(lookup(ob), (u64)off.c, w);
    nLoadsSym++;
    Object* o = lookup(ob); unsigned t = tz(off.e); if (t > 12) t = 12; u64 st = 1ULL << t; std::vector<E> v; unsigned ab = activeBits(off.e);
    for (u64 p = 0; p + n <= o->size; p += st) { if (ab < 63 && p >> ab) break; v.push_back(toE(readAt(lookup(ob), p, w), w)); }
    unsigned bits = 0; while ((size_t(1) << bits) < v.size()) bits++;
    if (v.size() == 1) return fromE(v[0]);
    E idx = mkExtract(off.e, t, std::min(64 - t, std::max(bits, 1u)));
    return fromE(mux(v, 0, v.size(), idx, bits));
}
void Exec::storev(const Value& addr, Value v, unsigned w) {
    u64 ob; Value off; unsigned n = (w + 7) / 8; resolve(addr, n, true, ob, off);
    if (!off.e) { writeAt(wobj(ob), (u64)off.c, v, w); return; }
    Object* o = wobj(ob); unsigned t = tz(off.e); if (t > 12) t = 12; u64 st = 1ULL << t; unsigned ab = activeBits(off.e); E ve = mkZExt(toE(v, w), n * 8);
    for (u64 p = 0; p + n <= o->size; p += st) { if (ab < 63 && p >> ab) break; E c = mkEq(off.e, mkConst(p, 64)); for (unsigned i = 0; i < n; i++) { E old = byteAt(ob, p + i); wobj(ob)->sete(p + i, mkIte(c, mkExtract(ve, 8 * i, 8), old)); } }
}
void Exec::memcpyB(const Value& d, const Value& s, u64 n) {
    if (!n) return;
    u64 sb, db; Value so, dof; resolve(s, n, false, sb, so); resolve(d, n, true, db, dof);
    if (so.e) so = Value{concretize(so, 64), nullptr};
    if (dof.e) dof = Value{concretize(dof, 64), nullptr};
    Object* so_ = lookup(sb); Object* w = wobj(db); so_ = lookup(sb); u64 sof = (u64)so.c, df = (u64)dof.c;
    struct B { int k; u8 v; E e; }; std::vector<B> tmp(n);
    for (u64 i = 0; i < n; i++) { tmp[i].e = nullptr; tmp[i].k = so_->getb(sof + i, tmp[i].v, tmp[i].e); }
    for (u64 i = 0; i < n; i++) { if (tmp[i].k == 0) w->setb(df + i, tmp[i].v); else if (tmp[i].k == 1) w->sete(df + i, tmp[i].e); else w->setu(df + i); }
}
void Exec::memsetB(const Value& d, const Value& v, u64 n) {
    if (!n) return; u64 db; Value dof; resolve(d, n, true, db, dof); if (dof.e) dof = Value{concretize(dof, 64), nullptr};
    Object* w = wobj(db); E e = v.e ? mkExtract(v.e, 0, 8) : nullptr;
    for (u64 i = 0; i < n; i++) if (e) w->sete((u64)dof.c + i, e); else w->setb((u64)dof.c + i, (u8)v.c);
}
Value Exec::memcmpB(const Value& a, const Value& b, u64 n, bool eqOnly) {
    Value r; if (!n) return r;
    u64 ab, bb; Value ao, bo; resolve(a, n, false, ab, ao); resolve(b, n, false, bb, bo);
    if (ao.e) ao = Value{concretize(ao, 64), nullptr};
    if (bo.e) bo = Value{concretize(bo, 64), nullptr};
    if (eqOnly) { E c = extTrue(); for (u64 i = n; i-- > 0;) c = mkAnd1(mkEq(byteAt(ab, (u64)ao.c + i), byteAt(bb, (u64)bo.c + i)), c); return fromE(mkZExt(mkNot(c), 32)); }
    E acc = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) { E x = byteAt(ab, (u64)ao.c + i), y = byteAt(bb, (u64)bo.c + i); if (x == y) continue; acc = mkIte(mkEq(x, y), acc, mkIte(mkUlt(x, y), mkConst(~u128(0), 32), mkConst(1, 32))); }
    return fromE(acc);
}
u64 Exec::rdConst64(u64 a) { Object* o = lookup(a); if (!o || a - o->base + 8 > o->size) return 0; Value v = readAt(o, a - o->base, 64); return v.e ? (u64)eval(v.e, S->m, newStamp()) : (u64)v.c; }
std::string Exec::rdStr(u64 a, size_t mx) { std::string r; Object* o = lookup(a); if (!o) return r; for (u64 i = a - o->base; i < o->size && r.size() < mx; i++) { u8 v; E e = nullptr; int k = o->getb(i, v, e); if (k == 1) v = (u8)eval(e, S->m, newStamp()); if (!v) break; r += (char)v; } return r; }
// ---------------------------------------------------------------- control flow
void Exec::jump(int t) {
    Frame& f = S->wfr(); BlockI& b = f.f->blocks[t]; f.f->cov[t] = 1;
    if (!b.phis.empty()) { auto it = b.phis.find(f.blk); if (it != b.phis.end()) { if (it->second.size() == 1) { auto& c = it->second[0]; f.r[c.dst] = c.src.reg >= 0 ? f.r[c.src.reg] : c.src.c; } else { std::vector<Value> tmp; tmp.reserve(it->second.size()); for (auto& c : it->second) tmp.push_back(c.src.reg >= 0 ? f.r[c.src.reg] : c.src.c); size_t i = 0; for (auto& c : it->second) f.r[c.dst] = tmp[i++]; } } }
    f.blk = t; f.pc = b.first;
}
void Exec::advance() { S->wfr().pc++; }
void Exec::setRet(Inst& in, const Value& v) { if (in.dst >= 0 && in.dstN >= 1) S->wfr().r[in.dst] = v; }
void Exec::afterCall(Inst& in) { if (in.op == Instruction::Invoke) jump(in.tgt[0]); else S->wfr().pc++; }
void Exec::call(FuncI* f, std::vector<Value>& args, Inst*, std::vector<Value>* va) {
    if (!f->compiled) compile(f);
    if (S->T().st.size() > 400) fail("stack-overflow", "call depth exceeds 400", true);
    f->calls++;
    Ref<Frame> nf(new Frame(f)); nf->r.resize(f->nregs); size_t k = 0;
    for (size_t i = 0; i < f->argSlots.size(); i++) for (int j = 0; j < f->argN[i]; j++) { if (k < args.size()) nf->r[f->argSlots[i] + j] = args[k]; k++; }
    if (va && k < args.size()) nf->va.assign(args.begin() + k, args.end());
    // byval arguments
    unsigned ai = 0; for (auto& a : f->F->args()) { if (a.hasByValAttr()) { u64 sz = sizeOf(a.getParamByValType()); u64 p = alloc(sz, 16, OK_::Stack, "byval"); memcpyB(Value{p, nullptr}, nf->r[f->argSlots[ai]], sz); nf->r[f->argSlots[ai]] = Value{p, nullptr}; nf->allocas.push_back(p); } ai++; }
    nf->blk = 0; nf->pc = f->blocks[0].first; f->cov[0] = 1;
    S->T().st.push_back(std::move(nf));
}
void Exec::ret(std::vector<Value>& rv) {
    auto& st = S->T().st; for (u64 a : st.back()->allocas) S->mem.erase(a);
    bool d = st.back()->isDtorCall; (void)d; st.pop_back();
    if (st.empty()) { S->T().ts = TS::Done; if (S->cur == 0) finishPath(); S->grant = false; schedule(false); return; }
    const Frame& f = *st.back(); Inst& in = f.f->code[f.pc];
    if (in.dst >= 0 && !rv.empty()) { Frame& wf = S->wfr(); for (int i = 0; i < in.dstN && i < (int)rv.size(); i++) wf.r[in.dst + i] = rv[i]; }
    afterCall(in);
}
// ---------------------------------------------------------------- exceptions
int Exec::typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int id = (int)typeIds.size() + 1; typeIds[ti] = id; return id; }
bool Exec::tiMatch(u64 th, u64 ca, i64& off, bool) {
    if (th == ca) return true;
    auto nm = [&](u64 t) { return rdStr(rdConst64(t + 8)); };
    std::string n1 = nm(th), n2 = nm(ca); if (!n1.empty() && n1 == n2) return true;
    u64 vp = rdConst64(th); Object* vo = lookup(vp); std::string vn; if (vo) { auto it = gname.find(vo->base); if (it != gname.end()) vn = it->second; }
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(rdConst64(th + 16), ca, off, false);
    if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        u64 cnt = rdConst64(th + 16) >> 32;
        for (u64 i = 0; i < cnt; i++) { u64 b = rdConst64(th + 24 + 16 * i), fl = rdConst64(th + 32 + 16 * i); i64 o2 = 0; if (!(fl & 2)) continue; if (tiMatch(b, ca, o2, false)) { off += ((fl & 1) ? 0 : (i64)fl >> 8) + o2; return true; } }
    }
    return false;
}
void Exec::throwObj(u64 exc) { S->T().curExc = exc; unwind(); }
void Exec::unwind() {
    auto& T = S->T(); u64 exc = T.curExc;
    while (!T.st.empty()) {
        const Frame& f = *T.st.back(); Inst& in = f.f->code[f.pc];
        if (in.op == Instruction::Invoke) {
            auto* lp = llvm::cast<llvm::InvokeInst>(in.I)->getLandingPadInst(); bool handles = lp->isCleanup();
            for (unsigned i = 0; !handles && i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { Value c = constVal(lp->getClause(i)); i64 off = 0; if (!c.c || tiMatch(S->exc[exc].ti, (u64)c.c, off, false)) handles = true; } else handles = true; }
            if (handles) { jump(in.tgt[1]); return; }
        }
        for (u64 a : T.st.back()->allocas) S->mem.erase(a);
        T.st.pop_back();
    }
    std::string tn = rdStr(rdConst64(S->exc[exc].ti + 8)); 
    record("uncaught-exception", "uncaught exception of type " + llvm::demangle("_ZTS" + tn), false, S->m); nErrPaths++; throw PathEnd{};
}
// ---------------------------------------------------------------- threads
std::vector<int> Exec::enabled() {
    std::vector<int> r; bool othersDone = true; for (size_t i = 1; i < S->th.size(); i++) if (S->th[i].ts != TS::Done) othersDone = false;
    for (int i = 0; i < (int)S->th.size(); i++) { auto& t = S->th[i]; bool e = false;
        switch (t.ts) { case TS::Run: e = true; break; case TS::WantMutex: { auto it = S->mtx.find(t.want); e = it == S->mtx.end() || (it->second.owner < 0); break; } case TS::CvWait: e = t.timed || S->spurious > 0; break; case TS::Join: e = othersDone; break; case TS::WantRd: { auto it = S->mtx.find(t.want); e = it == S->mtx.end() || it->second.owner < 0; break; } case TS::WantWr: { auto it = S->mtx.find(t.want); e = it == S->mtx.end() || (it->second.owner < 0 && !it->second.readers); break; } default: break; }
        if (e) r.push_back(i); }
    return r;
}
void Exec::activate(int t) { // make t the running thread, performing its wake-up
    S->cur = t; S->sched.push_back((u8)t); auto& T = S->th[t]; if (opt.traceSched && !T.st.empty()) { const Frame& f = *T.st.back(); Inst& in = f.f->code[f.pc]; S->trace.push_back(std::to_string(t) + " ts" + std::to_string((int)T.ts) + " " + f.f->name + " -> " + (in.callee ? in.callee->name : std::to_string((int)in.op))); }
    switch (T.ts) {
    case TS::CvWait: { if (!T.timed) S->spurious--; else { T.rv = 110; if (T.deadline > S->clock) S->clock = T.deadline; } T.ts = TS::WantMutex; auto it = S->mtx.find(T.want); if (it == S->mtx.end() || it->second.owner < 0) { S->mtx[T.want].owner = t; S->mtx[T.want].cnt = 1; T.ts = TS::Run; T.reacq = false; T.atPoint = false; const Frame& f = *T.st.back(); Inst& in = f.f->code[f.pc]; if (in.dst >= 0) T.st.back().own()->r[in.dst] = Value{T.rv, nullptr}; afterCall(in); } break; }
    case TS::WantMutex: T.ts = TS::Run; if (T.reacq) { S->mtx[T.want].owner = t; S->mtx[T.want].cnt = 1; T.reacq = false; T.atPoint = false; const Frame& f = *T.st.back(); Inst& in = f.f->code[f.pc]; if (in.dst >= 0) T.st.back().own()->r[in.dst] = Value{T.rv, nullptr}; afterCall(in); } break;
    case TS::WantRd: case TS::WantWr: T.ts = TS::Run; break;
    case TS::Join: T.ts = TS::Run; break;
    default: break; }
}
void Exec::grantCur() { auto& T = S->T(); S->grant = T.ts == TS::Run && T.atPoint; T.atPoint = true; }
// choose who runs next. Returns false if the current thread changed / blocked.
bool Exec::schedule(bool visible) {
    auto en = enabled(); int cur = S->cur; bool curEn = std::find(en.begin(), en.end(), cur) != en.end() && S->th[cur].ts == TS::Run;
    if (en.empty()) { bool all = true; for (auto& t : S->th) if (t.ts != TS::Done) all = false; if (all) finishPath(); fail("deadlock", "no thread can make progress"); }
    if (!visible && curEn) return true;
    std::vector<int> ch; if (curEn) { ch.push_back(cur); if (S->preempt < opt.maxPreempt) for (int t : en) if (t != cur) ch.push_back(t); } else ch = en;
    for (size_t i = 1; i < ch.size(); i++) { State* n = fork(); if (curEn) n->preempt++; State* sv = S; S = n; activate(ch[i]); grantCur(); S = sv; push(n); }
    activate(ch[0]); grantCur(); return ch[0] == cur;
}
// ---------------------------------------------------------------- calls
void Exec::doCall(Inst& in) {
    const Frame& f = S->fr(); auto* cb = llvm::cast<llvm::CallBase>(in.I);
    std::vector<Value> a; size_t na = in.o.size(); FuncI* cf = in.callee;
    if (!cf && in.builtin != -3) na--;
    a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(in.o[i].reg >= 0 ? f.r[in.o[i].reg] : in.o[i].c);
    if (in.builtin == -3) { if (in.I->getType()->isVoidTy()) { afterCall(in); return; } auto* ia = llvm::cast<llvm::InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && !a.empty()) { setRet(in, a[0]); afterCall(in); return; } fail("unmodelled", "inline asm", true); }
    if (in.builtin == -2) { intrinsic(in, a, cf->F); return; }
    if (!cf) {
        Value fp = in.o.back().reg >= 0 ? f.r[in.o.back().reg] : in.o.back().c; u64 ad = concretize(fp, 64); auto it = fbyAddr.find(ad);
        if (it == fbyAddr.end()) fail("bad-call", "call through an invalid function pointer");
        cf = it->second;
    }
    if (cf->builtin >= 0) { 
        bret = Value{}; bret2 = false; std::vector<Value> aa = a; State* before = S; (void)before; int b = cf->builtin;
        bfun[b](in, aa); return; }
    if (cf->F->isDeclaration()) { fail("unmodelled", "external function " + llvm::demangle(cf->name), true); }
    std::vector<Value> args = std::move(a); call(cf, args, &in, cf->F->isVarArg() ? &args : nullptr);
}
// ---------------------------------------------------------------- interpreter
void Exec::step() {
    Frame* f = const_cast<Frame*>(&S->fr()); Inst& in = f->f->code[f->pc];
    if (in.vis && !S->grant && S->th.size() > 1) { size_t live = 0; for (auto& t : S->th) if (t.ts != TS::Done) live++; if (live > 1) { schedule(true); return; } }
    S->steps++; nSteps++;
    auto V = [&](size_t i) -> Value { auto& o = in.o[i]; return o.reg >= 0 ? S->fr().r[o.reg] : o.c; };
    auto setD = [&](int i, const Value& v) { S->wfr().r[in.dst + i] = v; };
    switch (in.op) {
    case Instruction::Br:
        if (in.tgt.size() == 1) jump(in.tgt[0]); else jump(branch(V(0)) ? in.tgt[0] : in.tgt[1]);
        return;
    case Instruction::Switch: {
        Value v = V(0);
        if (!v.e) { for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v.c) { jump(in.tgt[i + 1]); return; } jump(in.tgt[0]); return; }
        // group by target
        u128 cur = eval(v.e, S->m, newStamp()); int ct = in.tgt[0]; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == cur) ct = in.tgt[i + 1];
        std::map<int, E> conds; E none = extTrue(); for (size_t i = 0; i < in.cases.size(); i++) { E q = mkEq(v.e, mkConst(in.cases[i], in.w)); none = mkAnd1(none, mkNot(q)); auto it = conds.find(in.tgt[i + 1]); if (it == conds.end()) conds[in.tgt[i + 1]] = q; else it->second = mkOr1(it->second, q); }
        { auto it = conds.find(in.tgt[0]); if (it == conds.end()) conds[in.tgt[0]] = none; else it->second = mkOr1(it->second, none); }
        // pending forks continue directly at their target
        for (auto& kv : conds) { if (kv.first == ct) continue; if (S->known(mkNot(kv.second))) continue; Model m2; if (mayBe(S, kv.second, &m2)) { State* n = fork(); n->m = std::move(m2); addC(n, kv.second); State* sv = S; S = n; jump(kv.first); S = sv; push(n); } }
        addC(S, conds[ct]); jump(ct); return; }
    case Instruction::Ret: { std::vector<Value> rv; for (size_t i = 0; i < in.o.size(); i++) rv.push_back(V(i)); if (in.o.empty()) {} else {} 
        if (in.I->getNumOperands() == 0) rv.clear(); ret(rv); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(in); return;
    case Instruction::Unreachable: fail("unreachable", "unreachable code reached");
    case Instruction::Resume: { u64 exc = (u64)V(0).c; auto& T = S->T(); T.curExc = exc; for (u64 a : T.st.back()->allocas) S->mem.erase(a); T.st.pop_back(); unwind(); return; }
    case Instruction::LandingPad: {
        auto* lp = llvm::cast<llvm::LandingPadInst>(in.I); auto& T = S->T(); u64 exc = T.curExc; int sel = 0; 
        for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { Value c = constVal(lp->getClause(i)); i64 off = 0; if (!c.c || tiMatch(S->exc[exc].ti, (u64)c.c, off, false)) { sel = typeId((u64)c.c); T.landAdj[exc] = exc + off; break; } } else { sel = -1; }
        setD(0, Value{exc, nullptr}); if (in.dstN > 1) setD(1, Value{(u128)(u32)sel, nullptr}); advance(); return; }
    case Instruction::Alloca: { Value n = V(0); u64 c = concretize(n, in.sw); u64 a = alloc(in.asize * c, in.align, OK_::Stack, "stack"); Frame& wf = S->wfr(); wf.allocas.push_back(a); wf.r[in.dst] = Value{a, nullptr}; wf.pc++; return; }
    case Instruction::Load: {
        Value a = V(0);
        if (a.e && in.I->getType()->isPointerTy()) a = Value{concretize(a, 64), nullptr}; // following a pointer picked by data: one path per target
        if (in.lanes == 1) { Value v = loadv(a, in.w); Frame& wf = S->wfr(); wf.r[in.dst] = v; wf.pc++; }
        else { for (int i = 0; i < in.lanes; i++) { Value v = loadv(bin(K::Add, a, Value{in.loff[i], nullptr}, 64), in.lw[i]); setD(i, v); } advance(); }
        if (in.vis) S->grant = false; return; }
    case Instruction::Store: {
        Value a = V(in.o.size() - 1); for (size_t i = 0; i < in.lw.size(); i++) storev(in.loff[i] ? bin(K::Add, a, Value{in.loff[i], nullptr}, 64) : a, V(i), in.lw[i]); if (in.vis) S->grant = false; advance(); return; }
    case Instruction::GetElementPtr: {
        Value p = V(0); if (in.gepc) p = bin(K::Add, p, Value{in.gepc, nullptr}, 64);
        for (auto& g : in.gep) { Value ix = g.reg >= 0 ? S->fr().r[g.reg] : g.c; if (g.w < 64) { if (ix.e) ix = fromE(mkSExt(ix.e, 64)); else ix.c = (u64)(i64)sx(ix.c, g.w); } if (g.scale != 1) ix = bin(K::Mul, ix, Value{g.scale, nullptr}, 64); p = bin(K::Add, p, ix, 64); }
        Frame& wf = S->wfr(); wf.r[in.dst] = p; wf.pc++; return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (in.op == Instruction::FRem && (V(0).e || V(1).e)) fail("unmodelled", "symbolic fmod", true);
        for (int i = 0; i < in.lanes; i++) { Value r = bin((K)in.pred, V(i), V(in.lanes + i), in.lw[i]); setD(i, r); } advance(); return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        for (int i = 0; i < in.lanes; i++) { Value d = V(in.lanes + i); 
            if (!d.e && !d.c) fail("div-by-zero", "division by zero");
            if (d.e) { E z = mkEq(d.e, mkConst(0, in.lw[i])); if (!S->known(mkNot(z))) { if (branch(fromE(z))) fail("div-by-zero", "division by zero"); } }
            Value r = bin((K)in.pred, V(i), V(in.lanes + i), in.lw[i]); setD(i, r); } advance(); return;
    case Instruction::FNeg: for (int i = 0; i < in.lanes; i++) { Value r = bin(K::Xor, V(i), Value{u128(1) << (in.lw[i] - 1), nullptr}, in.lw[i]); setD(i, r); } advance(); return;
    case Instruction::ICmp: for (int i = 0; i < in.lanes; i++) { Value r = icmp(in.pred, V(i), V(in.lanes + i), in.sw); setD(i, r); } advance(); return;
    case Instruction::FCmp: for (int i = 0; i < in.lanes; i++) { Value r = fcmp(in.pred, V(i), V(in.lanes + i), in.sw); setD(i, r); } advance(); return;
    case Instruction::Select: {
        size_t nc = in.o.size() - 2 * (size_t)in.lanes; for (int i = 0; i < in.lanes; i++) { Value r = ite(V(nc == 1 ? 0 : i), V(nc + i), V(nc + in.lanes + i), in.lw[i]); setD(i, r); } advance(); return; }
    case Instruction::Trunc: for (int i = 0; i < in.lanes; i++) { Value v = V(i); if (v.e) v = fromE(mkExtract(v.e, 0, in.lw[i])); else v.c &= mask(in.lw[i]); setD(i, v); } advance(); return;
    case Instruction::ZExt: for (int i = 0; i < in.lanes; i++) { Value v = V(i); if (v.e) v = fromE(mkZExt(v.e, in.lw[i])); setD(i, v); } advance(); return;
    case Instruction::SExt: for (int i = 0; i < in.lanes; i++) { Value v = V(i); if (v.e) v = fromE(mkSExt(v.e, in.lw[i])); else v.c = (u128)sx(v.c, in.sw) & mask(in.lw[i]); setD(i, v); } advance(); return;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        K k = in.op == Instruction::FPToSI ? K::FToS : in.op == Instruction::FPToUI ? K::FToU : in.op == Instruction::SIToFP ? K::SToF : in.op == Instruction::UIToFP ? K::UToF : K::FConv;
        if (in.w == 128 || (k != K::SToF && k != K::UToF && in.sw == 128)) fail("unmodelled", "long double", true);
        for (int i = 0; i < in.lanes; i++) { Value v = V(i); setD(i, fromE(mkF(k, toE(v, in.sw), nullptr, nullptr, in.lw[i]))); } advance(); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { for (int i = 0; i < in.lanes; i++) { Value v = V(i); if (in.lw[i] < in.sw) { if (v.e) v = fromE(mkExtract(v.e, 0, in.lw[i])); else v.c &= mask(in.lw[i]); } else if (v.e && in.lw[i] > in.sw) v = fromE(mkZExt(v.e, in.lw[i])); setD(i, v); } advance(); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        if (in.o.size() == (size_t)in.lanes) { for (int i = 0; i < in.lanes; i++) setD(i, V(i)); }
        else { E all = nullptr; for (size_t i = 0; i < in.o.size(); i++) { E x = toE(V(i), in.sw); all = all ? mkConcat(x, all) : x; } unsigned p = 0; for (int i = 0; i < in.lanes; i++) { setD(i, fromE(mkExtract(all, p, in.lw[i]))); p += in.lw[i]; } }
        advance(); return; }
    case Instruction::ExtractValue: case Instruction::InsertValue: { std::vector<Value> t; for (int i = 0; i < in.dstN; i++) t.push_back(V(i)); for (int i = 0; i < in.dstN; i++) setD(i, t[i]); advance(); return; }
    case Instruction::ExtractElement: { size_t n = in.o.size() - 1; Value ix = V(n); u64 i = concretize(ix, 64); if (i >= n) i = 0; setD(0, V(i)); advance(); return; }
    case Instruction::InsertElement: { u64 ix = concretize(V(in.o.size() - 1), 64); std::vector<Value> t; for (int i = 0; i < in.lanes; i++) t.push_back((u64)i == ix ? V(in.lanes) : V(i)); for (int i = 0; i < in.lanes; i++) setD(i, t[i]); advance(); return; }
    case Instruction::ShuffleVector: { std::vector<Value> t; for (int m : in.shuf) t.push_back(m < 0 ? Value{} : V(m)); for (size_t i = 0; i < t.size(); i++) setD((int)i, t[i]); advance(); return; }
    case Instruction::AtomicCmpXchg: { Value p = V(0); Value old = loadv(p, in.w); Value eq = icmp(llvm::CmpInst::ICMP_EQ, old, V(1), in.w); Value nv = ite(eq, V(2), old, in.w); if (eq.e || eq.c) storev(p, nv, in.w); setD(0, old); setD(1, eq); advance(); S->grant = false; return; }
    case Instruction::AtomicRMW: {
        using R = llvm::AtomicRMWInst; Value p = V(0), x = V(1); Value old = loadv(p, in.w); Value nv; unsigned w = in.w;
        switch (in.pred) { case R::Xchg: nv = x; break; case R::Add: nv = bin(K::Add, old, x, w); break; case R::Sub: nv = bin(K::Sub, old, x, w); break; case R::And: nv = bin(K::And, old, x, w); break; case R::Or: nv = bin(K::Or, old, x, w); break; case R::Xor: nv = bin(K::Xor, old, x, w); break; case R::Nand: nv = bin(K::Xor, bin(K::And, old, x, w), Value{mask(w), nullptr}, w); break;
        case R::Max: nv = ite(icmp(llvm::CmpInst::ICMP_SGT, old, x, w), old, x, w); break; case R::Min: nv = ite(icmp(llvm::CmpInst::ICMP_SLT, old, x, w), old, x, w); break; case R::UMax: nv = ite(icmp(llvm::CmpInst::ICMP_UGT, old, x, w), old, x, w); break; case R::UMin: nv = ite(icmp(llvm::CmpInst::ICMP_ULT, old, x, w), old, x, w); break; default: fail("unmodelled", "atomicrmw", true); }
        storev(p, nv, w); setD(0, old); advance(); S->grant = false; return; }
    case Instruction::Fence: advance(); return;
    default: fail("unmodelled", std::string("instruction ") + in.I->getOpcodeName(), true);
    }
}
void Exec::run() {
    t0 = std::chrono::steady_clock::now();
    auto* ef = M->getFunction(opt.entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "jsym: no entry %s\n", opt.entry.c_str()); exit(3); }
    State* s = new State; s->heapNext = 0x600000000000ULL; s->stackNext = 0x7f0000000000ULL; s->spurious = opt.spurious; s->th.emplace_back(); S = s;
    // global constructors run first, concretely, one after another, then the entry
    std::vector<std::pair<u64, FuncI*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = llvm::cast<llvm::ConstantStruct>(op); if (auto* fn = llvm::dyn_cast<llvm::Function>(cs->getOperand(1))) ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), getF(fn)}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    push(s);
    size_t ci = 0; std::vector<Value> none; bool started = false;
    u64 iter = 0;
    while (!work.empty()) {
        S = work.back(); work.pop_back();
        try {
            if (!started) { // run constructors in this initial state
                while (ci < ctors.size()) { FuncI* cf = ctors[ci++].second; // constructor returns are detected through an artificial bottom frame
                    call(cf, none, nullptr, nullptr); size_t depth = S->T().st.size(); while (S->T().st.size() >= depth) { const Frame& f = S->fr(); if (S->T().st.size() == depth && f.f->code[f.pc].op == Instruction::Ret) { for (u64 a : f.allocas) S->mem.erase(a); S->T().st.pop_back(); break; } step(); } }
                started = true; call(getF(ef), none, nullptr, nullptr); S->steps = 0; 
            }
            for (;;) {
                step();
                if ((++iter & 0x3ff) == 0) { if (elapsed() > opt.timeLimit) { timeUp = true; break; } if ((iter & 0x3ffff) == 0) { if (FILE* f = fopen("/proc/self/statm", "r")) { long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) == 2 && b * 4096.0 / 1e6 > opt.memMB) memUp = true; fclose(f); } if (memUp) break; } }
                if (S->steps > opt.maxSteps) fail("step-limit", "path exceeds the instruction bound", true);
            }
        } catch (PathEnd&) { delete S; S = nullptr; 
            if (errors.size() >= (size_t)opt.maxErrors) { size_t hard = 0; for (auto& e : errors) hard += !e.inconclusive; if (hard >= (size_t)opt.maxErrors) { fprintf(stderr, "jsym: error limit reached\n"); timeUp = true; break; } }
            if (elapsed() > opt.timeLimit) { timeUp = true; break; }
            continue; }
        if (timeUp || memUp) { work.push_back(S); break; }
    }
}
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
std::string Exec::json() {
    std::ostringstream o; o << "{\n";
    o << "\"paths\":" << nPaths << ",\"error_paths\":" << nErrPaths << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"assume_ended\":" << nAssumeEnd << ",\"asserts\":" << nAsserts << ",\"asserts_trivial\":" << nAssertTrivial << ",\"incomplete\":" << nIncomplete << ",\"pending\":" << work.size() << ",\"time_up\":" << (timeUp ? "true" : "false") << ",\"mem_up\":" << (memUp ? "true" : "false") << ",\n";
    o << "\"solver\":{\"queries\":" << solver.st.queries << ",\"z3\":" << solver.st.z3 << ",\"sat\":" << solver.st.sat << ",\"unsat\":" << solver.st.unsat << ",\"unknown\":" << solver.st.unknown << ",\"cache_hits\":" << solver.st.cacheHits << ",\"model_hits\":" << solver.st.modelHits << ",\"table\":" << solver.st.table << ",\"slow\":" << solver.st.slow << ",\"time\":" << solver.st.time << ",\"max_time\":" << solver.st.maxTime << ",\"mismatch\":" << (solver.mismatch ? "true" : "false") << "},\n";
    o << "\"wall\":" << elapsed() << ",\"vars\":" << g_vars.size() << ",\"exprs\":" << exprCount() << ",\n\"reach\":{";
    bool first = true; for (auto& r : reach) { o << (first ? "" : ",") << "\"" << esc(r.first) << "\":" << r.second; first = false; } o << "},\n\"unmodelled\":{";
    first = true; for (auto& r : unmodelled) { o << (first ? "" : ",") << "\"" << esc(r.first) << "\":" << r.second; first = false; } o << "},\n\"functions\":[";
    first = true; for (auto& f : funcs) if (f.compiled && f.repo && f.calls) { size_t c = 0; for (char x : f.cov) c += x; o << (first ? "" : ",") << "{\"name\":\"" << esc(llvm::demangle(f.name)) << "\",\"at\":\"" << esc(f.file + ":" + std::to_string(f.line)) << "\",\"blocks\":" << f.cov.size() << ",\"covered\":" << c << ",\"calls\":" << f.calls << "}"; first = false; } o << "],\n";
    auto inp = [&](auto& v) { std::string r = "["; bool ff = true; for (auto& i : v) { r += std::string(ff ? "" : ",") + "[\"" + esc(i.first) + "\"," + std::to_string(i.second.first) + ",\"" + hex(i.second.second) + "\"]"; ff = false; } return r + "]"; };
    auto sch = [&](const std::vector<u8>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; };
    o << "\"errors\":["; first = true; for (auto& e : errors) { o << (first ? "" : ",\n") << "{\"kind\":\"" << esc(e.kind) << "\",\"msg\":\"" << esc(e.msg) << "\",\"count\":" << e.count << ",\"inconclusive\":" << (e.inconclusive ? "true" : "false") << ",\"inputs\":" << inp(e.inputs) << ",\"sched\":" << sch(e.sched) << ",\"stack\":["; bool ff = true; for (auto& x : e.stack) { o << (ff ? "" : ",") << "\"" << esc(x) << "\""; ff = false; } o << "]}"; first = false; }
    o << "],\n\"samples\":["; first = true; for (auto& p : samples) { o << (first ? "" : ",\n") << "{\"inputs\":" << inp(p.inputs) << ",\"sched\":" << sch(p.sched) << ",\"obs\":["; bool ff = true; for (auto& x : p.obs) { o << (ff ? "" : ",") << "[\"" << esc(x.first) << "\",\"" << x.second << "\"]"; ff = false; } o << "]}"; first = false; }
    o << "]\n}\n"; return o.str();
}
}

// jsym: intrinsics, C runtime primitives and the harness API
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <cmath>
using namespace llvm;
namespace jsym {
using Val = jsym::Value;
static Val C(u128 c) { return Val{c, nullptr}; }
void Exec::intrinsic(Inst& in, std::vector<Val>& a, const Function* F) {
    unsigned w = in.w, sw = in.sw; auto done = [&](const Val& v) { setRet(in, v); afterCall(in); };
    auto lanes = [&](auto fn) { int n = in.lanes; size_t per = n; std::vector<Val> r; for (int i = 0; i < n; i++) r.push_back(fn(a[i], a.size() >= 2 * per ? a[per + i] : Val{}, i)); for (int i = 0; i < n; i++) S->wfr().r[in.dst + i] = r[i]; afterCall(in); };
    using P = CmpInst;
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(a[2], 64); memcpyB(a[0], a[1], n); afterCall(in); return; }
    case Intrinsic::memset: { u64 n = concretize(a[2], 64); memsetB(a[0], a[1], n); afterCall(in); return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: done(a[0]); return;
    case Intrinsic::is_constant: done(C(0)); return;
    case Intrinsic::objectsize: done(C(mask(w))); return;
    case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: afterCall(in); return;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: done(C(0)); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: fail("trap", "trap instruction reached");
    case Intrinsic::ubsantrap: fail("undefined-behaviour", "undefined behaviour trap, code " + std::to_string((u64)a[0].c));
    case Intrinsic::eh_typeid_for: done(C((u32)typeId((u64)a[0].c))); return;
    case Intrinsic::threadlocal_address: {
        u64 g = (u64)a[0].c; if (S->cur == 0) { done(C(g)); return; }
        auto k = std::make_pair(S->cur, g); auto it = S->tls.find(k);
        if (it == S->tls.end()) { auto* o = base.find(g); u64 n = alloc((*o)->size, 16, OK_::Global, "tls"); Object* d = wobj(n); u8 b; E e; for (u64 i = 0; i < (*o)->size; i++) { (*o)->getb(i, b, e); d->setb(i, b); } S->tls[k] = n; it = S->tls.find(k); }
        done(C(it->second)); return; }
    case Intrinsic::umin: lanes([&](Val x, Val y, int i) { return ite(icmp(P::ICMP_ULT, x, y, in.lw[i]), x, y, in.lw[i]); }); return;
    case Intrinsic::umax: lanes([&](Val x, Val y, int i) { return ite(icmp(P::ICMP_UGT, x, y, in.lw[i]), x, y, in.lw[i]); }); return;
    case Intrinsic::smin: lanes([&](Val x, Val y, int i) { return ite(icmp(P::ICMP_SLT, x, y, in.lw[i]), x, y, in.lw[i]); }); return;
    case Intrinsic::smax: lanes([&](Val x, Val y, int i) { return ite(icmp(P::ICMP_SGT, x, y, in.lw[i]), x, y, in.lw[i]); }); return;
    case Intrinsic::abs: { Val n = bin(K::Sub, C(0), a[0], w); done(ite(icmp(P::ICMP_SLT, a[0], C(0), w), n, a[0], w)); return; }
    case Intrinsic::usub_sat: done(ite(icmp(P::ICMP_ULT, a[0], a[1], w), C(0), bin(K::Sub, a[0], a[1], w), w)); return;
    case Intrinsic::uadd_sat: { Val s = bin(K::Add, a[0], a[1], w); done(ite(icmp(P::ICMP_ULT, s, a[0], w), C(mask(w)), s, w)); return; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        bool sub = F->getIntrinsicID() == Intrinsic::ssub_sat; E x = mkSExt(toE(a[0], w), w + 1), y = mkSExt(toE(a[1], w), w + 1); E r = mkBin(sub ? K::Sub : K::Add, x, y); E mx = mkConst(mask(w - 1), w + 1), mn = mkBin(K::Sub, mkConst(0, w + 1), mkConst(u128(1) << (w - 1), w + 1));
        done(fromE(mkExtract(mkIte(mkSlt(mx, r), mx, mkIte(mkSlt(r, mn), mn, r)), 0, w))); return; }
    case Intrinsic::uadd_with_overflow: { Val s = bin(K::Add, a[0], a[1], sw); Val o = icmp(P::ICMP_ULT, s, a[0], sw); S->wfr().r[in.dst + 1] = o; done(s); return; }
    case Intrinsic::usub_with_overflow: { Val s = bin(K::Sub, a[0], a[1], sw); Val o = icmp(P::ICMP_ULT, a[0], a[1], sw); S->wfr().r[in.dst + 1] = o; done(s); return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        bool sub = F->getIntrinsicID() == Intrinsic::ssub_with_overflow; Val s = bin(sub ? K::Sub : K::Add, a[0], a[1], sw);
        auto sg = [&](const Val& v) { return icmp(P::ICMP_SLT, v, C(0), sw); }; Val sa = sg(a[0]), sb = sg(a[1]), ss = sg(s);
        Val d1 = icmp(sub ? P::ICMP_NE : P::ICMP_EQ, sa, sb, 1), d2 = icmp(P::ICMP_NE, ss, sa, 1); S->wfr().r[in.dst + 1] = bin(K::And, d1, d2, 1); done(s); return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        bool sg = F->getIntrinsicID() == Intrinsic::smul_with_overflow;
        if (!sg && !a[0].e != !a[1].e) { // by a constant: overflow iff the other operand exceeds max / constant
            u128 k = (a[0].e ? a[1] : a[0]).c & mask(sw); const Val& v = a[0].e ? a[0] : a[1]; Val p = bin(K::Mul, a[0], a[1], sw); S->wfr().r[in.dst + 1] = k ? icmp(P::ICMP_ULT, C(mask(sw) / k), v, sw) : C(0); done(p); return; }
        if (sw > 64) { // i128: x*y overflows iff y!=0 and (x*y)/y != x
            Val p = bin(K::Mul, a[0], a[1], sw); if (a[0].e || a[1].e) { if (sg) fail("unmodelled", "symbolic 128-bit signed multiply overflow", true); E y = toE(a[1], sw), x = toE(a[0], sw); E ov = mkAnd1(mkNot(mkEq(y, mkConst(0, sw))), mkNot(mkEq(mkBin(K::UDiv, toE(p, sw), y), x))); S->wfr().r[in.dst + 1] = fromE(ov); done(p); return; }
            bool ov; if (sg) { i128 r; ov = __builtin_mul_overflow((i128)a[0].c, (i128)a[1].c, &r); } else { u128 r; ov = __builtin_mul_overflow(a[0].c, a[1].c, &r); } S->wfr().r[in.dst + 1] = C(ov); done(p); return; }
        E x = toE(a[0], sw), y = toE(a[1], sw); E X = sg ? mkSExt(x, 2 * sw) : mkZExt(x, 2 * sw), Y = sg ? mkSExt(y, 2 * sw) : mkZExt(y, 2 * sw); E m = mkBin(K::Mul, X, Y); E lo = mkExtract(m, 0, sw); E ov = mkNot(mkEq(m, sg ? mkSExt(lo, 2 * sw) : mkZExt(lo, 2 * sw)));
        S->wfr().r[in.dst + 1] = fromE(ov); done(fromE(lo)); return; }
    case Intrinsic::ctpop: { E e = toE(a[0], w); E s = mkConst(0, w); for (unsigned i = 0; i < w; i++) s = mkBin(K::Add, s, mkZExt(mkExtract(e, i, 1), w)); done(fromE(s)); return; }
    case Intrinsic::ctlz: { E e = toE(a[0], w); E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); done(fromE(r)); return; }
    case Intrinsic::cttz: { E e = toE(a[0], w); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); done(fromE(r)); return; }
    case Intrinsic::bswap: { E e = toE(a[0], w); E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } done(fromE(r)); return; }
    case Intrinsic::bitreverse: { E e = toE(a[0], w); E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } done(fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool l = F->getIntrinsicID() == Intrinsic::fshl; Val s = bin(K::URem, a[2], C(w), w);
        if (!s.e) { unsigned k = (unsigned)s.c; if (!k) { done(l ? a[0] : a[1]); return; } E x = toE(a[0], w), y = toE(a[1], w); if (!l) k = w - k; done(fromE(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)))); return; }
        E sh = s.e, inv = mkBin(K::Sub, mkConst(w, w), sh), x = toE(a[0], w), y = toE(a[1], w); E z = mkEq(sh, mkConst(0, w));
        done(fromE(l ? mkIte(z, x, mkBin(K::Or, mkBin(K::Shl, x, sh), mkBin(K::LShr, y, inv))) : mkIte(z, y, mkBin(K::Or, mkBin(K::Shl, x, inv), mkBin(K::LShr, y, sh))))); return; }
    case Intrinsic::fabs: done(bin(K::And, a[0], C(mask(w - 1)), w)); return;
    case Intrinsic::copysign: done(bin(K::Or, bin(K::And, a[0], C(mask(w - 1)), w), bin(K::And, a[1], C(u128(1) << (w - 1)), w), w)); return;
    case Intrinsic::sqrt: done(fromE(mkF(K::FSqrt, toE(a[0], w), nullptr, nullptr, w))); return;
    case Intrinsic::floor: done(fromE(mkF(K::FRnd, toE(a[0], w), nullptr, nullptr, w, 1))); return;
    case Intrinsic::ceil: done(fromE(mkF(K::FRnd, toE(a[0], w), nullptr, nullptr, w, 2))); return;
    case Intrinsic::trunc: done(fromE(mkF(K::FRnd, toE(a[0], w), nullptr, nullptr, w, 3))); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: done(fromE(mkF(K::FRnd, toE(a[0], w), nullptr, nullptr, w, 0))); return;
    case Intrinsic::round: done(fromE(mkF(K::FRnd, toE(a[0], w), nullptr, nullptr, w, 4))); return;
    case Intrinsic::fma: done(fromE(mkF(K::FFma, toE(a[0], w), toE(a[1], w), toE(a[2], w), w))); return;
    case Intrinsic::fmuladd: done(bin(K::FAdd, bin(K::FMul, a[0], a[1], w), a[2], w)); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: { bool mn = F->getIntrinsicID() == Intrinsic::minnum; Val nx = fcmp(P::FCMP_UNO, a[0], a[0], w), ny = fcmp(P::FCMP_UNO, a[1], a[1], w); Val c = fcmp(mn ? P::FCMP_OLT : P::FCMP_OGT, a[0], a[1], w); done(ite(nx, a[1], ite(ny, a[0], ite(c, a[0], a[1], w), w), w)); return; }
    case Intrinsic::is_fpclass: {
        u64 m = (u64)a[1].c; E e = toE(a[0], sw); unsigned mb = sw == 64 ? 52 : 23; unsigned eb = sw - 1 - mb; E man = mkExtract(e, 0, mb), ex = mkExtract(e, mb, eb), sg = mkExtract(e, sw - 1, 1);
        E exm = mkEq(ex, mkConst(mask(eb), eb)), ex0 = mkEq(ex, mkConst(0, eb)), m0 = mkEq(man, mkConst(0, mb)), q = mkExtract(man, mb - 1, 1), ns = mkNot(sg); E r = extFalse();
        auto add = [&](unsigned bit, E c) { if (m >> bit & 1) r = mkOr1(r, c); };
        E nan = mkAnd1(exm, mkNot(m0)), inf = mkAnd1(exm, m0), sub = mkAnd1(ex0, mkNot(m0)), zero = mkAnd1(ex0, m0), nor = mkAnd1(mkNot(exm), mkNot(ex0));
        add(0, mkAnd1(nan, mkNot(q))); add(1, mkAnd1(nan, q)); add(2, mkAnd1(inf, sg)); add(3, mkAnd1(nor, sg)); add(4, mkAnd1(sub, sg)); add(5, mkAnd1(zero, sg)); add(6, mkAnd1(zero, ns)); add(7, mkAnd1(sub, ns)); add(8, mkAnd1(nor, ns)); add(9, mkAnd1(inf, ns));
        done(fromE(r)); return; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: { K k = F->getIntrinsicID() == Intrinsic::vector_reduce_or ? K::Or : F->getIntrinsicID() == Intrinsic::vector_reduce_and ? K::And : F->getIntrinsicID() == Intrinsic::vector_reduce_xor ? K::Xor : K::Add; Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = bin(k, r, a[i], w); done(r); return; }
    default: fail("unmodelled", "intrinsic " + F->getName().str(), true);
    }
}
void Exec::newVarInput(const char* name, unsigned w, Val& out) {
    u32 ord = S->nIn++; auto k = std::make_pair(ord, w); auto it = varByOrd.find(k); u32 id;
    if (it == varByOrd.end()) { id = (u32)g_vars.size(); g_vars.push_back({name, w, 0}); varByOrd[k] = id; } else id = it->second;
    S->in.push_back({name, (u8)w, false, 0, id}); out = fromE(mkVar(id, w));
}
void Exec::regBuiltins() {
    auto def = [&](const char* n, std::function<void(Inst&, std::vector<Val>&)> f) { bnames[n] = (int)bfun.size(); bfun.push_back(std::move(f)); };
    auto alias = [&](const char* n, const char* o) { bnames[n] = bnames[o]; };
    auto done = [this](Inst& in, const Val& v) { setRet(in, v); afterCall(in); };
    using A = std::vector<Val>;
    // ---- memory
    def("jsym_alloc", [=](Inst& in, A& a) { u64 n = concretize(a[0], 64), al = concretize(a[1], 64); u64 p = alloc(n, al, OK_::Heap, "heap"); done(in, C(p)); });
    def("malloc", [=](Inst& in, A& a) { u64 n = concretize(a[0], 64); u64 p = alloc(n, 16, OK_::Heap, "heap"); done(in, C(p)); });
    def("calloc", [=](Inst& in, A& a) { u64 n = concretize(a[0], 64) * concretize(a[1], 64); u64 p = alloc(n, 16, OK_::Heap, "heap"); wobj(p)->zero = true; done(in, C(p)); });
    def("jsym_zalloc", [=](Inst& in, A& a) { u64 n = concretize(a[0], 64), al = concretize(a[1], 64); u64 p = alloc(n, al, OK_::Heap, "heap"); wobj(p)->zero = true; done(in, C(p)); });
    def("aligned_alloc", [=](Inst& in, A& a) { u64 al = concretize(a[0], 64), n = concretize(a[1], 64); u64 p = alloc(n, al, OK_::Heap, "heap"); done(in, C(p)); });
    alias("memalign", "aligned_alloc");
    def("posix_memalign", [=](Inst& in, A& a) { u64 al = concretize(a[1], 64), n = concretize(a[2], 64); u64 p = alloc(n, al, OK_::Heap, "heap"); storev(a[0], C(p), 64); done(in, C(0)); });
    def("realloc", [=](Inst& in, A& a) { u64 o = concretize(a[0], 64), n = concretize(a[1], 64); u64 p = alloc(n, 16, OK_::Heap, "heap"); if (o) { Object* ob = lookup(o); if (!ob || ob->base != o || ob->kind != OK_::Heap) fail("bad-free", "realloc of an address that is not a live allocation"); memcpyB(C(p), C(o), std::min(n, ob->size)); dealloc(o, OK_::Heap); } done(in, C(p)); });
    def("free", [=](Inst& in, A& a) { dealloc(concretize(a[0], 64), OK_::Heap); afterCall(in); });
    for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "jsym_free", "cfree"}) alias(n, "free");
    def("malloc_usable_size", [=](Inst& in, A& a) { Object* o = lookup(concretize(a[0], 64)); done(in, C(o ? o->size : 0)); });
    def("memcpy", [=](Inst& in, A& a) { u64 n = concretize(a[2], 64); memcpyB(a[0], a[1], n); done(in, a[0]); });
    alias("memmove", "memcpy"); alias("__memcpy_chk", "memcpy"); alias("__memmove_chk", "memcpy");
    def("memset", [=](Inst& in, A& a) { u64 n = concretize(a[2], 64); memsetB(a[0], a[1], n); done(in, a[0]); });
    def("memcmp", [=](Inst& in, A& a) { u64 n = concretize(a[2], 64); Val v = memcmpB(a[0], a[1], n, false); done(in, v); });
    def("bcmp", [=](Inst& in, A& a) { u64 n = concretize(a[2], 64); Val v = memcmpB(a[0], a[1], n, true); done(in, v); });
    // ---- process
    def("abort", [=](Inst&, A&) { fail("abort", "abort() called"); });
    def("_ZSt9terminatev", [=](Inst&, A&) { fail("terminate", "std::terminate() called"); });
    alias("__cxa_pure_virtual", "abort"); alias("__cxa_deleted_virtual", "abort");
    def("__assert_fail", [=](Inst&, A& a) { fail("assertion", "assertion failed: " + rdStr((u64)a[0].c)); });
    def("__glibcxx_assert_fail", [=](Inst&, A&) { fail("assertion", "libstdc++ assertion failed"); });
    alias("_ZSt21__glibcxx_assert_failPKciS0_S0_", "__glibcxx_assert_fail");
    def("exit", [=](Inst&, A&) { fail("exit", "exit() called"); }); alias("_exit", "exit"); alias("_ZSt4exiti", "exit");
    def("__cxa_atexit", [=](Inst& in, A&) { done(in, C(0)); }); alias("atexit", "__cxa_atexit"); alias("__cxa_thread_atexit", "__cxa_atexit"); alias("getenv", "__cxa_atexit"); alias("secure_getenv", "__cxa_atexit");
    def("jsym_nop", [=](Inst& in, A&) { done(in, C(0)); });
    for (const char* n : {"usleep", "nanosleep", "clock_nanosleep", "printf", "puts", "putchar", "fprintf", "fflush", "write", "fputs", "fwrite", "putc", "fputc", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD2Ev", "pthread_once_nop", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_setname_np", "pthread_setaffinity_np", "sched_setaffinity", "pthread_attr_init", "numa_available", "madvise", "mlock", "munlock"}) alias(n, "jsym_nop");
    def("sched_yield", [=](Inst& in, A&) { done(in, C(0)); S->grant = false; }); alias("jsym_yield", "sched_yield");
    def("clock_gettime", [=](Inst& in, A& a) { u64 t = ++S->clock; u64 ns = ((u64)a[0].c == 1 ? 1000000000ULL : 1700000000000000000ULL) + t * 1000; storev(a[1], C(ns / 1000000000ULL), 64); storev(bin(K::Add, a[1], C(8), 64), C(ns % 1000000000ULL), 64); done(in, C(0)); });
    def("_ZNSt6chrono3_V212system_clock3nowEv", [=](Inst& in, A&) { u64 t = ++S->clock; done(in, C(1700000000000000000ULL + t * 1000)); });
    def("_ZNSt6chrono3_V212steady_clock3nowEv", [=](Inst& in, A&) { u64 t = ++S->clock; done(in, C(1000000000ULL + t * 1000)); });
    def("__errno_location", [=](Inst& in, A&) { if (!S->T().errnoAddr) { S->T().errnoAddr = alloc(16, 16, OK_::Global, "errno"); wobj(S->T().errnoAddr)->zero = true; } done(in, C(S->T().errnoAddr)); });
    def("pthread_self", [=](Inst& in, A&) { done(in, C(0x1000 + S->cur)); });
    // ---- exceptions
    def("__cxa_allocate_exception", [=](Inst& in, A& a) { u64 p = alloc(concretize(a[0], 64), 16, OK_::Heap, "exception"); done(in, C(p)); });
    def("__cxa_free_exception", [=](Inst& in, A& a) { dealloc((u64)a[0].c, OK_::Heap); afterCall(in); });
    def("__cxa_throw", [=](Inst&, A& a) { u64 p = (u64)a[0].c; S->exc[p] = ExcInfo{(u64)a[1].c, (u64)a[2].c, 0, false}; throwObj(p); });
    def("__cxa_begin_catch", [=](Inst& in, A& a) { u64 p = (u64)a[0].c; auto& T = S->T(); u64 adj = p; auto it = T.landAdj.find(p); if (it != T.landAdj.end()) adj = it->second; T.caught.push_back({p, adj}); S->exc[p].handlers++; S->exc[p].rethrown = false; done(in, C(adj)); });
    def("__cxa_get_exception_ptr", [=](Inst& in, A& a) { u64 p = (u64)a[0].c; auto& T = S->T(); auto it = T.landAdj.find(p); done(in, C(it != T.landAdj.end() ? it->second : p)); });
    def("__cxa_end_catch", [=](Inst& in, A&) { auto& T = S->T(); if (T.caught.empty()) { afterCall(in); return; } u64 p = T.caught.back().exc; T.caught.pop_back(); auto& x = S->exc[p]; if (--x.handlers == 0 && !x.rethrown) { u64 d = x.dtor; S->exc.erase(p); auto it = fbyAddr.find(d); if (d && it != fbyAddr.end() && !it->second->F->isDeclaration()) { std::vector<Val> aa{C(p)}; call(it->second, aa, nullptr, nullptr); return; } } afterCall(in); });
    def("__cxa_rethrow", [=](Inst&, A&) { auto& T = S->T(); if (T.caught.empty()) fail("terminate", "rethrow without exception"); u64 p = T.caught.back().exc; S->exc[p].rethrown = true; throwObj(p); });
    def("_ZSt19uncaught_exceptionsv", [=](Inst& in, A&) { done(in, C(0)); }); alias("_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv");
    def("__cxa_call_unexpected", [=](Inst&, A&) { fail("terminate", "unexpected exception"); }); alias("__clang_call_terminate", "__cxa_call_unexpected");
    // current exception as a raw pointer: jsym_current_exception() / jsym_rethrow(ptr) / type name
    def("jsym_current_exception", [=](Inst& in, A&) { auto& T = S->T(); u64 p = 0; if (!T.caught.empty()) { p = T.caught.back().exc; S->exc[p].handlers += 1000; } done(in, C(p)); });
    def("jsym_rethrow", [=](Inst&, A& a) { throwObj((u64)a[0].c); });
    def("__cxa_guard_acquire", [=](Inst& in, A& a) { Val v = loadv(a[0], 8); done(in, C(v.c ? 0 : 1)); });
    def("__cxa_guard_release", [=](Inst& in, A& a) { storev(a[0], C(1), 8); afterCall(in); });
    def("__cxa_guard_abort", [=](Inst& in, A&) { afterCall(in); });
    def("__dynamic_cast", [=](Inst& in, A& a) {
        u64 p = concretize(a[0], 64); u64 vp = rdConst64(p); u64 ti = rdConst64(vp - 8); i64 top = (i64)rdConst64(vp - 16); u64 full = p + top; i64 off = 0; u64 dst = (u64)a[2].c;
        if (ti == dst) { done(in, C(full)); return; }
        if (tiMatch(ti, dst, off, false)) { done(in, C(full + off)); return; } done(in, C(0)); });
    // ---- threads
    auto afterRelease = [=]() { S->grant = false; size_t live = 0; for (auto& t : S->th) if (t.ts != TS::Done) live++; if (live > 1) { S->T().atPoint = false; schedule(true); } };
    def("pthread_mutex_lock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; Object* o = lookup(m); if (!o) fail("use-after-free", "lock of a destroyed mutex");
        if (x.owner < 0) { x.owner = S->cur; x.cnt = 1; done(in, C(0)); S->grant = false; return; }
        if (x.owner == S->cur) { Val k = loadv(bin(K::Add, a[0], C(16), 64), 32); if (!k.e && k.c == 1) { x.cnt++; done(in, C(0)); S->grant = false; return; } }
        S->T().ts = TS::WantMutex; S->T().want = m; S->T().reacq = false; S->grant = false; schedule(false); });
    def("pthread_mutex_trylock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner < 0) { x.owner = S->cur; x.cnt = 1; done(in, C(0)); } else done(in, C(16)); S->grant = false; });
    def("pthread_mutex_unlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner != S->cur) fail("bad-unlock", "unlock of a mutex not held by this thread"); if (--x.cnt == 0) x.owner = -1; done(in, C(0)); afterRelease(); });
    auto dl = [=](Value clk, Value ts) { u64 sec = (u64)concretize(loadv(ts, 64), 64), ns = (u64)concretize(loadv(bin(K::Add, ts, C(8), 64), 64), 64); u64 base = (u64)clk.c == 1 ? 1000000000ULL : 1700000000000000000ULL; i64 tot = (i64)(sec * 1000000000ULL + ns - base); return tot <= 0 ? (u64)0 : (u64)(tot + 999) / 1000; };
    auto cw = [=](Inst&, A& a, bool timed, u64 dl) { u64 m = (u64)a[1].c; auto& x = S->mtx[m]; if (x.owner != S->cur) fail("bad-wait", "condition wait without holding the mutex"); x.owner = -1; x.cnt = 0; auto& T = S->T(); T.ts = TS::CvWait; T.cv = (u64)a[0].c; T.want = m; T.reacq = true; T.timed = timed; T.rv = 0; T.deadline = dl; S->grant = false; schedule(false); };
    def("pthread_cond_wait", [=](Inst& in, A& a) { cw(in, a, false, 0); });
    def("pthread_cond_timedwait", [=](Inst& in, A& a) { cw(in, a, true, dl(C(0), a[2])); });
    def("pthread_cond_clockwait", [=](Inst& in, A& a) { cw(in, a, true, dl(a[2], a[3])); });
    def("pthread_cond_broadcast", [=](Inst& in, A& a) { for (auto& t : S->th) if (t.ts == TS::CvWait && t.cv == (u64)a[0].c) { t.ts = TS::WantMutex; t.timed = false; t.rv = 0; } done(in, C(0)); S->grant = false; });
    def("pthread_cond_signal", [=](Inst& in, A& a) {
        std::vector<int> ws; for (int i = 0; i < (int)S->th.size(); i++) if (S->th[i].ts == TS::CvWait && S->th[i].cv == (u64)a[0].c) ws.push_back(i);
        auto wake = [](State* s, int t) { s->th[t].ts = TS::WantMutex; s->th[t].timed = false; s->th[t].rv = 0; };
        for (size_t i = 1; i < ws.size(); i++) { State* n = fork(); State* sv = S; S = n; wake(n, ws[i]); n->sched.push_back((u8)(128 + ws[i])); done(in, C(0)); n->grant = false; S = sv; push(n); }
        if (!ws.empty()) { wake(S, ws[0]); if (ws.size() > 1) S->sched.push_back((u8)(128 + ws[0])); } done(in, C(0)); S->grant = false; });
    def("pthread_rwlock_rdlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner < 0) { x.readers++; done(in, C(0)); S->grant = false; return; } S->T().ts = TS::WantRd; S->T().want = m; S->grant = false; schedule(false); });
    def("pthread_rwlock_wrlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner < 0 && !x.readers) { x.owner = S->cur; done(in, C(0)); S->grant = false; return; } S->T().ts = TS::WantWr; S->T().want = m; S->grant = false; schedule(false); });
    def("pthread_rwlock_tryrdlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner < 0) { x.readers++; done(in, C(0)); } else done(in, C(16)); S->grant = false; });
    def("pthread_rwlock_trywrlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner < 0 && !x.readers) { x.owner = S->cur; done(in, C(0)); } else done(in, C(16)); S->grant = false; });
    def("pthread_rwlock_unlock", [=](Inst& in, A& a) { u64 m = (u64)a[0].c; auto& x = S->mtx[m]; if (x.owner == S->cur) x.owner = -1; else if (x.readers > 0) x.readers--; else fail("bad-unlock", "rwlock unlock without lock"); done(in, C(0)); afterRelease(); });
    def("jsym_spawn", [=](Inst& in, A& a) {
        auto it = fbyAddr.find((u64)a[0].c); if (it == fbyAddr.end()) fail("bad-call", "spawn: bad function"); int me = S->cur; done(in, C(0)); S->th.emplace_back(); S->th.back().atPoint = false; S->cur = (int)S->th.size() - 1; std::vector<Val> aa{a[1]}; call(it->second, aa, nullptr, nullptr); S->cur = me; S->grant = false; });
    def("jsym_join_all", [=](Inst& in, A&) { bool all = true; for (size_t i = 1; i < S->th.size(); i++) if (S->th[i].ts != TS::Done) all = false; if (all) { done(in, C(0)); return; } S->T().ts = TS::Join; S->grant = false; schedule(false); });
    def("jsym_tid", [=](Inst& in, A&) { done(in, C(S->cur)); });
    def("jsym_asleep", [=](Inst& in, A& a) { auto& t = S->th[(size_t)a[0].c]; done(in, C(t.ts == TS::CvWait)); });
    def("jsym_blocked", [=](Inst& in, A& a) { auto& t = S->th[(size_t)a[0].c]; done(in, C(t.ts == TS::CvWait || t.ts == TS::WantMutex)); });
    // ---- harness API
    def("sym_var", [=](Inst& in, A& a) { unsigned w = (unsigned)a[1].c; Val v; newVarInput(rdStr((u64)a[0].c).c_str(), w, v); done(in, fromE(mkZExt(v.e, 64))); });
    def("sym_bytes", [=](Inst& in, A& a) { u64 n = concretize(a[1], 64); std::string nm = rdStr((u64)a[2].c); for (u64 i = 0; i < n; i++) { Val v; newVarInput((nm + "[" + std::to_string(i) + "]").c_str(), 8, v); storev(bin(K::Add, a[0], C(i), 64), v, 8); } done(in, C(0)); });
    def("sym_choose", [=](Inst& in, A& a) {
        u64 n = concretize(a[0], 64); std::string nm = rdStr((u64)a[1].c); if (n == 0) fail("harness", "sym_choose(0)", true); u32 ord = S->nIn++; (void)ord;
        for (u64 i = n; i-- > 1;) { State* s = fork(); State* sv = S; S = s; s->in.push_back({nm, 32, true, i, 0}); done(in, C(i)); S = sv; push(s); }
        S->in.push_back({nm, 32, true, 0, 0}); done(in, C(0)); });
    def("sym_assume", [=](Inst& in, A& a) {
        Val c = a[0]; if (c.e) { E e = mkNot(mkEq(c.e, mkConst(0, c.e->w))); if (e->k == K::Const) c = C(e->c); else { if (eval(e, S->m, newStamp())) { addC(S, e); } else { Model m2; if (!mayBe(S, e, &m2)) { nAssumeEnd++; endPath(); } S->m = std::move(m2); addC(S, e); } done(in, C(0)); return; } }
        if (!c.c) { nAssumeEnd++; endPath(); } done(in, C(0)); });
    def("sym_assert", [=](Inst& in, A& a) {
        Val c = a[0]; nAsserts++; std::string lb = rdStr((u64)a[1].c); reach["assert:" + lb]++;
        if (!c.e) { nAssertTrivial++; if (!c.c) fail("assert", lb); done(in, C(0)); return; }
        E ne = mkEq(c.e, mkConst(0, c.e->w)); Model m2;
        if (ne->k == K::Const ? ne->c != 0 : mayBe(S, ne, &m2)) { if (ne->k == K::Const) m2 = S->m; record("assert", lb, false, m2); nErrPaths++; E e = mkNot(ne); if (e->k == K::Const) endPath(); Model m3; if (!mayBe(S, e, &m3)) endPath(); S->m = std::move(m3); addC(S, e); }
        done(in, C(0)); });
    def("sym_reach", [=](Inst& in, A& a) { reach[rdStr((u64)a[0].c)]++; done(in, C(0)); });
    def("sym_observe", [=](Inst& in, A& a) { S->obs.push_back({rdStr((u64)a[0].c), a[1], 64}); done(in, C(0)); });
    def("sym_concretize", [=](Inst& in, A& a) { u64 v = concretize(a[0], 64); done(in, C(v)); });
    def("sym_stop", [=](Inst&, A&) { nAssumeEnd++; endPath(); });
    def("sym_native", [=](Inst& in, A&) { done(in, C(0)); });
    // logical operators without branching
    def("sym_and", [=](Inst& in, A& a) { done(in, bin(K::And, a[0], a[1], 1)); });
    def("sym_or", [=](Inst& in, A& a) { done(in, bin(K::Or, a[0], a[1], 1)); });
    def("sym_ite", [=](Inst& in, A& a) { done(in, ite(a[0], a[1], a[2], 64)); });
    // ---- libm on constants
    auto m1 = [=](const char* n, double (*f)(double)) { def(n, [=](Inst& in, A& a) { if (a[0].e) fail("unmodelled", std::string(n) + " on a symbolic argument", true); double d; u64 x = (u64)a[0].c; memcpy(&d, &x, 8); d = f(d); memcpy(&x, &d, 8); done(in, C(x)); }); };
    m1("log", std::log); m1("log10", std::log10); m1("log2", std::log2); m1("exp", std::exp); m1("log1p", std::log1p);
    def("pow", [=](Inst& in, A& a) { if (a[0].e || a[1].e) fail("unmodelled", "pow on a symbolic argument", true); double d, e; u64 x = (u64)a[0].c, y = (u64)a[1].c; memcpy(&d, &x, 8); memcpy(&e, &y, 8); d = std::pow(d, e); memcpy(&x, &d, 8); done(in, C(x)); });
}
}

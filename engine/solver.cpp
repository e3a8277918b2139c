#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
namespace jsym {
std::vector<VarInfo> g_vars;
struct CacheEnt { Sat r; std::vector<std::pair<u32, u128>> m; };
struct Solver::Impl {
    Z3_context c; Z3_solver bv, fp, quick; unsigned timeout;
    std::vector<Z3_ast> bvAst, boolAst; // by expr id
    std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, CacheEnt>>> cache;
    Z3_sort s32, s64; Z3_ast rne, rtz; 
    std::vector<Model> recent; size_t rpos = 0;
    // terms over a single variable of at most 8 bits: complete truth table
    static constexpr int kNone = -2, kMulti = -1;
    std::vector<int> sv1; std::vector<signed char> sv1done; std::unordered_map<u32, std::array<u64, 4>> tab;
    int single(E e) { // variable id, kNone (constant) or kMulti
        if (e->id < sv1done.size() && sv1done[e->id]) return sv1[e->id];
        int r = kNone;
        if (e->k == K::Var) r = e->w <= 8 ? (int)e->aux : kMulti;
        else for (int i = 0; i < 3 && r != kMulti; i++) if (e->a[i]) { int x = single(e->a[i]); if (x == kNone) continue; if (r == kNone) r = x; else if (r != x) r = kMulti; }
        if (e->id >= sv1done.size()) { sv1done.resize(exprCount() + 1024, 0); sv1.resize(sv1done.size(), 0); }
        sv1[e->id] = r; sv1done[e->id] = 1; return r; }
    const std::array<u64, 4>& table(E e, u32 var) {
        auto it = tab.find(e->id); if (it != tab.end()) return it->second;
        std::array<u64, 4> t{}; Model mm; unsigned n = 1u << g_vars[var].w; for (unsigned v = 0; v < n; v++) { mm.set(var, v); if (eval(e, mm, newStamp())) t[v >> 6] |= 1ULL << (v & 63); }
        return tab.emplace(e->id, t).first->second; }
    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
    Impl(unsigned t) : timeout(t) {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        c = Z3_mk_context(cfg); Z3_del_config(cfg);
        Z3_set_error_handler(c, onErr);
        bv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, bv);
        fp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BVFP")); Z3_solver_inc_ref(c, fp);
        Z3_params ps = Z3_mk_params(c); Z3_params_inc_ref(c, ps);
        Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), timeout);
        Z3_solver_set_params(c, bv, ps); Z3_solver_set_params(c, fp, ps);
        Z3_params_dec_ref(c, ps);
        quick = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, quick); ps = Z3_mk_params(c); Z3_params_inc_ref(c, ps); Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "rlimit"), getenv("JSYM_RL") ? (unsigned)atoi(getenv("JSYM_RL")) : 400000); Z3_solver_set_params(c, quick, ps); Z3_params_dec_ref(c, ps);
        s32 = Z3_mk_fpa_sort_single(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s32));
        s64 = Z3_mk_fpa_sort_double(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s64));
        rne = Z3_mk_fpa_rne(c); Z3_inc_ref(c, rne);
        rtz = Z3_mk_fpa_rtz(c); Z3_inc_ref(c, rtz);
    }
    Z3_ast keep(std::vector<Z3_ast>& v, E e, Z3_ast a) {
        Z3_inc_ref(c, a); if (e->id >= v.size()) v.resize(exprCount() + 1024, nullptr); v[e->id] = a; return a; }
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(c, w); }
    Z3_ast num(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, bvs(w));
        Z3_ast h = Z3_mk_unsigned_int64(c, (u64)(v >> 64), bvs(w - 64)), l = Z3_mk_unsigned_int64(c, (u64)v, bvs(64));
        Z3_inc_ref(c, h); Z3_inc_ref(c, l); Z3_ast r = Z3_mk_concat(c, h, l); return r; }
    // bool view of a width-1 term
    Z3_ast B(E e) {
        if (e->id < boolAst.size() && boolAst[e->id]) return boolAst[e->id];
        Z3_ast r; 
        switch (e->k) {
        case K::Const: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case K::And: { Z3_ast x[2] = {B(e->a[0]), B(e->a[1])}; r = Z3_mk_and(c, 2, x); break; }
        case K::Or: { Z3_ast x[2] = {B(e->a[0]), B(e->a[1])}; r = Z3_mk_or(c, 2, x); break; }
        case K::Xor: if (e->a[1]->k == K::Const && e->a[1]->c) r = Z3_mk_not(c, B(e->a[0])); else { Z3_ast x = B(e->a[0]), y = B(e->a[1]); r = Z3_mk_xor(c, x, y); } break;
        case K::Ite: { Z3_ast x = B(e->a[0]), y = B(e->a[1]), z = B(e->a[2]); r = Z3_mk_ite(c, x, y, z); break; }
        case K::Eq: if (e->a[0]->w == 1) { Z3_ast x = B(e->a[0]), y = B(e->a[1]); r = Z3_mk_iff(c, x, y); } else { Z3_ast x = V(e->a[0]), y = V(e->a[1]); r = Z3_mk_eq(c, x, y); } break;
        case K::Ult: { Z3_ast x = V(e->a[0]), y = V(e->a[1]); r = Z3_mk_bvult(c, x, y); break; }
        case K::Ule: { Z3_ast x = V(e->a[0]), y = V(e->a[1]); r = Z3_mk_bvule(c, x, y); break; }
        case K::Slt: { Z3_ast x = V(e->a[0]), y = V(e->a[1]); r = Z3_mk_bvslt(c, x, y); break; }
        case K::Sle: { Z3_ast x = V(e->a[0]), y = V(e->a[1]); r = Z3_mk_bvsle(c, x, y); break; }
        case K::FEq: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_eq(c, x, y); break; }
        case K::FLt: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_lt(c, x, y); break; }
        case K::FLe: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_leq(c, x, y); break; }
        case K::FUno: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); Z3_ast n[2] = {Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)}; r = Z3_mk_or(c, 2, n); break; }
        default: { Z3_ast x = V(e); Z3_ast one = num(1, 1); r = Z3_mk_eq(c, x, one); break; }
        }
        return keep(boolAst, e, r);
    }
    std::unordered_map<u32, Z3_ast> fpAst;
    Z3_ast F(E e) { // fp view of a bv term
        auto it = fpAst.find(e->id); if (it != fpAst.end()) return it->second;
        Z3_ast r; Z3_sort s = e->w == 64 ? s64 : s32;
        switch (e->k) {
        case K::FAdd: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_add(c, rne, x, y); break; }
        case K::FSub: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_sub(c, rne, x, y); break; }
        case K::FMul: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_mul(c, rne, x, y); break; }
        case K::FDiv: { Z3_ast x = F(e->a[0]), y = F(e->a[1]); r = Z3_mk_fpa_div(c, rne, x, y); break; }
        case K::FSqrt: { Z3_ast x = F(e->a[0]); r = Z3_mk_fpa_sqrt(c, rne, x); break; }
        case K::FFma: { Z3_ast x = F(e->a[0]), y = F(e->a[1]), z = F(e->a[2]); r = Z3_mk_fpa_fma(c, rne, x, y, z); break; }
        case K::FRnd: { Z3_ast x = F(e->a[0]); Z3_ast m = e->aux == 0 ? rne : e->aux == 1 ? Z3_mk_fpa_rtn(c) : e->aux == 2 ? Z3_mk_fpa_rtp(c) : e->aux == 3 ? rtz : Z3_mk_fpa_rna(c); r = Z3_mk_fpa_round_to_integral(c, m, x); break; }
        case K::FConv: { Z3_ast x = F(e->a[0]); r = Z3_mk_fpa_to_fp_float(c, rne, x, s); break; }
        case K::SToF: { Z3_ast x = V(e->a[0]); r = Z3_mk_fpa_to_fp_signed(c, rne, x, s); break; }
        case K::UToF: { Z3_ast x = V(e->a[0]); r = Z3_mk_fpa_to_fp_unsigned(c, rne, x, s); break; }
        case K::Ite: if (e->a[1]->k >= K::FAdd || e->a[2]->k >= K::FAdd) { Z3_ast q = B(e->a[0]), x = F(e->a[1]), y = F(e->a[2]); r = Z3_mk_ite(c, q, x, y); break; } [[fallthrough]];
        default: { Z3_ast x = V(e); r = Z3_mk_fpa_to_fp_bv(c, x, s); break; }
        }
        Z3_inc_ref(c, r); fpAst[e->id] = r; return r;
    }
    Z3_ast fpnum(double d, unsigned w) { return w == 64 ? Z3_mk_fpa_numeral_double(c, d, s64) : Z3_mk_fpa_numeral_double(c, d, s32); }
    // division by a constant: fresh quotient and remainder with their defining constraint
    std::unordered_map<u32, Z3_ast> side; std::unordered_map<u32, char> divDone;
    Z3_ast inc(Z3_ast a) { Z3_inc_ref(c, a); return a; }
    static bool byConst(E e) { return (e->k == K::UDiv || e->k == K::URem || e->k == K::SDiv || e->k == K::SRem) && e->w > 8 && e->a[1]->k == K::Const && e->a[1]->c > 1 && e->a[1]->c < (u128(1) << (e->w / 2)) && e->w <= 64; }
    Z3_ast divide(E e, Z3_ast x) {
        bool sg = e->k == K::SDiv || e->k == K::SRem; unsigned w = e->w, bl = 0; u128 d = e->a[1]->c; while (d >> bl) bl++;
        unsigned qw = w - bl + 1 + sg, rw = bl + sg, W = w + (sg ? 3 : 1); auto* xt = sg ? Z3_mk_sign_ext : Z3_mk_zero_ext;
        Z3_ast q = inc(Z3_mk_fresh_const(c, "q", bvs(qw))), r = inc(Z3_mk_fresh_const(c, "r", bvs(rw)));
        Z3_ast X = inc(xt(c, W - w, x)), Q = inc(xt(c, W - qw, q)), R = inc(xt(c, W - rw, r)), D = inc(num(d, W)), P = inc(Z3_mk_bvmul(c, Q, D)), S = inc(Z3_mk_bvadd(c, P, R));
        Z3_ast cs[4] = {inc(Z3_mk_eq(c, S, X)), nullptr, nullptr, nullptr}; unsigned n = 1;
        if (!sg) cs[n++] = inc(Z3_mk_bvult(c, r, inc(num(d, rw))));
        else { Z3_ast z = inc(num(0, w)), zr = inc(num(0, rw)), neg = inc(Z3_mk_bvslt(c, x, z)), dr = inc(num(d, rw)), md = inc(num(-d & mask(rw), rw));
            Z3_ast a[2] = {inc(Z3_mk_bvsle(c, r, zr)), inc(Z3_mk_bvslt(c, md, r))}, b[2] = {inc(Z3_mk_bvsge(c, r, zr)), inc(Z3_mk_bvslt(c, r, dr))};
            cs[n++] = inc(Z3_mk_ite(c, neg, inc(Z3_mk_and(c, 2, a)), inc(Z3_mk_and(c, 2, b)))); }
        side[e->id] = inc(Z3_mk_and(c, n, cs));
        bool quo = e->k == K::UDiv || e->k == K::SDiv; return quo ? (qw >= w ? Z3_mk_extract(c, w - 1, 0, q) : xt(c, w - qw, q)) : (rw >= w ? Z3_mk_extract(c, w - 1, 0, r) : xt(c, w - rw, r)); }
    bool hasDiv(E e) { auto it = divDone.find(e->id); if (it != divDone.end()) return it->second; bool r = byConst(e); for (int i = 0; i < 3; i++) if (e->a[i] && hasDiv(e->a[i])) r = true; return divDone[e->id] = r; }
    void sides(E e, Z3_solver sv, std::unordered_map<u32, char>& seen) { if (!hasDiv(e) || !seen.emplace(e->id, 1).second) return; if (byConst(e)) { V(e); Z3_solver_assert(c, sv, side.at(e->id)); } for (int i = 0; i < 3; i++) if (e->a[i]) sides(e->a[i], sv, seen); }
    void addAll(const std::vector<E>& cs, Z3_solver sv) { std::unordered_map<u32, char> seen; for (E e : cs) { Z3_solver_assert(c, sv, B(e)); sides(e, sv, seen); } }
    Z3_ast V(E e) {
        if (e->id < bvAst.size() && bvAst[e->id]) return bvAst[e->id];
        Z3_ast r; 
        Z3_ast x = nullptr, y = nullptr;
        auto bin = [&] { x = V(e->a[0]); y = V(e->a[1]); };
        switch (e->k) {
        case K::Const: r = num(e->c, e->w); break;
        case K::Var: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->aux); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bvs(e->w)); break; }
        case K::Add: bin(); r = Z3_mk_bvadd(c, x, y); break;
        case K::Sub: bin(); r = Z3_mk_bvsub(c, x, y); break;
        case K::Mul: bin(); r = Z3_mk_bvmul(c, x, y); break;
        case K::UDiv: bin(); if (byConst(e)) { r = divide(e, x); break; } r = Z3_mk_bvudiv(c, x, y); break;
        case K::SDiv: bin(); if (byConst(e)) { r = divide(e, x); break; } r = Z3_mk_bvsdiv(c, x, y); break;
        case K::URem: bin(); if (byConst(e)) { r = divide(e, x); break; } r = Z3_mk_bvurem(c, x, y); break;
        case K::SRem: bin(); if (byConst(e)) { r = divide(e, x); break; } r = Z3_mk_bvsrem(c, x, y); break;
        case K::Shl: bin(); r = Z3_mk_bvshl(c, x, y); break;
        case K::LShr: bin(); r = Z3_mk_bvlshr(c, x, y); break;
        case K::AShr: bin(); r = Z3_mk_bvashr(c, x, y); break;
        case K::Concat: bin(); r = Z3_mk_concat(c, x, y); break;
        case K::Extract: x = V(e->a[0]); r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, x); break;
        case K::ZExt: x = V(e->a[0]); r = Z3_mk_zero_ext(c, e->w - e->a[0]->w, x); break;
        case K::SExt: x = V(e->a[0]); r = Z3_mk_sign_ext(c, e->w - e->a[0]->w, x); break;
        case K::FToS: case K::FToU: { // total: out of range -> indefinite, as in eval
            Z3_ast f = F(e->a[0]); unsigned fw = e->a[0]->w; bool sg = e->k == K::FToS;
            double hi = sg ? __builtin_ldexp(1.0, (int)e->w - 1) : __builtin_ldexp(1.0, (int)e->w);
            Z3_ast t = Z3_mk_fpa_round_to_integral(c, rtz, f); Z3_inc_ref(c, t);
            Z3_ast h = fpnum(hi, fw); Z3_inc_ref(c, h);
            Z3_ast l = fpnum(sg ? -hi : 0.0, fw); Z3_inc_ref(c, l);
            Z3_ast cc[2] = {Z3_mk_fpa_lt(c, t, h), Z3_mk_fpa_geq(c, t, l)}; Z3_inc_ref(c, cc[0]); Z3_inc_ref(c, cc[1]);
            Z3_ast in = Z3_mk_and(c, 2, cc); Z3_inc_ref(c, in);
            Z3_ast v = sg ? Z3_mk_fpa_to_sbv(c, rtz, f, e->w) : Z3_mk_fpa_to_ubv(c, rtz, f, e->w); Z3_inc_ref(c, v);
            r = Z3_mk_ite(c, in, v, num(sg ? u128(1) << (e->w - 1) : mask(e->w), e->w)); break; }
        case K::And: case K::Or: case K::Xor:
            if (e->w > 1) { bin(); r = e->k == K::And ? Z3_mk_bvand(c, x, y) : e->k == K::Or ? Z3_mk_bvor(c, x, y) : Z3_mk_bvxor(c, x, y); break; }
            [[fallthrough]];
        case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::FEq: case K::FLt: case K::FLe: case K::FUno: {
            Z3_ast b = B(e); Z3_ast o = num(1, 1); Z3_inc_ref(c, o); Z3_ast z = num(0, 1); Z3_inc_ref(c, z); r = Z3_mk_ite(c, b, o, z); break; }
        case K::Ite: { Z3_ast b = B(e->a[0]); x = V(e->a[1]); y = V(e->a[2]); r = Z3_mk_ite(c, b, x, y); break; }
        case K::FRem: fprintf(stderr, "jsym: FRem unsupported\n"); r = Z3_mk_fresh_const(c, "frem", bvs(e->w)); break;
        default: { Z3_ast f = F(e); r = Z3_mk_fpa_to_ieee_bv(c, f); break; }
        }
        return keep(bvAst, e, r);
    }
};
Solver::Solver(unsigned t) : p(new Impl(t)) {}
Solver::~Solver() {}
static bool inter(const std::array<u64, 4>& a, const std::array<u64, 4>& b) { return (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]); }
Sat Solver::check(const Cons& pc, E q, Model& m) {
    st.queries++;
    if (q->k == K::Const) return q->c ? Sat::Yes : Sat::No;
    if (eval(q, m, newStamp())) { st.modelHits++; return Sat::Yes; }
    // slice
    std::array<u64, 4> s = q->sup; std::vector<char> in(pc.size(), 0); std::vector<E> cs{q};
    for (bool ch = true; ch;) { ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!in[i] && inter(pc[i]->sup, s)) { in[i] = 1; cs.push_back(pc[i]); for (int j = 0; j < 4; j++) { if (pc[i]->sup[j] & ~s[j]) ch = true; s[j] |= pc[i]->sup[j]; } } }
    std::vector<u32> key; for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    u64 h = 1469598103934665603ULL; for (u32 k : key) { h ^= k; h *= 1099511628211ULL; h ^= h >> 29; }
    auto apply = [&](const CacheEnt& ce) { for (auto& kv : ce.m) m.set(kv.first, kv.second); };
    auto& bucket = p->cache[h];
    for (auto& b : bucket) if (b.first == key) { st.cacheHits++; if (b.second.r == Sat::Yes) apply(b.second); return b.second.r; }
    { // finite-domain layer: conjuncts over one narrow variable each
        std::vector<std::pair<u32, std::array<u64, 4>>> dom; bool multi = false;
        for (E e : cs) { int v = p->single(e); if (v == Impl::kNone) { if (!eval(e, m, newStamp())) { st.table++; return Sat::No; } continue; } if (v == Impl::kMulti) { multi = true; continue; }
            auto& t = p->table(e, (u32)v); bool f = false; for (auto& d : dom) if (d.first == (u32)v) { for (int j = 0; j < 4; j++) d.second[j] &= t[j]; f = true; } if (!f) dom.emplace_back((u32)v, t); }
        for (auto& d : dom) if (!(d.second[0] | d.second[1] | d.second[2] | d.second[3])) { st.table++; bucket.emplace_back(key, CacheEnt{Sat::No, {}}); return Sat::No; }
        if (!multi) { CacheEnt ce{Sat::Yes, {}}; for (auto& d : dom) { unsigned cur = (unsigned)m.get(d.first) & 255; if (!(d.second[cur >> 6] >> (cur & 63) & 1)) { for (cur = 0; cur < 256; cur++) if (d.second[cur >> 6] >> (cur & 63) & 1) break; } ce.m.emplace_back(d.first, cur); }
            st.table++; apply(ce); bucket.emplace_back(key, ce); return Sat::Yes; }
    }
    // recent models
    for (auto& rm : p->recent) { u64 stp = newStamp(); bool ok = true; for (E e : cs) if (!eval(e, rm, stp)) { ok = false; break; }
        if (ok) { st.modelHits++; CacheEnt ce{Sat::Yes, {}}; for (size_t i = 0; i < g_vars.size(); i++) if (s[(i >> 6) & 3] >> (i & 63) & 1) ce.m.emplace_back((u32)i, rm.get((u32)i)); apply(ce); bucket.emplace_back(key, ce); return Sat::Yes; } }
    auto t0 = std::chrono::steady_clock::now();
    Impl& I = *p; bool fp = false; for (E e : cs) fp |= e->fp;
    Z3_solver sv = fp ? I.fp : I.bv; bool popq = false;
    Z3_lbool r = Z3_L_UNDEF;
    if (!fp) { sv = I.quick; Z3_solver_push(I.c, sv); I.addAll(cs, sv); r = Z3_solver_check(I.c, sv); popq = true; if (r == Z3_L_UNDEF) { Z3_solver_pop(I.c, sv, 1); popq = false; sv = I.bv; st.slow++; } }
    if (r == Z3_L_UNDEF) { Z3_solver_reset(I.c, sv); I.addAll(cs, sv); r = Z3_solver_check(I.c, sv); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt; if (dt > st.maxTime) st.maxTime = dt; st.z3++;
    if (crosscheckEvery && !crosscheckDir.empty() && st.z3 % crosscheckEvery == 0 && r != Z3_L_UNDEF) {
        char fn[256]; snprintf(fn, sizeof fn, "%s/q%llu.%s.smt2", crosscheckDir.c_str(), (unsigned long long)st.z3, r == Z3_L_TRUE ? "sat" : "unsat");
        if (FILE* f = fopen(fn, "w")) { fprintf(f, "(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", Z3_solver_to_string(I.c, sv)); fclose(f); } }
    CacheEnt ce; 
    if (r == Z3_L_TRUE) {
        st.sat++; ce.r = Sat::Yes;
        Z3_model zm = Z3_solver_get_model(I.c, sv); Z3_model_inc_ref(I.c, zm);
        for (size_t i = 0; i < g_vars.size(); i++) if (s[(i >> 6) & 3] >> (i & 63) & 1) {
            E v = mkVar((u32)i, g_vars[i].w); u128 val = 0;
            auto part = [&](E x) -> u64 { Z3_ast o; if (!Z3_model_eval(I.c, zm, I.V(x), false, &o)) return 0; u64 u = 0; if (Z3_get_ast_kind(I.c, o) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(I.c, o, (uint64_t*)&u); return u; };
            if (v->w <= 64) val = part(v); else val = ((u128)part(mkExtract(v, 64, v->w - 64)) << 64) | part(mkExtract(v, 0, 64));
            ce.m.emplace_back((u32)i, val);
        }
        Z3_model_dec_ref(I.c, zm);
        apply(ce);
        u64 stp = newStamp(); for (E e : cs) if (!eval(e, m, stp)) { if (!fp) { mismatch = true; fprintf(stderr, "jsym: MODEL MISMATCH on %s\n", str(e, 8).c_str()); } ce.r = fp ? Sat::Unknown : ce.r; }
        if (ce.r == Sat::Unknown) st.unknown++;
        if (I.recent.size() < 16) I.recent.push_back(m); else { I.recent[I.rpos++ % 16] = m; }
    } else if (r == Z3_L_FALSE) { st.unsat++; ce.r = Sat::No; }
    else { st.unknown++; ce.r = Sat::Unknown; }
    if (popq) Z3_solver_pop(I.c, I.quick, 1);
    p->cache[h].emplace_back(key, ce);
    return ce.r;
}
}

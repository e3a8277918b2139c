// jsym: expression DAG (hash-consed bit-vector terms) and its evaluation
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
namespace jsym {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

enum class K : u8 {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRnd, FToS, FToU, SToF, UToF, FConv, FEq, FLt, FLe, FUno, FFma
};
struct Expr;
using E = const Expr*;
struct Expr {
    K k; u8 w; bool fp;          // w: 1..128
    u32 id; u32 aux;             // aux: extract low bit / var id / rounding mode
    u32 size;                    // rough dag size
    E a[3];
    u128 c;                      // constant
    std::array<u64, 4> sup;      // support (hashed variable set)
    mutable u64 stamp{0}; mutable u128 ev{0};
};
inline u128 mask(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = u128(1) << (w - 1); v &= mask(w); return (i128)((v ^ m) - m); }
struct Value { // u128 c or symbolic
    u128 c{0}; E e{nullptr};
    bool conc() const { return !e; }
};
struct VarInfo { std::string name; unsigned w; int kind; /*0 input, 1 internal (uninit)*/ };

struct Model { // assignment, absent = 0
    std::vector<u128> v;
    u128 get(u32 id) const { return id < v.size() ? v[id] : 0; }
    void set(u32 id, u128 x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};

// builders
E mkConst(u128 c, unsigned w);
E mkVar(u32 id, unsigned w);
E mkBin(K k, E a, E b);
E mkNot(E a);                    // bitwise
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkF(K k, E a, E b, E c3, unsigned w, u32 aux = 0);
E mkAnd1(E a, E b); E mkOr1(E a, E b);
E extTrue(); E extFalse();
unsigned activeBits(E e);        // upper bound on number of significant low bits
u128 eval(E e, const Model& m, u64 stamp);
u64 newStamp();
std::string str(E e, int depth = 6);
u64 exprCount();
u128 evalOp(K k, unsigned w, u32 aux, const u128* v, const unsigned* ws);
}

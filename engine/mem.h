// jsym: memory objects (copy-on-write, byte granular, symbolic bytes)
#pragma once
#include "expr.h"
#include <algorithm>
#include <utility>
namespace jsym {
template <class T> struct Ref { // intrusive non-atomic refcount
    T* p{nullptr};
    Ref() = default; explicit Ref(T* q) : p(q) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
    T* own() { if (p->rc > 1) { T* q = new T(*p); q->rc = 1; --p->rc; p = q; } return p; }
};
constexpr unsigned CH = 64;
struct Chunk {
    int rc{0}; u8 b[CH]; u64 uninit; E* sym{nullptr};
    Chunk() : uninit(~0ULL) { memset(b, 0, CH); }
    Chunk(const Chunk& o) : rc(0), uninit(o.uninit) { memcpy(b, o.b, CH); if (o.sym) { sym = new E[CH]; memcpy(sym, o.sym, sizeof(E) * CH); } }
    ~Chunk() { delete[] sym; }
};
struct Block { int rc{0}; Ref<Chunk> c[64]; Block() {} Block(const Block& o) : rc(0) { for (int i = 0; i < 64; i++) c[i] = o.c[i]; } };
enum class OK_ : u8 { Heap, Stack, Global, Const, Func };
struct Object {
    int rc{0}; u64 base{0}, size{0}; OK_ kind{OK_::Heap}; bool zero{false}; const char* tag{""};
    std::vector<Ref<Block>> blk;
    Object() {}
    Object(const Object& o) : rc(0), base(o.base), size(o.size), kind(o.kind), zero(o.zero), tag(o.tag), blk(o.blk) {}
    void init() { blk.resize((size + CH * 64 - 1) / (CH * 64)); }
    const Chunk* chunk(u64 off) const { auto& b = blk[off / (CH * 64)]; if (!b) return nullptr; return b->c[(off / CH) % 64].p; }
    Chunk* wchunk(u64 off) {
        auto& b = blk[off / (CH * 64)]; if (!b) b = Ref<Block>(new Block); Block* bp = b.own();
        auto& c = bp->c[(off / CH) % 64]; if (!c) { c = Ref<Chunk>(new Chunk); if (zero) c->uninit = 0; return c.p; } return c.own();
    }
    // returns 0 concrete, 1 symbolic, 2 uninit
    int getb(u64 off, u8& v, E& e) const {
        const Chunk* c = chunk(off); if (!c) { v = 0; return zero ? 0 : 2; }
        unsigned i = off % CH; if (c->uninit >> i & 1) { v = 0; return 2; }
        if (c->sym && c->sym[i]) { e = c->sym[i]; return 1; }
        v = c->b[i]; return 0;
    }
    void setb(u64 off, u8 v) { Chunk* c = wchunk(off); unsigned i = off % CH; c->b[i] = v; c->uninit &= ~(1ULL << i); if (c->sym) c->sym[i] = nullptr; }
    void sete(u64 off, E e) { if (e->k == K::Const) { setb(off, (u8)e->c); return; }
        Chunk* c = wchunk(off); unsigned i = off % CH; if (!c->sym) { c->sym = new E[CH]; memset((void*)c->sym, 0, sizeof(E) * CH); } c->sym[i] = e; c->uninit &= ~(1ULL << i); }
    void setu(u64 off) { Chunk* c = wchunk(off); unsigned i = off % CH; c->uninit |= 1ULL << i; if (c->sym) c->sym[i] = nullptr; }
    bool allConc(u64 off, u64 n) const { for (u64 i = off; i < off + n;) { const Chunk* c = chunk(i); u64 e = std::min(off + n, (i / CH + 1) * CH); if (!c) { if (!zero) return false; } else { for (u64 j = i; j < e; j++) if ((c->uninit >> (j % CH) & 1) || (c->sym && c->sym[j % CH])) return false; } i = e; } return true; }
};
using ObjRef = Ref<Object>;
struct ObjTable { // sorted by base
    std::vector<std::pair<u64, ObjRef>> v;
    size_t upper(u64 a) const { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].first <= a) lo = m + 1; else hi = m; } return lo; }
    ObjRef* find(u64 a) { size_t i = upper(a); if (!i) return nullptr; auto& o = v[i - 1].second; if (a - o->base < o->size || (o->size == 0 && a == o->base)) return &o; return nullptr; }
    void insert(ObjRef o) { u64 b = o->base; size_t i = upper(b); if (i && v[i - 1].first == b) v[i - 1].second = std::move(o); else v.insert(v.begin() + i, {b, std::move(o)}); }
    bool erase(u64 b) { size_t i = upper(b); if (!i || v[i - 1].first != b) return false; v.erase(v.begin() + (i - 1)); return true; }
};
}

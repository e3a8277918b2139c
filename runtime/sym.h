// harness API: the same harness source is compiled for the symbolic engine (builtins)
// and natively (runtime/native.cpp reads the values from a replay file).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
extern "C" {
uint64_t sym_var(const char* name, unsigned bits);
int sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_choose(uint64_t n, const char* name);
int sym_assume(bool c);
int sym_assert(bool c, const char* label);
int sym_reach(const char* label);
int sym_observe(const char* name, uint64_t v);
uint64_t sym_concretize(uint64_t v);
int sym_stop();
int sym_native();            // 1 in the native replay build
int jsym_spawn(void (*f)(void*), void* a);
int jsym_join_all();
int jsym_tid();
int jsym_asleep(int tid);   // the thread sleeps on a condition variable
bool sym_and(bool a, bool b);
bool sym_or(bool a, bool b);
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);
}
inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_var(n, 8); }
inline uint16_t sym_u16(const char* n) { return (uint16_t)sym_var(n, 16); }
inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_var(n, 32); }
inline uint64_t sym_u64(const char* n) { return sym_var(n, 64); }
inline int8_t sym_i8(const char* n) { return (int8_t)sym_u8(n); }
inline int16_t sym_i16(const char* n) { return (int16_t)sym_u16(n); }
inline int32_t sym_i32(const char* n) { return (int32_t)sym_u32(n); }
inline int64_t sym_i64(const char* n) { return (int64_t)sym_u64(n); }
inline bool sym_bool(const char* n) { return sym_var(n, 1) != 0; }
inline float sym_f32(const char* n) { uint32_t u = sym_u32(n); float f; std::memcpy(&f, &u, 4); return f; }
inline double sym_f64(const char* n) { uint64_t u = sym_u64(n); double f; std::memcpy(&f, &u, 8); return f; }
inline int64_t sym_range(const char* n, int64_t lo, int64_t hi) { int64_t v = sym_i64(n); sym_assume(v >= lo && v <= hi); return v; } // symbolic
inline size_t sym_size(const char* n, size_t lo, size_t hi) { return lo + (size_t)sym_choose(hi - lo + 1, n); }                     // enumerated by forking
// exact-size heap buffer: any access outside is an error (engine bounds check, ASan natively)
struct sym_buf {
    char* p; size_t n;
    explicit sym_buf(size_t len, const char* nm) : p((char*)::operator new(len)), n(len) { if (n) sym_bytes(p, n, nm); }
    struct raw {};
    sym_buf(size_t len, raw) : p((char*)::operator new(len)), n(len) {}
    sym_buf(const sym_buf&) = delete; sym_buf& operator=(const sym_buf&) = delete;
    ~sym_buf() { ::operator delete(p); }
    std::string str() const { return std::string(p, n); }
    uint8_t operator[](size_t i) const { return (uint8_t)p[i]; }
};
inline std::string sym_string(size_t len, const char* nm) { std::string s(len, '\0'); if (len) sym_bytes(&s[0], len, nm); return s; }
// branch-free byte comparison
inline bool sym_eq(const void* a, const void* b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = sym_and(r, ((const unsigned char*)a)[i] == ((const unsigned char*)b)[i]); return r; }
template <class S1, class S2> bool sym_same(const S1& a, const S2& b) { return a.size() == b.size() && sym_eq(a.data(), b.data(), a.size()); }
inline void sym_observe_bytes(const char* n, const void* p, size_t len) { uint64_t h = 1469598103934665603ULL ^ len; for (size_t i = 0; i < len; i++) { h ^= ((const unsigned char*)p)[i]; h = (h << 7) | (h >> 57); h += 0x9e37; } sym_observe(n, h); }
#define SYM_ASSERT(c) sym_assert((c), #c)
#define HARNESS(name) extern "C" void name()
#ifdef JSYM_THOROUGH
#define QT(q, t) (t)
#else
#define QT(q, t) (q)
#endif

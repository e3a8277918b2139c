// 16-byte atomics go through libatomic's generic entry points; here each is one scheduling point followed by one step
#pragma once
#include <atomic>
#include <cstring>
namespace jwa { inline std::atomic<int> step{}; }
extern "C" { bool jwa_cas(size_t n, void* p, void* e, void* d, int, int) asm("__atomic_compare_exchange"); void jwa_load(size_t n, void* p, void* r, int) asm("__atomic_load"); void jwa_store(size_t n, void* p, void* v, int) asm("__atomic_store");
bool jwa_cas(size_t n, void* p, void* e, void* d, int, int) { jwa::step.fetch_add(1); if (memcmp(p, e, n) == 0) { memcpy(p, d, n); return true; } memcpy(e, p, n); return false; }
void jwa_load(size_t n, void* p, void* r, int) { jwa::step.fetch_add(1); memcpy(r, p, n); }
void jwa_store(size_t n, void* p, void* v, int) { jwa::step.fetch_add(1); memcpy(p, v, n); } }

// aligned_alloc of the code under test: natively returns addresses that have the requested alignment and, where possible, no larger one,
// so that a block allocated with too small an alignment does not get a suitable address by luck
#pragma once
#include <cstdlib>
#include <vector>
#include <cstdint>
#include "sym.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define EXACT_ALIGN_ASAN 1
#endif
#endif
extern "C" inline void* exact_aligned_alloc(size_t al, size_t n) {
    if (!sym_native()) return (aligned_alloc)(al, n);
    std::vector<void*> junk; void* r = nullptr;
    for (size_t k = 0; k < 24 && !r; k++) { size_t extra = (k % 6) * (al < 16 ? 16 : al); void* p = (aligned_alloc)(al, n + extra); if (reinterpret_cast<uintptr_t>(p) % (2 * al) || k == 23) { r = p;
#ifdef EXACT_ALIGN_ASAN
        if (extra) { ASAN_POISON_MEMORY_REGION(static_cast<char*>(p) + n, extra); }
#endif
        } else junk.push_back(p); }
    for (void* p : junk) free(p);
    return r;
}
namespace std { using ::exact_aligned_alloc; }
#define aligned_alloc(a, b) exact_aligned_alloc(a, b)

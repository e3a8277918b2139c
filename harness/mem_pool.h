// page source for the page pool: mmap/munmap of the pool are renamed (-Dmmap=jsym_mmap) and served here, NUMA placement is chosen by the harness
#pragma once
#define MEM_POOL_CONFIG
#include "sym.h"
#include <cstdlib>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
struct mem_pages {
    static inline uintptr_t pg[16]; static inline bool live[16]; static inline int n = 0; static inline int fail_from = 1 << 30; static inline int nodes = 1; static inline bool migrate = false, huge = false; /* huge pages available: then no message is logged */ static inline int calls = 0;
    static void reset(int nodes_ = 1) { n = 0; fail_from = 1 << 30; nodes = nodes_; migrate = false; calls = 0; }
    static int idx(uintptr_t a) { for (int i = 0; i < n; i++) if (live[i] && pg[i] == a) return i; for (int i = 0; i < n; i++) if (pg[i] == a) return i; return -1; }
    static int live_count() { int c = 0; for (int i = 0; i < n; i++) c += live[i]; return c; }
    // index of the live page that contains [a, a+len) entirely; branch-free over the symbolic address
    static bool inside(uintptr_t a, size_t len) { bool r = false; for (int i = 0; i < n; i++) if (live[i]) r = sym_or(r, sym_and(sym_and(a >= pg[i], a - pg[i] <= jogasaki::memory::page_size), sym_and(len <= jogasaki::memory::page_size, a - pg[i] + len <= jogasaki::memory::page_size))); return r; }
};
extern "C" void* jsym_mmap(void*, size_t len, int, int flags, int, long) noexcept { if ((flags & MAP_HUGETLB) && !mem_pages::huge) return MAP_FAILED; if (mem_pages::calls++ >= mem_pages::fail_from || mem_pages::n >= 16) return MAP_FAILED; void* p = std::aligned_alloc(4096, len); mem_pages::pg[mem_pages::n] = (uintptr_t)p; mem_pages::live[mem_pages::n++] = true; return p; }
extern "C" int jsym_munmap(void* p, size_t len) noexcept { int i = mem_pages::idx((uintptr_t)p); SYM_ASSERT(i >= 0 && mem_pages::live[i] && len == jogasaki::memory::page_size); if (i >= 0) mem_pages::live[i] = false; std::free(p); return 0; }
extern "C" int numa_num_configured_nodes(void) { return mem_pages::nodes; }
extern "C" int numa_node_of_cpu(int c) { return c; }
extern "C" int sched_getcpu(void) noexcept { return mem_pages::migrate ? (int)sym_choose((uint64_t)mem_pages::nodes, "cpu") : 0; }
// namespace scope, not function-local: a static guard would be a scheduling point of the engine that is not one natively
namespace jogasaki::global { inline std::shared_ptr<configuration> test_cfg_ = std::make_shared<configuration>(); inline takatori::util::maybe_shared_ptr<configuration> test_pool_{test_cfg_}; inline std::shared_ptr<configuration> test_cfg() { return test_cfg_; } takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { return test_pool_; } }

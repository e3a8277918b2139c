#pragma once
#include <jogasaki/memory/paged_memory_resource.h>
#include <new>
// memory resource that gives every block its own exactly sized allocation, so any access outside a block is detected
struct exact_resource : jogasaki::memory::paged_memory_resource {
    struct blk { void* raw; char* p; std::size_t n; }; std::vector<blk> blocks; std::size_t count{0}; bool keep{true};
    ~exact_resource() override { for (auto& b : blocks) ::operator delete(b.raw); }
    void end_current_page() override {}
    void release_all() { for (auto& b : blocks) ::operator delete(b.raw); blocks.clear(); }
protected:
    void* do_allocate(std::size_t n, std::size_t) override { count++; void* r = ::operator new(n); blocks.push_back({r, (char*)r, n}); return r; }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
};

// Base allocator handed to the library: checks alignment, sizes, double releases, leaks; fills memory with garbage.
#pragma once
#include <reactphysics3d/memory/MemoryAllocator.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include "pbt.h"

struct TrackingAllocator : public reactphysics3d::MemoryAllocator {
    std::unordered_map<void*, size_t> live;
    std::string error;
    unsigned char fill = 0xCD;
    size_t offset = 0;          // shifts addresses by a multiple of 16, to vary the layout
    size_t total = 0, peak = 0, calls = 0;
    explicit TrackingAllocator(unsigned char f = 0xCD, size_t off = 0) : fill(f), offset(off) {}
    void* allocate(size_t size) override {
        calls++;
        void* q = nullptr; if (posix_memalign(&q, 16, size + offset + (size + offset == 0)) != 0) q = nullptr;   // exact size: sanitizers watch the end of the block
        char* p = static_cast<char*>(q); if (!p) { error = "out of memory"; return nullptr; }
        std::memset(p, fill, size + offset);
        p += offset;
        live[p] = size; total += size; if (total > peak) peak = total;
        return p;
    }
    void release(void* pointer, size_t size) override {
        if (pointer == nullptr) return;
        auto it = live.find(pointer);
        if (it == live.end()) { if (error.empty()) error = "release of a block that is not allocated (double release or wrong pointer), size " + std::to_string(size); return; }
        bool wrong = it->second != size;
#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
        wrong = false;   // component arrays are released without their alignment margin, which the heap allocator ignores
#endif
        if (wrong && error.empty()) error = "block of " + std::to_string(it->second) + " bytes released with size " + std::to_string(size);
        std::memset(pointer, 0xDD, it->second);
        total -= it->second;
        std::free(static_cast<char*>(pointer) - offset);
        live.erase(it);
    }
    void verifyEmpty(pbt::Case& c, const char* what) {
        c.check(error.empty(), "%s: %s", what, error.c_str());
        c.check(live.empty(), "%s: %zu blocks (%zu bytes) never returned to the base allocator", what, live.size(), total);
    }
    ~TrackingAllocator() { for (auto& b : live) std::free(static_cast<char*>(b.first) - offset); }
};

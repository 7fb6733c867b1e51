#include <reactphysics3d/reactphysics3d.h>
#include <reactphysics3d/memory/HeapAllocator.h>
#include <reactphysics3d/memory/PoolAllocator.h>
#include <reactphysics3d/memory/SingleFrameAllocator.h>
#include <reactphysics3d/memory/MemoryManager.h>
#include <map>
#include <memory>
#include <vector>
#include "track.h"
using namespace reactphysics3d;
using pbt::Case;

// Shadow of the live blocks of one or several allocators sharing a base
struct Shadow {
    struct Blk { unsigned char* p; size_t size; unsigned char stamp; int owner; };
    std::map<uintptr_t, Blk> live; unsigned char next = 1;
    Case& c;
    explicit Shadow(Case& cc) : c(cc) {}
    static unsigned char at(const Blk& b, size_t i) { return static_cast<unsigned char>(b.stamp + i * 7 + (i >> 8)); }
    void verify(const Blk& b, const char* when) {
        size_t step = b.size > 4096 ? 61 : 1;
        for (size_t i = 0; i < b.size; i += step) c.check(b.p[i] == at(b, i), "%s: byte %zu of the live block of %zu bytes was overwritten", when, i, b.size);
        if (b.size) c.check(b.p[b.size - 1] == at(b, b.size - 1), "%s: last byte of the live block of %zu bytes was overwritten", when, b.size);
    }
    Blk* add(void* ptr, size_t size, int owner) {
        c.check(ptr != nullptr, "allocate(%zu) returned null", size);
        uintptr_t a = reinterpret_cast<uintptr_t>(ptr);
        c.check(a % 16 == 0, "allocate(%zu) returned a pointer that is not 16-byte aligned", size);
        auto it = live.upper_bound(a);
        if (it != live.end()) c.check(a + size <= it->first, "block of %zu bytes overlaps the following live block", size);
        if (it != live.begin()) { --it; c.check(it->first + it->second.size <= a, "block of %zu bytes overlaps the preceding live block of %zu bytes", size, it->second.size); }
        Blk b{static_cast<unsigned char*>(ptr), size, next++, owner};
        for (size_t i = 0; i < size; i++) b.p[i] = at(b, i);
        return &(live[a] = b);
    }
    std::map<uintptr_t, Blk>::iterator nth(size_t i) { auto it = live.begin(); std::advance(it, i); return it; }
    void verifyAll(const char* when) { for (auto& e : live) verify(e.second, when); }
};
static size_t sizeFor(Case& c, int mode) {
    size_t s;
    switch (mode) {
        case 0: s = c.intIn(1, 64); break;
        case 1: s = 16 * c.intIn(1, 130) + (c.chance(0.3) ? c.intIn(-1, 1) : 0); break;
        case 2: s = c.intIn(1, 3000); break;
        case 3: s = c.intIn(1900, 2200); break;
        default: s = static_cast<size_t>(c.logReal(1, 60000)); break;
    }
    return s < 1 ? 1 : s;
}
// All blocks must lie inside memory owned by the base allocator
static void insideBase(Case& c, TrackingAllocator& base, const void* p, size_t size) {
    bool ok = false; uintptr_t a = reinterpret_cast<uintptr_t>(p);
    for (auto& e : base.live) { uintptr_t b = reinterpret_cast<uintptr_t>(e.first); if (a >= b && a + size <= b + e.second) { ok = true; break; } }
    c.check(ok, "block of %zu bytes is not inside memory obtained from the base allocator", size);
}

PBT_PROP(heap, 12000, 200000, "allocate/release interleavings with arbitrary sizes on HeapAllocator with a small initial size; non-trivial: at least 20 blocks alive at once, releases out of order and the heap had to grow") {
    TrackingAllocator base(c.chance(0.5) ? 0xCD : 0, 16 * c.draw(3)); Shadow sh(c);
    {
        size_t init = c.chance(0.1) ? 0 : 16 * c.intIn(1, 500);
        HeapAllocator al(base, init); size_t init0 = base.calls; int n = 0; size_t maxLive = 0; bool outOfOrder = false; int mode = c.intIn(0, 4); double pAlloc = c.chance(0.5) ? 0.5 : 0.7;
        while (c.more(n, 100, 400)) {
            Case::Span sp(c);
            if (sh.live.empty() || c.chance(pAlloc)) {
                size_t s = sizeFor(c, c.chance(0.8) ? mode : c.intIn(0, 4)); c.note("allocate %zu", s); void* p = al.allocate(s); insideBase(c, base, p, s); sh.add(p, s, 0);
            } else {
                size_t i = c.draw(sh.live.size() - 1); auto it = sh.nth(i); if (i + 1 != sh.live.size()) outOfOrder = true;
                c.note("release #%zu (%zu bytes)", i, it->second.size); sh.verify(it->second, "before release"); al.release(it->second.p, it->second.size); sh.live.erase(it);
            }
            c.check(base.error.empty(), "%s", base.error.c_str());
            if (sh.live.size() > maxLive) maxLive = sh.live.size();
            if (n % 16 == 0) sh.verifyAll("during the history");
        }
        sh.verifyAll("end of history");
        if (maxLive >= 20 && outOfOrder && base.calls > init0) c.nontrivial();
        while (!sh.live.empty()) { auto it = sh.nth(c.draw(sh.live.size() - 1)); sh.verify(it->second, "final release"); al.release(it->second.p, it->second.size); sh.live.erase(it); }
    }
    base.verifyEmpty(c, "HeapAllocator");
}

PBT_PROP(pool, 8000, 120000, "allocate/release interleavings on PoolAllocator; non-trivial: at least 30 blocks alive at once and blocks of a size class reused") {
    TrackingAllocator base(c.chance(0.5) ? 0xCD : 0); Shadow sh(c);
    {
        PoolAllocator al(base); int n = 0; size_t maxLive = 0; bool rel = false; int mode = c.intIn(0, 4); double pAlloc = c.chance(0.5) ? 0.5 : 0.75; const bool deep = c.chance(0.03);
        if (deep) { // exhausts several blocks of one size class, beyond the first table of 64 blocks in rare cases
            size_t s = c.intIn(1000, 2048); int k = c.intIn(200, 1400); c.label("deep pool");
            for (int i = 0; i < k; i++) { size_t si = s - (i % 3) * 200; void* p = al.allocate(si); sh.add(p, si, 0); }
            sh.verifyAll("after many allocations");
        }
        while (c.more(n, 100, 500)) {
            Case::Span sp(c);
            if (sh.live.empty() || c.chance(pAlloc)) {
                size_t s = sizeFor(c, c.chance(0.8) ? mode : c.intIn(0, 4)); c.note("allocate %zu", s); void* p = al.allocate(s); insideBase(c, base, p, s); sh.add(p, s, 0);
            } else {
                auto it = sh.nth(c.draw(sh.live.size() - 1)); rel = true;
                c.note("release %zu bytes", it->second.size); sh.verify(it->second, "before release"); al.release(it->second.p, it->second.size); sh.live.erase(it);
            }
            c.check(base.error.empty(), "%s", base.error.c_str());
            if (sh.live.size() > maxLive) maxLive = sh.live.size();
            if (n % 16 == 0) sh.verifyAll("during the history");
        }
        sh.verifyAll("end of history");
        if (maxLive >= 30 && rel) c.nontrivial();
        while (!sh.live.empty()) { auto it = sh.nth(c.draw(sh.live.size() - 1)); sh.verify(it->second, "final release"); al.release(it->second.p, it->second.size); sh.live.erase(it); }
    }
    base.verifyEmpty(c, "PoolAllocator");
}

PBT_PROP(frame, 800, 12000, "allocate/release/reset on SingleFrameAllocator over several frames; non-trivial: at least one frame overflowed the buffer") {
    TrackingAllocator base(0xCD); Shadow sh(c);
    {
        SingleFrameAllocator al(base); bool over = false; int frames = 0;
        while (c.more(frames, 4, 12)) {
            int n = 0; size_t used = 0; bool big = c.chance(0.6);
            while (c.more(n, 25, 120)) {
                Case::Span sp(c);
                if (sh.live.empty() || c.chance(0.8)) {
                    size_t s = big ? static_cast<size_t>(c.logReal(1, 400000)) : sizeFor(c, c.intIn(0, 4)); c.note("allocate %zu", s); void* p = al.allocate(s); insideBase(c, base, p, s); sh.add(p, s, 0); used += s;
                } else { auto it = sh.nth(c.draw(sh.live.size() - 1)); c.note("release %zu", it->second.size); sh.verify(it->second, "before release"); al.release(it->second.p, it->second.size); sh.live.erase(it); }
                c.check(base.error.empty(), "%s", base.error.c_str());
            }
            if (used > 1048576) over = true;
            sh.verifyAll("end of frame");
            while (!sh.live.empty()) { auto it = sh.nth(c.draw(sh.live.size() - 1)); al.release(it->second.p, it->second.size); sh.live.erase(it); }
            c.note("reset"); al.reset(); c.check(base.error.empty(), "%s", base.error.c_str());
        }
        if (over) c.nontrivial();
    }
    base.verifyEmpty(c, "SingleFrameAllocator");
}

PBT_PROP(manager, 1500, 20000, "mixed use of pool, heap, frame and base allocation through one MemoryManager; non-trivial: at least 40 live blocks of 3 kinds") {
    TrackingAllocator base(0xCD); Shadow sh(c); typedef MemoryManager::AllocationType AT; const AT T[4] = {AT::Pool, AT::Heap, AT::Frame, AT::Base};
    {
        MemoryManager mm(&base, c.chance(0.5) ? 0 : 16 * c.intIn(1000, 100000)); int n = 0; size_t maxLive = 0; bool kinds[4] = {}; size_t nFrame = 0;
        while (c.more(n, 150, 600)) {
            Case::Span sp(c); int op = c.weighted({60, 38, 2});
            if (op == 0 || (op == 1 && sh.live.empty())) {
                int k = c.weighted({4, 4, 3, 1}); size_t s = sizeFor(c, c.intIn(0, 4)); if (k == 2 && c.chance(0.1)) s = c.intIn(100000, 900000);
                c.note("allocate %d %zu", k, s); void* p = mm.allocate(T[k], s); insideBase(c, base, p, s); sh.add(p, s, k); kinds[k] = true;
            } else if (op == 1) { auto it = sh.nth(c.draw(sh.live.size() - 1)); c.note("release %d %zu", it->second.owner, it->second.size); sh.verify(it->second, "before release"); mm.release(T[it->second.owner], it->second.p, it->second.size); sh.live.erase(it); }
            else { c.note("reset frame"); for (auto it = sh.live.begin(); it != sh.live.end();) { if (it->second.owner == 2) { sh.verify(it->second, "end of frame"); mm.release(AT::Frame, it->second.p, it->second.size); it = sh.live.erase(it); nFrame++; } else ++it; } mm.resetFrameAllocator(); }
            c.check(base.error.empty(), "%s", base.error.c_str());
            if (sh.live.size() > maxLive) maxLive = sh.live.size();
            if (n % 32 == 0) sh.verifyAll("during the history");
        }
        sh.verifyAll("end of history");
        if (maxLive >= 40 && kinds[0] && kinds[1] && kinds[2]) c.nontrivial();
        while (!sh.live.empty()) { auto it = sh.nth(c.draw(sh.live.size() - 1)); mm.release(T[it->second.owner], it->second.p, it->second.size); sh.live.erase(it); }
    }
    base.verifyEmpty(c, "MemoryManager");
}

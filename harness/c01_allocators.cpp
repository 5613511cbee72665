// C01: heap, pool and single frame allocators on top of a base allocator that keeps a ledger.
#include "common.h"
#include <reactphysics3d/memory/HeapAllocator.h>
#include <reactphysics3d/memory/PoolAllocator.h>
#include <reactphysics3d/memory/SingleFrameAllocator.h>
#include <reactphysics3d/memory/MemoryManager.h>
#if RP_TIER
static const int KH = 6, KM = 5, KP = 5;
#else
static const int KH = 5, KM = 4, KP = 4;
#endif
struct Live { char* p; size_t size; unsigned char tag; int kind; };
struct Blocks {
    Live b[64]; int n = 0; unsigned char next = 1;
    void add(const LedgerAllocator& la, void* pv, size_t size, int kind) {
        char* p = static_cast<char*>(pv);
        sym_check(p != nullptr, "no block handed out");
        sym_check(reinterpret_cast<uintptr_t>(p) % 16 == 0, "block is not 16-byte aligned");
        sym_check(la.contains(p, size), "block is not inside memory obtained from the base allocator");
        for (int i = 0; i < n; i++) sym_check(p + size <= b[i].p || b[i].p + b[i].size <= p, "block overlaps another live block");
        b[n].p = p; b[n].size = size; b[n].tag = next; b[n].kind = kind; n++;
        memset(p, next, size); next++;
    }
    void verify() const { for (int i = 0; i < n; i++) for (size_t k = 0; k < b[i].size; k++) sym_check((unsigned char)b[i].p[k] == b[i].tag, "contents of a live block were disturbed"); }
    void drop(int i) { b[i] = b[--n]; }
};
// ---- heap allocator: any history over a table of sizes around the alignment and the size of the initial block
static const size_t kSizes[] = { 1, 16, 17, 40, 104, 200, 333 };
static void heapHistory(int k, int nsizes, size_t init) {
    LedgerAllocator la;
    {
        HeapAllocator heap(la, init); Blocks L; size_t biggest = 0;
        for (int s = 0; s < k; s++) {
            bool alloc = L.n == 0 || sym_pick("alloc", 0, 1);
            if (alloc) { size_t sz = kSizes[sym_pick("size", 0, nsizes - 1)]; if (sz > biggest) biggest = sz; void* p = heap.allocate(sz); L.verify(); L.add(la, p, sz, 0); }
            else { int i = sym_pick("which", 0, L.n - 1); heap.release(L.b[i].p, L.b[i].size); L.drop(i); L.verify(); }
        }
        while (L.n > 0) { heap.release(L.b[L.n - 1].p, L.b[L.n - 1].size); L.n--; L.verify(); }
        size_t before = la.total; void* p = heap.allocate(biggest); sym_check(la.total == before, "memory that was released is not handed out again"); L.add(la, p, biggest, 0); heap.release(p, biggest);
        sym_observe("total", la.total);
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}
SYM_ENTRY(heap_small_initial_block) { heapHistory(KH, 4, 256); }
SYM_ENTRY(heap_growing) { heapHistory(KM, 7, 160); }
// releases in every order (coalescing with the previous, the next, both, none)
SYM_ENTRY(heap_release_orders) {
    LedgerAllocator la;
    {
        HeapAllocator heap(la, 1024); Blocks L; int n = 4;
        for (int i = 0; i < n; i++) { size_t sz = kSizes[sym_pick("size", 1, 3)]; void* p = heap.allocate(sz); L.add(la, p, sz, 0); }
        for (int i = 0; i < n; i++) { int k = sym_pick("which", 0, L.n - 1); heap.release(L.b[k].p, L.b[k].size); L.drop(k); L.verify();
            if (i == 1) { size_t sz = kSizes[sym_pick("resize", 1, 4)]; void* p = heap.allocate(sz); L.verify(); L.add(la, p, sz, 0); n++; } }
        while (L.n > 0) { heap.release(L.b[L.n - 1].p, L.b[L.n - 1].size); L.n--; }
        size_t before = la.total; void* p = heap.allocate(900); sym_check(la.total == before, "released neighbours do not form one block again"); heap.release(p, 900);
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}
// every request size, on the library's own default base allocator (its requirements on sizes are assertions)
SYM_ENTRY(heap_growth_on_default_allocator) {
    DefaultAllocator base; HeapAllocator heap(base, 64);
    size_t a = (size_t)sym_pick("a", 1, 40); size_t b = (size_t)sym_pick("b", 60, 70);
    char* p = static_cast<char*>(heap.allocate(a)); char* q = static_cast<char*>(heap.allocate(b)); memset(p, 1, a); memset(q, 2, b);
    sym_check(p[0] == 1 && p[a - 1] == 1, "contents"); sym_check(reinterpret_cast<uintptr_t>(p) % 16 == 0 && reinterpret_cast<uintptr_t>(q) % 16 == 0, "alignment");
    char* r = static_cast<char*>(heap.allocate(a + b)); memset(r, 3, a + b); sym_check(q[b - 1] == 2 && p[a - 1] == 1, "contents");
    heap.release(q, b); heap.release(p, a); heap.release(r, a + b);
}
// ---- pool allocator: every size up to and beyond the largest unit, alone and next to its neighbour sizes
SYM_ENTRY(pool_every_size) {
    LedgerAllocator la;
    {
        HeapAllocator heap(la, 65536); PoolAllocator pool(heap); Blocks L;
        int cls = sym_pick("class", 0, 129); int off = sym_pick("off", 0, 2); int size = cls * 16 + (off == 0 ? 1 : off == 1 ? 15 : 16);
        int other = size + sym_pick("delta", -1, 1); if (other < 1) other = 1;
        void* p = pool.allocate(size); L.add(la, p, size, 1); void* q = pool.allocate(other); L.verify(); L.add(la, q, other, 1); void* r = pool.allocate(size); L.verify(); L.add(la, r, size, 1);
        pool.release(p, size); L.drop(0); L.verify();
        void* s = pool.allocate(size); L.verify(); L.add(la, s, size, 1);
        for (int i = L.n - 1; i >= 0; i--) { pool.release(L.b[i].p, L.b[i].size); L.n--; L.verify(); }
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}
// exhausting the units of one block and the table of blocks
SYM_ENTRY(pool_block_exhaustion) {
    LedgerAllocator la;
    {
        PoolAllocator pool(la); int size = sym_pick("big", 0, 1) ? 2048 : 1000; int per = size == 2048 ? 16 : 32;
        static char* ps[2200]; int n = per * 65 + 1; int m = sym_pick("many", 0, 1) ? n : per + 1;
        for (int i = 0; i < m; i++) { ps[i] = static_cast<char*>(pool.allocate(size)); *reinterpret_cast<int*>(ps[i]) = i; *reinterpret_cast<int*>(ps[i] + size - 4) = ~i; }
        bool ok = true, in = true; for (int i = 0; i < m; i++) { ok &= *reinterpret_cast<int*>(ps[i]) == i && *reinterpret_cast<int*>(ps[i] + size - 4) == ~i; if (i % 7 == 0) in &= la.contains(ps[i], size); }
        sym_check(ok, "contents of a live block were disturbed"); sym_check(in, "block is not inside memory obtained from the base allocator");
        size_t before = la.total; for (int i = 0; i < m; i += 2) pool.release(ps[i], size);
        for (int i = 0; i < m; i += 2) ps[i] = static_cast<char*>(pool.allocate(size)); sym_check(la.total == before, "memory that was released is not handed out again");
        for (int i = 0; i < m; i++) *reinterpret_cast<int*>(ps[i] + 8) = i; ok = true; for (int i = 0; i < m; i++) ok &= *reinterpret_cast<int*>(ps[i] + 8) == i; sym_check(ok, "two live blocks share memory");
        for (int i = 0; i < m; i++) pool.release(ps[i], size);
        if (m == n) sym_reach("table grown");
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator");
}
SYM_ENTRY(pool_history) {
    LedgerAllocator la; static const size_t sz[] = { 16, 17, 100, 2048, 2049, 3000 };
    {
        HeapAllocator heap(la, 4096); PoolAllocator pool(heap); Blocks L;
        for (int s = 0; s < KP; s++) {
            bool alloc = L.n == 0 || sym_pick("alloc", 0, 1);
            if (alloc) { size_t z = sz[sym_pick("size", 0, 5)]; void* p = pool.allocate(z); L.verify(); L.add(la, p, z, 1); }
            else { int i = sym_pick("which", 0, L.n - 1); pool.release(L.b[i].p, L.b[i].size); L.drop(i); L.verify(); }
        }
        while (L.n > 0) { pool.release(L.b[L.n - 1].p, L.b[L.n - 1].size); L.n--; L.verify(); }
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}
// ---- single frame allocator: fills a frame up to its end, overflows, resets
SYM_ENTRY(frame_boundary) {
    LedgerAllocator la;
    {
        HeapAllocator heap(la, 8 * 1048576); SingleFrameAllocator frame(heap); Blocks L; const size_t F = 1048576;
        int rounds = sym_pick("rounds", 1, 2);
        for (int r = 0; r < rounds; r++) {
            size_t cap = r == 0 ? F : (sym_pick("dbl", 0, 1) ? 2 * F : F);
            L.n = 0;
            void* p0 = frame.allocate(24); L.add(la, p0, 24, 2);
            int d = sym_pick("d", -3, 3); int fine = sym_pick("fine", 0, 3); size_t left = cap - (24 + 16) - 16; size_t big = left + d * 16 - 24 + fine * 8;
            char* pb = static_cast<char*>(frame.allocate(big)); sym_check(reinterpret_cast<uintptr_t>(pb) % 16 == 0, "block is not 16-byte aligned"); sym_check(la.contains(pb, big), "block is not inside memory obtained from the base allocator");
            sym_check(pb + big <= static_cast<char*>(p0) || static_cast<char*>(p0) + 24 <= pb, "blocks overlap"); pb[0] = 5; pb[big - 1] = 6; L.verify();
            size_t s1 = kSizes[sym_pick("s1", 0, 3)]; void* p1 = frame.allocate(s1); L.verify(); L.add(la, p1, s1, 2); sym_check(pb + big <= static_cast<char*>(p1) || static_cast<char*>(p1) + s1 <= pb, "blocks overlap");
            void* p2 = frame.allocate(40); L.verify(); L.add(la, p2, 40, 2); sym_check(pb + big <= static_cast<char*>(p2) || static_cast<char*>(p2) + 40 <= pb, "blocks overlap"); sym_check(pb[0] == 5 && pb[big - 1] == 6, "contents of a live block were disturbed");
            frame.release(p2, 40); frame.release(p1, s1); frame.release(pb, big); frame.release(p0, 24);
            frame.reset();
        }
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}
// ---- the manager: all kinds mixed over a user's base allocator
SYM_ENTRY(manager_mixed) {
    LedgerAllocator la; static const size_t sz[] = { 1, 48, 2048, 2500, 70000 };
    {
        MemoryManager mm(&la, 2 * 1048576); Blocks L; const MemoryManager::AllocationType T[] = { MemoryManager::AllocationType::Heap, MemoryManager::AllocationType::Pool, MemoryManager::AllocationType::Frame, MemoryManager::AllocationType::Base };
        for (int s = 0; s < KM; s++) {
            int op = L.n == 0 ? sym_pick("op0", 0, 3) : sym_pick("op", 0, 5);
            if (op < 4) { size_t z = sz[sym_pick("size", 0, 4)]; void* p = mm.allocate(T[op], z); for (int i = 0; i < L.n; i++) sym_check((unsigned char)L.b[i].p[0] == L.b[i].tag && (unsigned char)L.b[i].p[L.b[i].size - 1] == L.b[i].tag, "contents of a live block were disturbed"); L.add(la, p, z, op); }
            else if (op == 4) { int i = sym_pick("which", 0, L.n - 1); mm.release(T[L.b[i].kind], L.b[i].p, L.b[i].size); L.drop(i); }
            else { for (int i = L.n - 1; i >= 0; i--) if (L.b[i].kind == 2) { mm.release(T[2], L.b[i].p, L.b[i].size); L.drop(i); } mm.resetFrameAllocator(); }
            for (int i = 0; i < L.n; i++) sym_check((unsigned char)L.b[i].p[0] == L.b[i].tag && (unsigned char)L.b[i].p[L.b[i].size - 1] == L.b[i].tag, "contents of a live block were disturbed");
        }
        while (L.n > 0) { int i = L.n - 1; mm.release(T[L.b[i].kind], L.b[i].p, L.b[i].size); L.n--; }
    }
    sym_check(la.n == 0 && la.live == 0, "memory was not given back to the base allocator"); sym_reach("end");
}

// Transparent replacements of the three sub-allocators (everything except check C01): every block is a separate heap
// object of exactly the requested size, so that out-of-bounds accesses, use after release, double release and releases
// with a size of another size class become visible.  The frame allocator releases everything at reset().
#include <reactphysics3d/memory/HeapAllocator.h>
#include <reactphysics3d/memory/PoolAllocator.h>
#include <reactphysics3d/memory/SingleFrameAllocator.h>
#include "sym.h"
#include <cstdlib>
#include <cassert>
using namespace reactphysics3d;
size_t HeapAllocator::INIT_ALLOCATED_SIZE = 5 * 1048576;
namespace {
struct Hdr { size_t size; uint32_t magic; uint32_t kind; };
struct FHdr { FHdr* next; FHdr* prev; SingleFrameAllocator* owner; size_t pad; };
FHdr* gFrames = nullptr;
}
long gStubLive[3] = { 0, 0, 0 };
static void* stubAlloc(size_t size, uint32_t kind) {
    Hdr* h = static_cast<Hdr*>(malloc(sizeof(Hdr) + size));
    h->size = size; h->magic = 0xA110C8EDu; h->kind = kind;
    gStubLive[kind]++;
    return h + 1;
}
static void stubFree(void* p, size_t size, uint32_t kind) {
    Hdr* h = static_cast<Hdr*>(p) - 1;
    sym_check(h->magic == 0xA110C8EDu && h->kind == kind, "memory released to another allocator than the one it came from");
    if (kind == 1) sym_check((h->size + 15) / 16 == (size + 15) / 16, "memory released with a different size than it was allocated with");
    gStubLive[kind]--;
    h->magic = 0;
    free(h);
}
namespace reactphysics3d {
HeapAllocator::HeapAllocator(MemoryAllocator& baseAllocator, size_t) : mBaseAllocator(baseAllocator) { }
HeapAllocator::~HeapAllocator() { }
void* HeapAllocator::allocate(size_t size) { assert(size > 0); if (size == 0) return nullptr; return stubAlloc(size, 0); }
void HeapAllocator::release(void* pointer, size_t size) { assert(size > 0); if (size == 0) return; stubFree(pointer, size, 0); }
PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(baseAllocator) { }
PoolAllocator::~PoolAllocator() { }
void* PoolAllocator::allocate(size_t size) { assert(size > 0); if (size == 0) return nullptr; return stubAlloc(size, 1); }
void PoolAllocator::release(void* pointer, size_t size) { assert(size > 0); if (size == 0) return; stubFree(pointer, size, 1); }
SingleFrameAllocator::SingleFrameAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(baseAllocator) { }
SingleFrameAllocator::~SingleFrameAllocator() { reset(); }
void* SingleFrameAllocator::allocate(size_t size) {
    FHdr* h = static_cast<FHdr*>(malloc(sizeof(FHdr) + (size ? size : 1)));
    h->next = gFrames; h->prev = nullptr; h->owner = this; if (gFrames) gFrames->prev = h; gFrames = h;
    return h + 1;
}
void SingleFrameAllocator::release(void*, size_t) { }
void SingleFrameAllocator::reset() {
    FHdr* h = gFrames;
    while (h) { FHdr* n = h->next; if (h->owner == this) { if (h->prev) h->prev->next = n; else gFrames = n; if (n) n->prev = h->prev; free(h); } h = n; }
}
}

// Shared helpers of the harnesses (public API of the library only).
#pragma once
#include "sym.h"
#include <reactphysics3d/reactphysics3d.h>
using namespace reactphysics3d;

// Base allocator that keeps its own ledger: every block it hands out must come back exactly once with its own size.
class LedgerAllocator : public MemoryAllocator {
    public:
        static const int MAXB = 4096;
        struct Block { char* p; size_t size; };
        Block blocks[MAXB]; int n = 0; size_t live = 0; size_t total = 0;
        LedgerAllocator() = default;
        virtual ~LedgerAllocator() override = default;
        virtual void* allocate(size_t size) override {
            void* p = ::operator new(size);      // 16-byte aligned by the platform's operator new
            sym_check(n < MAXB, "harness ledger full");
            blocks[n].p = static_cast<char*>(p); blocks[n].size = size; n++; live += size; total++;
            return p;
        }
        virtual void release(void* pointer, size_t size) override {
            for (int i = n - 1; i >= 0; i--) if (blocks[i].p == pointer) {
                sym_check(blocks[i].size == size, "block returned to the base allocator with a size it was not requested with");
                live -= blocks[i].size;
                blocks[i] = blocks[--n];
                ::operator delete(pointer);
                return;
            }
            sym_check(false, "pointer returned to the base allocator that was not obtained from it (or returned twice)");
        }
        bool contains(const void* p, size_t size) const {
            const char* c = static_cast<const char*>(p);
            for (int i = 0; i < n; i++) if (c >= blocks[i].p && c + size <= blocks[i].p + blocks[i].size) return true;
            return false;
        }
};

static inline bool finite3(const Vector3& v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
static inline bool eq3(const Vector3& a, const Vector3& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static inline bool near1(float a, float b, float e) { float d = a - b; return (d <= e) & (-d <= e); }
static inline bool near3(const Vector3& a, const Vector3& b, float e) { return near1(a.x, b.x, e) & near1(a.y, b.y, e) & near1(a.z, b.z, e); }
static inline void observe3(const char* l, const Vector3& v) { sym_observe_f(l, v.x); sym_observe_f(l, v.y); sym_observe_f(l, v.z); }
static inline Vector3 grid3(const char* n, int lo, int hi, int shift = 0) {
    float x = sym_grid(n, lo, hi, shift); float y = sym_grid(n, lo, hi, shift); float z = sym_grid(n, lo, hi, shift);
    return Vector3(x, y, z);
}

// Interface between the harnesses and (a) the symbolic executor, (b) the native replayer.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
extern "C" {
    int64_t sym_range(const char* name, int64_t lo, int64_t hi);    // any value in [lo, hi]
    uint64_t sym_bits(const char* name, uint32_t nbits);            // any nbits-bit pattern
    float sym_f32(const char* name);                                // any 32-bit pattern as a float
    void sym_assume_(int cond);
    void sym_check_(int cond, const char* msg);
    void sym_observe(const char* label, uint64_t v);
    void sym_observe_f(const char* label, float v);
    void sym_reach(const char* label);
    int64_t sym_concretize(int64_t v);                              // fork over the feasible values
    float sym_concretize_f(float v);
    void sym_trace(const char* label, int64_t v);
    uint64_t sym_heap_live();
}
#define sym_check(c, m) sym_check_((c) ? 1 : 0, m)
#define sym_assume(c) sym_assume_((c) ? 1 : 0)
static inline bool sym_bool(const char* n) { return sym_range(n, 0, 1) != 0; }
static inline int sym_int(const char* n, int lo, int hi) { return (int)sym_range(n, lo, hi); }
static inline int sym_pick(const char* n, int lo, int hi) { return (int)sym_concretize(sym_range(n, lo, hi)); }
// lo*2^-shift .. hi*2^-shift on the dyadic grid
static inline float sym_grid(const char* n, int lo, int hi, int shift = 0) { return (float)(int)sym_range(n, lo, hi) * (1.0f / (float)(1 << shift)); }

#ifdef SYM_ENGINE
#define SYM_ENTRY(name) extern "C" __attribute__((noinline, used)) void name()
#define SYM_ENTRY_T(name) SYM_ENTRY(name)
#else
struct SymReg { const char* name; void (*fn)(); SymReg* next; static SymReg* head; SymReg(const char* n, void (*f)()) : name(n), fn(f) { next = head; head = this; } };
#define SYM_ENTRY(name) extern "C" void name(); static SymReg symreg_##name(#name, name); extern "C" void name()
#define SYM_ENTRY_T(name) SYM_ENTRY(name)
#endif

// Native replayer: runs a harness on concrete input vectors, one forked child per vector.
// usage: replay ENTRY FILE  -- each line of FILE is "v1 v2 v3 ..."
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <execinfo.h>
SymReg* SymReg::head = nullptr;
static std::vector<int64_t> gIn; static size_t gPos; static bool gVerbose;
static int64_t nextV(int64_t dflt) { if (gPos < gIn.size()) return gIn[gPos++]; gPos++; return dflt; }
extern "C" {
int64_t sym_range(const char* name, int64_t lo, int64_t hi) { int64_t v = nextV(lo); if (lo >= hi) v = lo; if (v < lo) v = lo; if (v > hi) v = hi; if (gVerbose) printf("IN %s %lld\n", name, (long long)v); return v; }
uint64_t sym_bits(const char* name, uint32_t n) { uint64_t v = (uint64_t)nextV(0); if (n < 64) v &= (1ull << n) - 1; if (gVerbose) printf("IN %s %llu\n", name, (unsigned long long)v); return v; }
float sym_f32(const char* name) { uint32_t b = (uint32_t)nextV(0); float f; memcpy(&f, &b, 4); if (gVerbose) printf("IN %s %g\n", name, f); return f; }
void sym_assume_(int c) { if (!c) { printf("END assume\n"); fflush(stdout); _exit(0); } }
void sym_check_(int c, const char* m) { if (!c) { printf("END check %s\n", m); fflush(stdout); _exit(0); } }
void sym_observe(const char* l, uint64_t v) { printf("OBS %s %llu 64\n", l, (unsigned long long)v); }
void sym_observe_f(const char* l, float v) { uint32_t b; memcpy(&b, &v, 4); printf("OBS %s %u 32\n", l, b); }
void sym_reach(const char*) {}
int64_t sym_concretize(int64_t v) { return v; }
float sym_concretize_f(float v) { return v; }
void sym_trace(const char* l, int64_t v) { if (gVerbose) printf("TRACE %s %lld\n", l, (long long)v); }
uint64_t sym_heap_live() { return 0; }
}
int main(int argc, char** argv) {
    if (argc < 3) { for (SymReg* r = SymReg::head; r; r = r->next) printf("%s\n", r->name); return 0; }
    gVerbose = argc > 3;
    void (*fn)() = nullptr;
    for (SymReg* r = SymReg::head; r; r = r->next) if (!strcmp(r->name, argv[1])) fn = r->fn;
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    FILE* f = fopen(argv[2], "r"); if (!f) return 2;
    char* line = nullptr; size_t cap = 0; ssize_t n; int idx = 0;
    while ((n = getline(&line, &cap, f)) >= 0) {
        gIn.clear(); gPos = 0;
        char* p = line; char* e;
        for (;;) { long long v = strtoll(p, &e, 10); if (e == p) break; gIn.push_back(v); p = e; }
        printf("VEC %d\n", idx++); fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(25);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            fn();
            printf("END ok\n"); fflush(stdout); _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) { printf("\nEND signal %d\n", WTERMSIG(st)); fflush(stdout); }
        else if (WEXITSTATUS(st)) { printf("\nEND exit %d\n", WEXITSTATUS(st)); fflush(stdout); }
    }
    return 0;
}

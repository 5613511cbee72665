// C05: entity identifiers.
#include "common.h"
#include <reactphysics3d/engine/EntityManager.h>
struct Rec { Entity e; bool alive; Rec() : e(0, 0), alive(false) {} };
static Rec gAll[4096];
// Creates 'warm' entities and destroys all but 'keep' of them in one of several orders, then runs K symbolic operations.
static void verify(EntityManager& m, int n) {
    bool valid = true, uniq = true;
    int stale = 0; (void)stale;
    for (int i = 0; i < n; i++) valid &= m.isValid(gAll[i].e) == gAll[i].alive;
    sym_check(valid, "an entity is not valid exactly while it is alive");
    // uniqueness among live entities: by index, through a table
    static int8_t seen[8192]; memset(seen, 0, sizeof seen);
    for (int i = 0; i < n; i++) if (gAll[i].alive) { uint32 ix = gAll[i].e.getIndex(); sym_check(ix < 8192, "index out of the expected range"); uniq &= !seen[ix]; seen[ix] = 1; }
    sym_check(uniq, "two live entities share a slot");
}
static int create(EntityManager& m, int n) {
    Entity e = m.createEntity();
    sym_check(m.isValid(e), "a new entity is not valid");
    gAll[n].e = e; gAll[n].alive = true; return n + 1;
}
static void destroy(EntityManager& m, int i) { m.destroyEntity(gAll[i].e); gAll[i].alive = false; sym_check(!m.isValid(gAll[i].e), "a destroyed entity is still valid"); }
SYM_ENTRY(id_packing) {
    uint32 ix = (uint32)sym_bits("index", 24), g = (uint32)sym_bits("gen", 8);
    Entity e(ix, g); sym_check(e.getIndex() == ix, "index part of the identifier is lost"); sym_check(e.getGeneration() == g, "generation part of the identifier is lost");
    uint32 ix2 = (uint32)sym_bits("index2", 24), g2 = (uint32)sym_bits("gen2", 8);
    Entity f(ix2, g2); bool same = (ix == ix2) & (g == g2);
    sym_check((e == f) == same, "equality of identifiers"); sym_check((e != f) == !same, "inequality of identifiers"); sym_check((e.id == f.id) == same, "two slots/generations share one identifier"); sym_observe("id", e.id);
}
static void history(int warm, int order, int K) {
    LedgerAllocator al;
    {
        EntityManager m(al); int n = 0;
        for (int i = 0; i < warm; i++) n = create(m, n);
        for (int k = 0; k < warm; k++) { int i = order == 0 ? k : order == 1 ? warm - 1 - k : (k * 7) % warm; if (gAll[i].alive && (order != 2 || k % 16)) destroy(m, i); }
        verify(m, n);
        for (int k = 0; k < K; k++) {
            int op = sym_pick("op", 0, 1);
            if (op == 0) n = create(m, n);
            else { // destroy one of the oldest / newest live entities
                int live[8], c = 0; for (int i = 0; i < n && c < 2; i++) if (gAll[i].alive) live[c++] = i; for (int i = n - 1; i >= 0 && c < 4; i--) if (gAll[i].alive) live[c++] = i;
                if (!c) continue; int w = live[sym_pick("who", 0, c - 1)]; if (!gAll[w].alive) continue; destroy(m, w); }
        }
        verify(m, n); sym_reach("verified"); sym_observe("n", n);
    }
    sym_check(al.n == 0, "entity manager kept memory");
}
#if RP_TIER
static const int K1 = 7, K2 = 4;
#else
static const int K1 = 5, K2 = 3;
#endif
SYM_ENTRY(few_entities) { history(sym_pick("warm", 0, 3), 0, K1); }
// around the reuse threshold of 1024 free slots
SYM_ENTRY(reuse_threshold) { int warm = sym_pick("warm", 1022, 1027); history(warm, sym_pick("order", 0, 2), K2); }
// a slot reused many times (through the whole free queue) never yields an identifier equal to a stale one before the generation counter wraps
SYM_ENTRY(many_generations) {
    LedgerAllocator al;
    {
        EntityManager m(al); int laps = sym_pick("laps", 1, 3);
        int n = 0; const int W = 1026; for (int i = 0; i < W; i++) n = create(m, n);
        for (int i = 0; i < W; i++) destroy(m, i);
        int reused = 0;
        for (int l = 0; l < laps; l++) for (int k = 0; k < 340; k++) { int b = n; n = create(m, n); reused += gAll[b].e.getIndex() < (uint32)W; for (int q = 0; q < b; q += 31) sym_check(gAll[q].e != gAll[b].e, "a new entity has the identifier of a destroyed one"); destroy(m, b); }
        bool all = true; for (int i = 0; i < n; i++) all &= !m.isValid(gAll[i].e); sym_check(all, "a stale identifier is valid"); sym_check(reused > 0, "slots are never reused"); sym_reach("reused");
    }
}

// C04: broad-phase tree.
#include "common.h"
#include <reactphysics3d/collision/broadphase/DynamicAABBTree.h>
#include <reactphysics3d/memory/MemoryManager.h>
#if RP_TIER
static const int K = 4, Q = 8, NB = 3;
#else
static const int K = 3, Q = 8, NB = 2;
#endif
struct Obj { int32 id; AABB last; uint32 data; };
static AABB boxOf(int k) {
    static const float c[12][6] = { {0,0,0, 1,1,1}, {2,0,0, 4,1,1}, {-4,-2,0, -1,3,2}, {1,1,1, 3,3,3}, {-6,-6,-6, 6,6,6}, {5,-5,2, 6,-4,7}, {-3,4,-3, -2,6,0}, {0,-6,-1, 1,-5,1}, {-6,0,4, -5,1,6}, {3,-2,-4, 5,0,-2}, {-1,-1,-7, 0,0,-5}, {4,4,4, 7,5,5} };
    const float* f = c[k % 12]; return AABB(Vector3(f[0], f[1], f[2]), Vector3(f[3], f[4], f[5]));
}
struct Hist {
    MemoryManager mm; DynamicAABBTree tree; Obj o[16]; int n = 0; uint32 next = 100; float pct;
    Hist(float p) : mm(nullptr), tree(mm.getHeapAllocator(), p), pct(p) { }
    void add(int k) { AABB b = boxOf(k); o[n].id = tree.addObject(b, next); o[n].last = b; o[n].data = next++; for (int i = 0; i < n; i++) sym_check(o[i].id != o[n].id, "handle of a new object is in use"); n++; }
    void verify() {
        for (int i = 0; i < n; i++) {
            sym_check((uint32)tree.getNodeDataInt(o[i].id) == o[i].data, "user data of an object changed");
            const AABB& f = tree.getFatAABB(o[i].id); const Vector3 &a = f.getMin(), &b = f.getMax(), &la = o[i].last.getMin(), &lb = o[i].last.getMax();
            sym_check(a.x <= la.x && a.y <= la.y && a.z <= la.z && b.x >= lb.x && b.y >= lb.y && b.z >= lb.z, "stored box does not contain the box last given");
        }
    }
    void step(int nb) {
        int op = n == 0 ? 0 : sym_pick("op", 0, 3);
        if (op == 0) { if (n < 15) add(sym_pick("box", 0, nb - 1)); }
        else {
            int i = n <= 4 ? sym_pick("which", 0, n - 1) : sym_pick("which", 0, 2) * (n - 1) / 2;
            if (op == 1) { tree.removeObject(o[i].id); o[i] = o[--n]; }
            else { AABB b = boxOf(sym_pick("to", 0, nb)); bool force = op == 3; bool moved = tree.updateObject(o[i].id, b, force); o[i].last = b; if (force) sym_check(moved, "forced update not done");
                if (moved) { const AABB& f = tree.getFatAABB(o[i].id); Vector3 g = b.getExtent() * (pct * 0.5f); sym_check(eq3(f.getMin(), b.getMin() - g) && eq3(f.getMax(), b.getMax() + g), "stored box is not the given box inflated by the configured part"); } }
        }
        verify();
    }
    void queryAll() {
        Array<int> out(mm.getHeapAllocator());
        Vector3 a = grid3("q", -Q, Q); Vector3 e = grid3("e", 0, 3); AABB q(a, a + e);
        tree.reportAllShapesOverlappingWithAABB(q, out);
        checkOut(q, out);
        sym_observe("hits", out.size());
    }
    void checkOut(const AABB& q, Array<int>& out) {
        bool ok = true, once = true, live = true;
        for (int i = 0; i < n; i++) { int c = 0; for (uint64 k = 0; k < out.size(); k++) c += out[k] == o[i].id; bool want = q.testCollision(tree.getFatAABB(o[i].id)); ok &= (c >= 1) | !want; once &= (c <= 1); live &= (c == 0) | want; }
        for (uint64 k = 0; k < out.size(); k++) { bool f = false; for (int i = 0; i < n; i++) f |= out[k] == o[i].id; live &= f; }
        sym_check(ok, "query misses an overlapping object"); sym_check(once, "query reports an object twice"); sym_check(live, "query reports an object that does not overlap or no longer exists");
    }
    void pairs() {
        Array<int32> ids(mm.getHeapAllocator()); Array<Pair<int32, int32>> out(mm.getHeapAllocator());
        for (int i = 0; i < n; i++) ids.add(o[i].id);
        tree.reportAllShapesOverlappingWithShapes(ids, 0, ids.size(), out);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int c = 0; for (uint64 k = 0; k < out.size(); k++) c += out[k].first == o[i].id && out[k].second == o[j].id;
            sym_check(c == (tree.getFatAABB(o[i].id).testCollision(tree.getFatAABB(o[j].id)) ? 1 : 0), "pair query differs from the overlap of the stored boxes"); }
        if (n >= 2) { Array<Pair<int32, int32>> part(mm.getHeapAllocator()); tree.reportAllShapesOverlappingWithShapes(ids, 1, ids.size(), part); int c0 = 0; for (uint64 k = 0; k < out.size(); k++) c0 += out[k].first == o[0].id; sym_check(part.size() + c0 == out.size(), "pair query of a part of the objects"); }
    }
};
struct Cb : public DynamicAABBTreeRaycastCallback {
    Hist* h; int seen[16]; float lim[16]; int mode = 0; int stopAt = -1; int calls = 0; bool stopped = false; float clip = 1;
    decimal raycastBroadPhaseShape(int32 id, const Ray& ray) override {
        sym_check(!stopped, "ray query goes on after the callback stopped it");
        sym_check(ray.maxFraction <= clip, "ray query does not respect the clipped fraction");
        int k = -1; for (int i = 0; i < h->n; i++) if (h->o[i].id == id) k = i;
        sym_check(k >= 0, "ray query visits a node that is no live object"); sym_check(!seen[k], "ray query visits an object twice");
        seen[k] = 1; calls++;
        if (mode == 1 && calls == 1) { stopped = true; return 0; }
        if (mode == 2 && calls == 1) { clip = 0.5f; return 0.5f; }
        if (mode == 3) return -1;
        return ray.maxFraction;
    }
};
SYM_ENTRY(history_then_query) {
    float pct = sym_pick("pct", 0, 1) ? 0.5f : 0.0f; Hist h(pct); static const int pf[] = { 0, 2, 3 }; int p = pf[sym_pick("prefill", 0, 2)];
    for (int i = 0; i < p; i++) h.add(i);
    for (int s = 0; s < K; s++) h.step(NB);
    h.pairs(); h.queryAll(); sym_reach("end");
}
SYM_ENTRY(history_wide) {
    Hist h(sym_pick("pct", 0, 1) ? 0.5f : 0.0f); int p = sym_pick("prefill", 2, 5); for (int i = 0; i < p; i++) h.add(i);
    for (int s = 0; s < 2; s++) h.step(RP_TIER ? 9 : 4);
    h.pairs(); h.queryAll(); sym_reach("end");
}
SYM_ENTRY(history_growth) {
    Hist h(0); int p = sym_pick("prefill", 7, 9); for (int i = 0; i < p; i++) h.add(i);
    for (int s = 0; s < 2; s++) h.step(RP_TIER ? 5 : 2);
    h.pairs(); h.queryAll(); sym_reach("end");
}
// removing and re-adding everything, also through reset
SYM_ENTRY(drain_and_refill) {
    Hist h(0.25f); int p = sym_pick("n", 1, RP_TIER ? 6 : 5); for (int i = 0; i < p; i++) h.add(i);
    if (sym_pick("reset", 0, 1)) { h.tree.reset(); h.n = 0; }
    else while (h.n > 0) { int i = sym_pick("which", 0, h.n - 1); h.tree.removeObject(h.o[i].id); h.o[i] = h.o[--h.n]; h.verify(); h.pairs(); }
    h.queryAll(); for (int i = 0; i < 3; i++) h.add(i + 2); h.verify(); h.pairs(); h.queryAll(); sym_reach("end");
}
// boxes given by symbolic coordinates: containment and re-insertion decisions at their boundaries
SYM_ENTRY(symbolic_boxes) {
    float pct = 0.5f; Hist h(pct); h.add(0); h.add(1);
    Vector3 a = grid3("a", -2, 2); Vector3 e = grid3("e", 1, 2); AABB b(a, a + e);
    int32 id = h.o[0].id; bool inside = h.tree.getFatAABB(id).contains(b); bool moved = h.tree.updateObject(id, b); h.o[0].last = b; sym_check(moved != inside, "an object is moved although its box is inside the stored box, or not moved although it is outside");
    h.verify(); h.pairs(); Vector3 qa = grid3("q", -3, 4); AABB q(qa, qa); Array<int> out(h.mm.getHeapAllocator()); h.tree.reportAllShapesOverlappingWithAABB(q, out); h.checkOut(q, out); sym_observe("moved", moved); sym_reach("end");
}
SYM_ENTRY(ray_queries) {
    Hist h(0); int p = sym_pick("prefill", 1, RP_TIER ? 6 : 4); for (int i = 0; i < p; i++) h.add(i);
    if (sym_pick("mut", 0, 1)) { int32 id = h.o[0].id; AABB b = boxOf(6); h.tree.updateObject(id, b); h.o[0].last = b; }
    static const float D[9][3] = { {1,0,0}, {0,-1,0}, {0,0,1}, {1,1,0}, {-1,0,1}, {1,-1,1}, {-2,1,1}, {1,2,-4}, {0,4,-1} };
    const float* d = D[sym_pick("dir", 0, RP_TIER ? 8 : 5)]; Vector3 o = grid3("o", -3, 3); Vector3 d3(d[0] * 4, d[1] * 4, d[2] * 4); float mf = sym_pick("half", 0, 1) ? 0.5f : 1.0f;
    Cb cb; cb.h = &h; for (int i = 0; i < 16; i++) cb.seen[i] = 0; cb.clip = mf; cb.mode = sym_pick("mode", 0, 3);
    h.tree.raycast(Ray(o, o + d3, mf), cb);
    float t = sym_grid("t", 0, 4, 2); sym_assume(t <= (cb.mode == 2 ? cb.clip : mf)); Vector3 pt(o.x + t * d3.x, o.y + t * d3.y, o.z + t * d3.z); bool ok = true;
    for (int i = 0; i < h.n; i++) { const AABB& f = h.tree.getFatAABB(h.o[i].id); bool in = (pt.x >= f.getMin().x) & (pt.x <= f.getMax().x) & (pt.y >= f.getMin().y) & (pt.y <= f.getMax().y) & (pt.z >= f.getMin().z) & (pt.z <= f.getMax().z); ok &= !in | (cb.seen[i] != 0) | cb.stopped; }
    sym_check(ok, "ray query does not visit an object that the segment crosses"); sym_observe("calls", cb.calls); if (cb.calls > 1) sym_reach("several");
}

// C02: containers against plain models.
#include "common.h"
#include <reactphysics3d/containers/Array.h>
#include <reactphysics3d/containers/Map.h>
#include <reactphysics3d/containers/Set.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/Stack.h>
#include <reactphysics3d/containers/LinkedList.h>
#if RP_TIER
#define TT(q, t) (t)
#else
#define TT(q, t) (q)
#endif

// Element that owns heap memory: a missed or doubled constructor/destructor call shows up as a leak or a use after free.
static int gLive = 0;
struct Elem {
    int* p;
    Elem(int v = 0) : p(new int(v)) { gLive++; }
    Elem(const Elem& e) : p(new int(*e.p)) { gLive++; }
    Elem& operator=(const Elem& e) { *p = *e.p; return *this; }
    ~Elem() { *p = -1; delete p; p = nullptr; gLive--; }
    int v() const { return *p; }
    bool operator==(const Elem& e) const { return *p == *e.p; }
    bool operator!=(const Elem& e) const { return *p != *e.p; }
};
namespace std { template <> struct hash<Elem> { size_t operator()(const Elem& e) const { return (size_t)e.v(); } }; }

static LedgerAllocator* gA;
struct Env { LedgerAllocator al; Env() { gA = &al; gLive = 0; } ~Env() { sym_check(gLive == 0, "elements alive after the container was destroyed"); sym_check(al.n == 0, "container kept memory after destruction"); } };

struct Seq { int v[80]; int n = 0;
    void push(int x) { v[n++] = x; } void removeAt(int i) { for (int k = i; k + 1 < n; k++) v[k] = v[k + 1]; n--; }
    void pushFront(int x) { for (int k = n; k > 0; k--) v[k] = v[k - 1]; v[0] = x; n++; }
};
template <class A> static void same(const A& a, const Seq& m, const char* msg) {
    bool ok = (int)a.size() == m.n; sym_check(ok, msg);
    for (int i = 0; i < m.n; i++) ok &= a[i].v() == m.v[i];
    sym_check(ok, msg);
}

SYM_ENTRY(array_history) {
    Env env;
    {
        Array<Elem> a(env.al, sym_pick("cap", 0, 1) * 16);
        Seq m; int pre = sym_pick("prefill", 0, 2); int npre = pre == 0 ? 0 : pre == 1 ? 3 : 15;
        for (int i = 0; i < npre; i++) { a.add(Elem(100 + i)); m.push(100 + i); }
        const int K = TT(3, 4);
        for (int k = 0; k < K; k++) {
            int op = sym_pick("op", 0, 7);
            if (op == 0) { int v = sym_int("v", 0, 3); a.add(Elem(v)); m.push(v); }
            else if (op == 1) { if (!m.n) break; int i = sym_pick("i", 0, m.n > 4 ? 4 : m.n - 1); a.removeAt(i); m.removeAt(i); }
            else if (op == 2) { if (!m.n) break; int i = sym_pick("i", 0, m.n > 4 ? 4 : m.n - 1); a.removeAtAndReplaceByLast(i); m.v[i] = m.v[m.n - 1]; m.n--; }
            else if (op == 3) { bool rel = sym_bool("rel"); a.clear(rel); m.n = 0; }
            else if (op == 4) { int v = sym_int("v", 0, 3); auto it = a.find(Elem(v)); int j = 0; while (j < m.n && m.v[j] != v) j++;
                sym_check((it == a.end()) == (j == m.n), "Array::find misses or invents an element");
                if (j < m.n) { sym_check((*it).v() == v, "Array::find returns another element"); auto nx = a.remove(it); m.removeAt(j);
                    sym_check((nx == a.end()) == (j == m.n), "Array::remove returns a wrong iterator"); if (j < m.n) sym_check((*nx).v() == m.v[j], "Array::remove returns a wrong iterator"); } }
            else if (op == 5) { Array<Elem> b(a); same(b, m, "copy-constructed array differs"); b.add(Elem(9)); same(a, m, "copy aliases original"); sym_check(a != b, "arrays of different size equal");
                a = b; m.push(9); sym_check(a == b, "assigned array not equal"); }
            else if (op == 6) { a.reserve(sym_pick("r", 0, 1) ? 33 : 1); }
            else if (op == 7) { Array<Elem> b(env.al); int nb = sym_pick("nb", 0, 2); for (int i = 0; i < nb; i++) b.add(Elem(50 + i)); int st = nb ? sym_pick("start", 0, nb) : 0; a.addRange(b, st); for (int i = st; i < nb; i++) m.push(50 + i); }
        }
        same(a, m, "array content differs from the sequence model");
        int i = 0; bool ok = true; for (auto it = a.begin(); it != a.end(); ++it, ++i) ok &= (*it).v() == m.v[i];
        sym_check(ok && i == m.n, "iteration over the array differs from the sequence model");
        sym_check(a.capacity() >= a.size(), "capacity below size"); sym_reach("array end"); sym_observe("n", a.size());
    }
}

SYM_ENTRY(array_growth) {
    Env env;
    {
        Array<Elem> a(env.al); Seq m; int n = sym_pick("n", 0, TT(34, 66));
        for (int i = 0; i < n; i++) { if (i & 1) a.emplace(i * 7); else a.add(Elem(i * 7)); m.push(i * 7); }
        int x = sym_int("x", 0, 70 * 7); a.add(Elem(x)); m.push(x);
        same(a, m, "array content changed by growth");
        Array<Elem> b(env.al); b = a; same(b, m, "assigned array differs"); b.removeAt(0); m.removeAt(0); same(b, m, "removeAt after assign");
        sym_reach("end");
    }
}

// ---- Map / Set -------------------------------------------------------------------------------------------------
struct MapModel { int k[80], v[80]; int n = 0;
    int at(int key) const { for (int i = 0; i < n; i++) if (k[i] == key) return i; return -1; }
    void put(int key, int val) { k[n] = key; v[n] = val; n++; } void del(int i) { n--; k[i] = k[n]; v[i] = v[n]; } };
typedef Map<int, Elem> TMap;
static void sameMap(const TMap& mp, const MapModel& m, const char* msg) {
    sym_check((int)mp.size() == m.n, msg);
    bool ok = true;
    for (int i = 0; i < m.n; i++) { auto it = mp.find(m.k[i]); sym_check(it != mp.end(), msg); ok &= it->first == m.k[i]; ok &= it->second.v() == m.v[i]; ok &= mp.containsKey(m.k[i]); }
    int c = 0; for (auto it = mp.begin(); it != mp.end(); ++it) { c++; sym_check(c <= m.n, msg); }
    sym_check(ok && c == m.n, msg);
}
static void mapOps(int base, int K, bool copies) {
    Env env;
    {
        TMap mp(env.al); MapModel m;
        // 'base' concrete entries first, so that the symbolic operations run next to growth boundaries (12 entries per 16 buckets rounded up to 16)
        for (int i = 0; i < base; i++) { mp.add(Pair<int, Elem>(1000 + i * 3, Elem(i))); m.put(1000 + i * 3, i); }
        for (int k = 0; k < K; k++) {
            int op = sym_pick("op", 0, copies ? 5 : 3);
            if (op == 0) { int key = sym_pick("key", 0, 2) * 16 + sym_pick("low", 0, 1); int v = sym_int("v", 0, 9); int at = m.at(key);
                if (at >= 0) { mp.add(Pair<int, Elem>(key, Elem(v)), true); m.v[at] = v; } else { mp.add(Pair<int, Elem>(key, Elem(v))); m.put(key, v); } }
            else if (op == 1) { int key = sym_pick("key", 0, 2) * 16; int at = m.at(key); sym_check(mp.containsKey(key) == (at >= 0), "containsKey differs from model"); mp.remove(key); if (at >= 0) m.del(at); }
            else if (op == 2) { mp.clear(sym_bool("rel")); m.n = 0; }
            else if (op == 3) { // removal while iterating: remove entries with an even value
                int c0 = m.n; int seen = 0; for (auto it = mp.begin(); it != mp.end();) { seen++; sym_check(seen <= c0, "iteration visits an entry twice"); int key = it->first; int at = m.at(key); sym_check(at >= 0, "iteration visits an entry not in the map"); if (m.v[at] & 1) ++it; else { it = mp.remove(it); m.del(at); } }
                sym_check(seen == c0, "iteration with removal misses entries"); }
            else if (op == 4) { TMap c(mp); sameMap(c, m, "copy-constructed map differs"); if (m.at(500) < 0) { c.add(Pair<int, Elem>(500, Elem(1))); sym_check(!(c == mp), "maps of different size equal"); } }
            else { TMap c(env.al); c.add(Pair<int, Elem>(7, Elem(7))); c = mp; sameMap(c, m, "assigned map differs"); sym_check(c == mp, "assigned map not equal"); if (m.n) { c.remove(m.k[0]); } mp = c; if (m.n) m.del(0); }
        }
        sameMap(mp, m, "map content differs from the key/value model");
        if (m.n) { mp[m.k[0]] = Elem(77); m.v[0] = 77; sameMap(mp, m, "map operator[] writes elsewhere"); }
        int q = sym_int("q", 0, 63); bool in = false; for (int i = 0; i < m.n; i++) in |= m.k[i] == q;
        sym_check(mp.containsKey(q) == in, "containsKey(any key) differs from the model");
        sym_observe("n", mp.size()); sym_reach("map end");
    }
}
SYM_ENTRY(map_empty) { mapOps(0, TT(3, 4), true); }
SYM_ENTRY(map_at_growth) { mapOps(sym_pick("base", 14, 16), TT(2, 3), true); }
SYM_ENTRY_T(map_at_growth2) { mapOps(sym_pick("base", 30, 33), 3, true); }

// refilling a container after clear(true) to its growth limit must not disturb any element
SYM_ENTRY(map_clear_refill) {
    Env env; { TMap mp(env.al); MapModel m; int a = sym_pick("a", 1, 3); for (int i = 0; i < a; i++) mp.add(Pair<int, Elem>(i * 16, Elem(i))); mp.clear(sym_bool("rel"));
        int n = sym_pick("n", 0, 36); int k0 = sym_pick("k0", 0, 5); for (int i = 0; i < n; i++) { int key = k0 + i * 5; mp.add(Pair<int, Elem>(key, Elem(i))); m.put(key, i); } sameMap(mp, m, "map refilled after clear differs"); sym_reach("refill"); }
}

typedef Set<Elem> TSet;
static void sameSet(const TSet& s, const MapModel& m, const char* msg) {
    sym_check((int)s.size() == m.n, msg); bool ok = true; for (int i = 0; i < m.n; i++) ok &= s.contains(Elem(m.k[i]));
    int c = 0; for (auto it = s.begin(); it != s.end(); ++it) { c++; sym_check(c <= m.n, msg); } sym_check(ok && c == m.n, msg); }
static void setOps(int base, int K) {
    Env env; { TSet s(env.al); MapModel m;
        for (int i = 0; i < base; i++) { s.add(Elem(1000 + i * 3)); m.put(1000 + i * 3, 0); }
        for (int k = 0; k < K; k++) { int op = sym_pick("op", 0, 5);
            if (op == 0) { int key = sym_pick("key", 0, 2) * 16 + sym_pick("low", 0, 1); bool added = s.add(Elem(key)); sym_check(added == (m.at(key) < 0), "Set::add result differs from model"); if (m.at(key) < 0) m.put(key, 0); }
            else if (op == 1) { int key = sym_pick("key", 0, 2) * 16; int at = m.at(key); s.remove(Elem(key)); if (at >= 0) m.del(at); }
            else if (op == 2) { s.clear(sym_bool("rel")); m.n = 0; }
            else if (op == 3) { TSet c(s); sameSet(c, m, "copy-constructed set differs"); if (m.at(500) < 0) c.add(Elem(500)); sameSet(s, m, "set copy aliases original"); }
            else if (op == 4) { TSet c(env.al); c.add(Elem(7)); c = s; sameSet(c, m, "assigned set differs"); if (m.n) c.remove(Elem(m.k[0])); s = c; if (m.n) m.del(0); }
            else { Array<Elem> arr = s.toArray(env.al); sym_check((int)arr.size() == m.n, "toArray size"); for (int i = 0; i < m.n; i++) sym_check(m.at(arr[i].v()) >= 0, "toArray content");
                   int c0 = m.n; int seen = 0; for (auto it = s.begin(); it != s.end();) { seen++; sym_check(seen <= c0, "set iteration visits an entry twice"); int key = (*it).v(); int at = m.at(key); sym_check(at >= 0, "set iteration visits a value not in the set"); if (key & 1) ++it; else { it = s.remove(it); m.del(at); } } sym_check(seen == c0, "set iteration misses"); }
        }
        sameSet(s, m, "set content differs from the model"); sym_reach("set end"); sym_observe("n", s.size());
        int q = sym_int("q", 0, 63); bool in = false; for (int i = 0; i < m.n; i++) in |= m.k[i] == q; Elem eq(q); sym_check(s.contains(eq) == in, "Set::contains(any value) differs from the model");
    } }
SYM_ENTRY(set_empty) { setOps(0, TT(3, 4)); }
SYM_ENTRY(set_at_growth) { setOps(sym_pick("base", 14, 16), TT(2, 3)); }
SYM_ENTRY(set_clear_refill) {
    Env env; { TSet s(env.al); MapModel m; int a = sym_pick("a", 1, 3); for (int i = 0; i < a; i++) s.add(Elem(i * 16)); s.clear(sym_bool("rel"));
        int n = sym_pick("n", 0, 36); int k0 = sym_pick("k0", 0, 5); for (int i = 0; i < n; i++) { int key = k0 + i * 5; s.add(Elem(key)); m.put(key, 0); } sameSet(s, m, "set refilled after clear differs"); }
}

// ---- Deque / Stack / LinkedList --------------------------------------------------------------------------------
SYM_ENTRY(deque_history) {
    Env env; { Deque<Elem> d(env.al); Seq m; int pre = sym_pick("pre", 0, 3); int nf = pre & 1 ? 6 : 0, nb = pre & 2 ? 7 : 0;
        for (int i = 0; i < nf; i++) { d.addFront(Elem(10 + i)); m.pushFront(10 + i); } for (int i = 0; i < nb; i++) { d.addBack(Elem(20 + i)); m.push(20 + i); }
        const int K = TT(3, 5);
        for (int k = 0; k < K; k++) { int op = sym_pick("op", 0, 6);
            if (op == 0) { int v = sym_int("v", 0, 9); d.addBack(Elem(v)); m.push(v); }
            else if (op == 1) { int v = sym_int("v", 0, 9); d.addFront(Elem(v)); m.pushFront(v); }
            else if (op == 2) { d.popFront(); if (m.n) m.removeAt(0); }
            else if (op == 3) { d.popBack(); if (m.n) m.n--; }
            else if (op == 4) { d.clear(); m.n = 0; }
            else if (op == 5) { Deque<Elem> c(d); same(c, m, "copy-constructed deque differs"); if (sym_bool("fb")) c.addFront(Elem(3)); else c.addBack(Elem(3)); same(d, m, "deque copy aliases original"); }
            else { Deque<Elem> c(env.al); int nc = sym_pick("nc", 0, 2) * 6; for (int i = 0; i < nc; i++) { c.addBack(Elem(i)); if (i > 2 && (i & 1)) c.popFront(); } c = d; same(c, m, "assigned deque differs"); sym_check(c == d, "assigned deque not equal"); c.addFront(Elem(5)); d = c; m.pushFront(5); }
        }
        same(d, m, "deque content differs from the sequence model");
        if (m.n) { sym_check(d.getFront().v() == m.v[0], "getFront"); sym_check(d.getBack().v() == m.v[m.n - 1], "getBack"); }
        int i = 0; bool ok = true; for (auto it = d.begin(); it != d.end(); ++it, ++i) ok &= (*it).v() == m.v[i]; sym_check(ok && i == m.n, "iteration over the deque");
        sym_reach("deque end"); sym_observe("n", d.size());
    } }
SYM_ENTRY(deque_growth) {
    Env env; { Deque<Elem> d(env.al); Seq m; int n = sym_pick("n", 0, TT(40, 70)); unsigned mode = sym_pick("mode", 0, 4);
        for (int i = 0; i < n; i++) { bool front = mode == 0 ? false : mode == 1 ? true : mode == 2 ? (i & 1) : mode == 3 ? (i % 5 == 0) : (i % 7 > 2); if (front) { d.addFront(Elem(i)); m.pushFront(i); } else { d.addBack(Elem(i)); m.push(i); } if (mode == 4 && i % 3 == 2) { d.popFront(); m.removeAt(0); } }
        same(d, m, "deque content changed by growth"); sym_reach("end"); } }
SYM_ENTRY(stack_history) {
    Env env; { Stack<Elem> s(env.al, sym_pick("cap", 0, 1) * 16); Seq m; int npre = sym_pick("pre", 0, 2) * 15; for (int i = 0; i < npre; i++) { s.push(Elem(i)); m.push(i); }
        for (int k = 0; k < TT(4, 5); k++) { int op = sym_pick("op", 0, 4);
            if (op == 0) { int v = sym_int("v", 0, 9); s.push(Elem(v)); m.push(v); } else if (op == 1) { if (!m.n) break; Elem e = s.pop(); sym_check(e.v() == m.v[--m.n], "Stack::pop returns a wrong element"); }
            else if (op == 2) { s.clear(); m.n = 0; } else if (op == 3) { Stack<Elem> c(s); Seq mm = m; sym_check((int)c.size() == mm.n, "stack copy size"); c.push(Elem(1)); c.pop(); while (mm.n) sym_check(c.pop().v() == mm.v[--mm.n], "copied stack differs"); }
            else if (m.n) { sym_check(s.top().v() == m.v[m.n - 1], "Stack::top"); } }
        sym_check((int)s.size() == m.n, "stack size"); while (m.n) { sym_check(s.pop().v() == m.v[--m.n], "stack content differs from the model"); } sym_check(s.size() == 0, "stack size"); sym_reach("end"); } }
SYM_ENTRY(list_history) {
    Env env; { LinkedList<Elem> l(env.al); Seq m; for (int k = 0; k < TT(5, 7); k++) { int op = sym_pick("op", 0, 1); if (op == 0) { int v = sym_int("v", 0, 9); l.insert(Elem(v)); m.pushFront(v); } else { l.reset(); m.n = 0; } }
        int i = 0; bool ok = true; for (auto* e = l.getListHead(); e; e = e->next, i++) { sym_check(i < m.n, "list longer than the model"); ok &= e->data.v() == m.v[i]; } sym_check(ok && i == m.n, "linked list differs from the model"); sym_reach("end"); } }
SYM_ENTRY(array_raw) {   // trivially copyable elements + addWithoutInit + iterator arithmetic
    Env env; { Array<int> a(env.al); int n0 = sym_pick("n0", 0, 18); for (int i = 0; i < n0; i++) a.add(i); int n1 = sym_pick("n1", 0, 20); a.addWithoutInit(n1); sym_check((int)a.size() == n0 + n1, "addWithoutInit size"); for (int i = 0; i < n1; i++) a[n0 + i] = sym_int("v", 0, 99);
        bool ok = true; for (int i = 0; i < n0; i++) ok &= a[i] == i; sym_check(ok, "addWithoutInit disturbed earlier elements"); int x = sym_int("x", 0, 99); auto it = a.find(x); int j = 0; bool found = false; for (int i = 0; i < n0 + n1 && !found; i++) if (a[i] == x) { found = true; j = i; } sym_check((it != a.end()) == found, "find"); if (found) sym_check(it - a.begin() == j, "find returns not the first"); sym_reach("end"); } }

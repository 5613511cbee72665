// C30: the primitives of the debug renderer show the world as it is: exactly the enabled items, on the true surfaces.
#include "surfaces.h"
typedef DebugRenderer DR; typedef DR::DebugItem DI;
static const DI ITEMS[6] = { DI::COLLIDER_AABB, DI::COLLIDER_BROADPHASE_AABB, DI::COLLISION_SHAPE, DI::CONTACT_POINT, DI::CONTACT_NORMAL, DI::COLLISION_SHAPE_NORMAL };
static const uint32 COL[6] = { 0xff00ff, 0xffff00, 0x00ff00, 0xff0000, 0xffffff, 0x0000ff };
#define T(q, t) (RP_TIER ? (t) : (q))
static void setMask(World& W, int mask) { DR& d = W.w->getDebugRenderer(); for (int i = 0; i < 6; i++) d.setIsDebugItemDisplayed(ITEMS[i], (mask >> i) & 1); }
static bool same(const D3& a, const D3& b, double e) { return (absd(a.x - b.x) <= e) & (absd(a.y - b.y) <= e) & (absd(a.z - b.z) <= e); }
// number of lines of this colour that are an edge of this box; every edge must be there
static int edges(const DR& d, uint32 col, const D3& lo, const D3& hi, double e, const char* what) {
    int mine = 0; const Array<DR::DebugLine>& L = d.getLines(); bool have[12]; for (int i = 0; i < 12; i++) have[i] = false;
    for (uint32 i = 0; i < d.getNbLines(); i++) { if (L[i].color1 != col) continue; D3 a(L[i].point1), b(L[i].point2); bool any = false;
        for (int k = 0; k < 12; k++) { int ax = k >> 2, u = k & 1, v = (k >> 1) & 1; double p[3], q[3]; double l[3] = { lo.x, lo.y, lo.z }, h[3] = { hi.x, hi.y, hi.z }; int o1 = (ax + 1) % 3, o2 = (ax + 2) % 3; p[ax] = l[ax]; q[ax] = h[ax]; p[o1] = q[o1] = u ? h[o1] : l[o1]; p[o2] = q[o2] = v ? h[o2] : l[o2];
            D3 P(p[0], p[1], p[2]), Q(q[0], q[1], q[2]); bool m = (same(a, P, e) & same(b, Q, e)) | (same(a, Q, e) & same(b, P, e)); have[k] = have[k] | m; any = any | m; }
        if (any) mine++; }
    for (int k = 0; k < 12; k++) sym_check(have[k], what); return mine;
}
static int linesOf(const DR& d, uint32 col) { int n = 0; for (uint32 i = 0; i < d.getNbLines(); i++) n += d.getLines()[i].color1 == col; return n; }
static int trisOf(const DR& d, uint32 col) { int n = 0; for (uint32 i = 0; i < d.getNbTriangles(); i++) n += d.getTriangles()[i].color1 == col; return n; }
static void arrays(const DR& d) {       // both accessors agree, each primitive has one colour, one of the six
    for (uint32 i = 0; i < d.getNbLines(); i++) { const DR::DebugLine& l = d.getLines()[i]; sym_check(&l == d.getLinesArray() + i, "array of lines"); sym_check(l.color1 == l.color2, "a line has two colours"); }
    for (uint32 i = 0; i < d.getNbTriangles(); i++) { const DR::DebugTriangle& t = d.getTriangles()[i]; sym_check(&t == d.getTrianglesArray() + i, "array of triangles"); sym_check(t.color1 == t.color2 && t.color2 == t.color3, "a triangle has several colours"); }
    int nl = 0, nt = 0; for (int i = 0; i < 6; i++) { nl += linesOf(d, COL[i]); nt += trisOf(d, COL[i]); } sym_check(nl == (int)d.getNbLines() && nt == (int)d.getNbTriangles(), "a primitive with a colour of no item");
}
static double distT(const D3& p, const D3& a, const D3& b, const D3& c) {       // 0 inside the triangle: largest amount by which p is out of its plane or edges
    D3 n = cross(b - a, c - a); n = n * (1 / len(n)); double m = absd(dot(n, p - a)); const D3* v[3] = { &a, &b, &c };
    for (int k = 0; k < 3; k++) { D3 e = *v[(k + 1) % 3] - *v[k]; D3 o = cross(e, n); m = maxd(m, dot(o, p - *v[k]) / len(o)); } return m;
}
// ---- one shape of every kind, drawn for a set of items ----
static const float PTS[3][3] = { {0.5f, 0.25f, 0.25f}, {0.25f, 0.125f, 0.625f}, {0.125f, 0.8125f, 0.0625f} };
static void drawn(int kind, int mask, int v) {
    World W; Solid S; Tris tr; CollisionShape* s; if (kind < 7) { S = solid(W, kind, 1, v % 4); s = S.s; } else { const float* sc = SURFSC[v % 4]; Vector3 k3(sc[0], sc[1], sc[2]); s = kind == 7 ? (CollisionShape*)concaveOf(W, k3, tr) : (CollisionShape*)fieldOf(W, v % 4, v % 3, k3, tr); }
    Vector3 p = grid3("p", -4, 3, 1); static const int R[4] = { 0, 4, 15, 17 }; Transform lt = v & 1 ? Transform(Vector3(0.5f, -0.25f, 1), rotq(13)) : Transform::identity(); RigidBody* b = W.w->createRigidBody(Transform(p, rotq(R[v % 4]))); b->setType(v & 2 ? BodyType::STATIC : BodyType::KINEMATIC); Collider* c = b->addCollider(s, lt);
    b->setIsDebugEnabled(true); W.w->setIsDebugRenderingEnabled(true); setMask(W, mask); W.step(); const DR& d = W.w->getDebugRenderer(); arrays(d); Transform bt = b->getTransform(); double e = 2e-5 * 8; D3 o = trd(bt, trd(lt, D3(0, 0, 0)));
    auto world = [&](const D3& q) { return trd(bt, trd(lt, q)); };
    AABB wb = c->getWorldAABB(); int nA = 0, nB = 0;
    if (mask & 1) { nA = 12; sym_check(edges(d, COL[0], D3(wb.getMin()), D3(wb.getMax()), e, "an edge of the bounds is missing") == 12, "lines that are no edge of the bounds"); } sym_check(linesOf(d, COL[0]) == nA, "number of lines of the bounds");
    if (mask & 2) { nB = 12; double in = 0, lo[3], hi[3]; (void)in; D3 mn(1e30, 1e30, 1e30), mx(-1e30, -1e30, -1e30); for (uint32 i = 0; i < d.getNbLines(); i++) if (d.getLines()[i].color1 == COL[1]) { D3 q[2] = { D3(d.getLines()[i].point1), D3(d.getLines()[i].point2) }; for (int k = 0; k < 2; k++) { mn = D3(mind(mn.x, q[k].x), mind(mn.y, q[k].y), mind(mn.z, q[k].z)); mx = D3(maxd(mx.x, q[k].x), maxd(mx.y, q[k].y), maxd(mx.z, q[k].z)); } }
        (void)lo; (void)hi; edges(d, COL[1], mn, mx, e, "an edge of the broad-phase bounds is missing"); D3 a(wb.getMin()), z(wb.getMax()); double sz = len(z - a); sym_check((mn.x <= a.x + e) & (mn.y <= a.y + e) & (mn.z <= a.z + e) & (mx.x >= z.x - e) & (mx.y >= z.y - e) & (mx.z >= z.z - e), "the broad-phase bounds that are drawn do not contain the collider"); sym_check((len(mx - mn) <= sz * 1.5 + e), "the broad-phase bounds that are drawn are too large"); }
    sym_check(linesOf(d, COL[1]) == nB, "number of lines of the broad-phase bounds"); sym_check(trisOf(d, COL[3]) == 0 && linesOf(d, COL[4]) == 0 && trisOf(d, COL[0]) + trisOf(d, COL[1]) + trisOf(d, COL[4]) + trisOf(d, COL[5]) + linesOf(d, COL[2]) + linesOf(d, COL[3]) == 0, "primitives that show nothing");
    int nt = trisOf(d, COL[2]); const Array<DR::DebugTriangle>& D = d.getTriangles();
    if (!(mask & 4)) sym_check(nt == 0, "a shape is drawn although shapes are not displayed");
    else if (kind < 7) {                                    // closed surface: on the shape, outward, right volume; every face covered
        double vol = 0; D3 area(0, 0, 0); for (int i = 0; i < nt; i++) { D3 q[3] = { D3(D[i].point1), D3(D[i].point2), D3(D[i].point3) }; for (int k = 0; k < 3; k++) { D3 l = invtrd(lt, invtrd(bt, q[k])); sym_check(absd(S.sdf(l)) <= e, "a drawn triangle has a vertex away from the surface"); } D3 n = cross(q[1] - q[0], q[2] - q[0]); area = area + n * 0.5; vol += dot(cross(q[0] - o, q[1] - o), q[2] - o) / 6; }
        sym_check(len(area) <= 64 * e, "the drawn surface is not closed");
        if (kind < 2) { double t = kind == 0 ? 4.0 / 3 * 3.14159265358979 * S.r * S.r * S.r : 3.14159265358979 * S.r * S.r * (S.h + 4.0 / 3 * S.r); sym_check((vol >= 0.9 * t) & (vol <= 1.001 * t), "the drawn surface is not that of the round shape (turned inside or incomplete)"); }
        else { double t = 0; int nf = 0; for (int f = 0; f < S.np; f++) { D3 u[8]; int m = 0; for (int i = 0; i < S.nv; i++) if (absd(dot(S.n[f], S.v[i]) - S.d[f]) <= 1e-5) u[m++] = S.v[i]; nf++;
                // volume: cone from the origin of the shape over the face (area of the hull of its vertices, faces have 3 or 4)
                double ar = 0; if (m == 3) ar = len(cross(u[1] - u[0], u[2] - u[0])) / 2; else { for (int i = 1; i < 4; i++) { int j = i == 1 ? 2 : 1, k = i == 3 ? 2 : 3; (void)j; (void)k; } double best = 0; for (int a = 1; a < 4; a++) { int x = a == 1 ? 2 : 1, y = a == 3 ? 2 : 3; double q = len(cross(u[a] - u[0], u[y] - u[x])) / 2; best = maxd(best, q); } ar = best; }
                t += ar * S.d[f] / 3;
                for (int w = 0; w < 3; w++) for (int h = 0; h < m; h++) { D3 q(0, 0, 0); double rest = 0; for (int i = 0; i < m; i++) { double g = i == h ? PTS[w][0] : i == (h + 1) % m ? PTS[w][1] : i == (h + 2) % m ? PTS[w][2] * 0.9 : 0.03; q = q + u[i] * g; rest += g; } q = q * (1 / rest); D3 P = world(q); bool cov = false; for (int i = 0; i < nt; i++) { D3 a(D[i].point1), b2(D[i].point2), c2(D[i].point3); cov = cov | (distT(P, a, b2, c2) <= 4 * e); } sym_check(cov, "a part of the surface of a polyhedron is not drawn"); } }
            (void)nf; sym_check(absd(vol - t) <= 1e-3 * maxd(t, 0.1), "the drawn surface of a polyhedron does not enclose its volume"); }
        sym_reach("solid"); }
    else { sym_check(nt == tr.n, "number of triangles drawn"); for (int i = 0; i < tr.n; i++) { D3 q[3] = { world(tr.t[i][0]), world(tr.t[i][1]), world(tr.t[i][2]) }; bool have = false; for (int j = 0; j < nt; j++) { D3 a[3] = { D3(D[j].point1), D3(D[j].point2), D3(D[j].point3) }; for (int r = 0; r < 3; r++) have = have | (same(a[r], q[0], e) & same(a[(r + 1) % 3], q[1], e) & same(a[(r + 2) % 3], q[2], e)); } sym_check(have, "a triangle of the surface is not drawn"); } sym_reach("surface"); }
    int nn = linesOf(d, COL[5]);
    if (!(mask & 32)) sym_check(nn == 0, "normals are drawn although they are not displayed");
    else if (kind < 2) sym_check(nn == 0, "normals of a round shape");
    else if (kind < 7) { sym_check(nn == S.np, "number of face normals drawn"); bool used[16]; for (int f = 0; f < S.np; f++) used[f] = false; for (uint32 i = 0; i < d.getNbLines(); i++) if (d.getLines()[i].color1 == COL[5]) { D3 a = invtrd(lt, invtrd(bt, D3(d.getLines()[i].point1))), z = invtrd(lt, invtrd(bt, D3(d.getLines()[i].point2))); bool ok = false; for (int f = 0; f < S.np; f++) { bool m = (absd(dot(S.n[f], a) - S.d[f]) <= e) & same(z - a, S.n[f], 4 * e); used[f] = used[f] | m; ok = ok | m; } sym_check(ok & (absd(S.sdf(a)) <= e), "a face normal that is drawn is not the outward normal on a face"); } for (int f = 0; f < S.np; f++) sym_check(used[f], "the normal of a face is not drawn"); }
    else for (uint32 i = 0; i < d.getNbLines(); i++) if (d.getLines()[i].color1 == COL[5]) { D3 a(d.getLines()[i].point1), z(d.getLines()[i].point2); bool on = false; for (int t = 0; t < tr.n; t++) for (int k = 0; k < 3; k++) on = on | same(a, world(tr.t[t][k]), e); sym_check(on, "a normal is not drawn at a vertex of the surface"); sym_check(absd(len(z - a) - 1) <= 4 * e, "length of a normal");
        bool front = false; for (int t = 0; t < tr.n; t++) for (int k = 0; k < 3; k++) { D3 w[3] = { world(tr.t[t][0]), world(tr.t[t][1]), world(tr.t[t][2]) }; front = front | (same(a, w[k], e) & (dot(cross(w[1] - w[0], w[2] - w[0]), z - a) > 0)); } sym_check(front, "a normal points to the back of all triangles at its vertex"); }
}
static const int MASKS[6] = { 4, 32, 1, 2, 63, 0 };
SYM_ENTRY(solids) { int k = sym_pick("solid", 0, 6), m = MASKS[sym_pick("items", 0, 5)], v = T(sym_pick("variant", 0, 1) * 2 + (k + m) % 2, sym_pick("variant", 0, 3)); drawn(k, m, v); }
SYM_ENTRY(surfaces) { int k = sym_pick("surface", 7, 8), m = MASKS[sym_pick("items", 0, 5)], v = sym_pick("variant", 0, 3); drawn(k, m, v); }
// every sequence of switching items is remembered item by item
SYM_ENTRY(items) {
    World W; DR& d = W.w->getDebugRenderer(); int cur = 0; for (int i = 0; i < 6; i++) sym_check(!d.getIsDebugItemDisplayed(ITEMS[i]), "an item is displayed by default"); sym_check(!W.w->getIsDebugRenderingEnabled(), "debug rendering is enabled by default");
    for (int k = 0; k < 4; k++) { int it = sym_int("item", 0, 5); bool on = sym_bool("on"); DI x = ITEMS[0]; for (int i = 0; i < 6; i++) x = it == i ? ITEMS[i] : x; d.setIsDebugItemDisplayed(x, on); cur = (cur & ~(1 << it)) | (on ? 1 << it : 0); for (int i = 0; i < 6; i++) sym_check(d.getIsDebugItemDisplayed(ITEMS[i]) == ((cur >> i) & 1), "displayed items"); } sym_reach("end");
}
// histories: what is drawn after a step are the colliders of the active bodies chosen for debugging, nothing old
static void histories(int steps, int nop) {
    World W; CollisionShape* box = W.pc.createBoxShape(Vector3(0.5f, 0.25f, 1)); Vector3 p = grid3("p", -4, 3, 1); RigidBody* b[3]; bool alive[3] = { true, true, true }, dbg[3] = { true, true, false }, act[3] = { true, true, true }; int nc[3] = { 1, 2, 1 }; bool on = true; int mask = 1 | 4;
    for (int i = 0; i < 3; i++) { b[i] = W.body(box, p + Vector3(4.0f * i, 0, 1), i == 1 ? 4 : 0, i == 2 ? BodyType::STATIC : BodyType::KINEMATIC); b[i]->setIsDebugEnabled(dbg[i]); } Collider* extra = b[1]->addCollider(box, Transform(Vector3(0, 2, 0), rotq(15))); W.w->setIsDebugRenderingEnabled(true); setMask(W, mask); DR& d = W.w->getDebugRenderer();
    for (int k = 0; k <= steps; k++) {
        if (k) switch (sym_pick("op", 0, nop - 1)) {
            case 0: if (alive[0]) { dbg[0] = !dbg[0]; b[0]->setIsDebugEnabled(dbg[0]); } break;
            case 1: if (alive[1]) { W.w->destroyRigidBody(b[1]); alive[1] = false; extra = nullptr; } break;
            case 2: if (alive[0]) { act[0] = !act[0]; b[0]->setIsActive(act[0]); } break;
            case 3: if (extra) { b[1]->removeCollider(extra); extra = nullptr; nc[1]--; } break;
            case 4: mask ^= 4; setMask(W, mask); break;
            case 5: if (alive[0]) { b[0]->setTransform(Transform(p + Vector3(0, 3, 0), rotq(16))); } break;
            case 6: if (alive[2]) { dbg[2] = !dbg[2]; b[2]->setIsDebugEnabled(dbg[2]); } break;
            case 7: mask ^= 1; setMask(W, mask); break;
            case 8: on = !on; W.w->setIsDebugRenderingEnabled(on); break;
            case 9: if (alive[0]) b[0]->setLinearVelocity(Vector3(3, 0, -2)); break;
            case 10: if (alive[2]) { b[2]->addCollider(box, Transform(Vector3(0, -2, 0), rotq(1))); nc[2]++; } break;
            case 11: if (alive[0]) b[0]->setIsSleeping(true); break;
            case 12: d.reset(); sym_check(d.getNbLines() == 0 && d.getNbTriangles() == 0, "primitives left after reset"); break;
        }
        W.step(); if (!on) continue; int want = 0, lines = 0; arrays(d);
        for (int i = 0; i < 3; i++) if (alive[i] && act[i] && dbg[i]) { want += nc[i]; sym_check((int)b[i]->getNbColliders() == nc[i], "number of colliders"); if (mask & 1) for (int c = 0; c < nc[i]; c++) { AABB a = b[i]->getCollider(c)->getWorldAABB(); int m = edges(d, COL[0], D3(a.getMin()), D3(a.getMax()), 1e-4, "an edge of the bounds is missing"); lines += m; sym_check(m == 12, "lines of the bounds"); } }
        sym_check(linesOf(d, COL[0]) == lines && (int)d.getNbLines() == lines, "lines of something that is not to be drawn"); sym_check((int)d.getNbTriangles() == (mask & 4 ? want * 12 : 0), "number of triangles of the boxes");
    }
    sym_reach("end");
}
SYM_ENTRY(history1) { histories(1, 13); }
SYM_ENTRY(history2) { histories(T(2, 3), 13); }
// contacts: one sphere and one line for every contact point of the step
SYM_ENTRY(contacts) {
    World W; int k = sym_pick("pair", 0, 3), items = sym_pick("items", 0, 3); CollisionShape* s1 = k < 2 ? (CollisionShape*)W.pc.createSphereShape(1) : (CollisionShape*)W.pc.createBoxShape(Vector3(1, 0.5f, 1)); CollisionShape* s2 = k == 0 ? (CollisionShape*)W.pc.createSphereShape(0.5f) : (CollisionShape*)W.pc.createBoxShape(Vector3(0.5f, 0.5f, 0.5f)); if (k == 3) s2 = W.pc.createCapsuleShape(0.5f, 1);
    Vector3 p; p.x = sym_grid("px", -4, 3, 1); p.y = sym_grid("py", -4, 3, 1); p.z = T(sym_grid("pz", -2, 1, 1), sym_grid("pz", -4, 3, 1)); RigidBody* a = W.body(s1, Vector3(0, 0, 0), 4, BodyType::STATIC); RigidBody* b = W.body(s2, p, k == 3 ? 12 : 0); W.w->setIsDebugRenderingEnabled(true); DR& d = W.w->getDebugRenderer(); d.setIsDebugItemDisplayed(DI::CONTACT_POINT, items & 1); d.setIsDebugItemDisplayed(DI::CONTACT_NORMAL, items & 2); float r = k & 1 ? 0.25f : 0.1f, l = k & 1 ? 2 : 1; if (k & 1) { d.setContactPointSphereRadius(r); d.setContactNormalLength(l); sym_check(d.getContactPointSphereRadius() == r && d.getContactNormalLength() == l, "sizes of contact primitives"); }
    a->setIsDebugEnabled(true); b->setIsDebugEnabled(true); Contacts cs;
    struct Ear : public EventListener { int n = 0; D3 p[16], nn[16]; void onContact(const CollisionCallback::CallbackData& cd) override { n = 0; for (uint32 i = 0; i < cd.getNbContactPairs(); i++) { CollisionCallback::ContactPair q = cd.getContactPair(i); if (q.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue; for (uint32 c = 0; c < q.getNbContactPoints(); c++) { CollisionCallback::ContactPoint x = q.getContactPoint(c); sym_check(n < 16, "too many contact points"); p[n] = D3(q.getCollider1()->getLocalToWorldTransform() * x.getLocalPointOnCollider1()); nn[n++] = D3(x.getWorldNormal()); } } } } ear; W.w->setEventListener(&ear);
    for (int st = 0; st < 3; st++) {
        ear.n = 0; if (st == 2) b->setTransform(Transform(Vector3(20, 0, 0), Quaternion::identity())); W.step(); int nt = trisOf(d, COL[3]), nl = linesOf(d, COL[4]); sym_check((int)d.getNbTriangles() == nt && (int)d.getNbLines() == nl, "primitives of other items"); if (st == 2) sym_check(ear.n == 0, "contacts far away");
        if (!ear.n || !(items & 1)) sym_check(nt == 0, "contact points are drawn that are not there"); if (!ear.n || !(items & 2)) sym_check(nl == 0, "contact normals are drawn that are not there"); if (!ear.n) { sym_reach("none"); continue; } sym_reach("some");
        if (items & 2) { sym_check(nl == ear.n, "number of contact normals"); for (int c = 0; c < ear.n; c++) { bool have = false; for (int i = 0; i < nl; i++) { D3 u(d.getLines()[i].point1), v(d.getLines()[i].point2); have = have | (same(u, ear.p[c], 1e-4) & same(v, ear.p[c] + ear.nn[c] * (double)l, 1e-4)); } sym_check(have, "the normal of a contact point is not drawn at the point"); } }
        if (items & 1) { sym_check(nt % ear.n == 0 && nt > 0, "number of triangles of the contact points"); int per = nt / ear.n; for (int g = 0; g < ear.n; g++) { D3 m(0, 0, 0); bool have = false; for (int i = g * per; i < (g + 1) * per; i++) m = m + D3(d.getTriangles()[i].point1) + D3(d.getTriangles()[i].point2) + D3(d.getTriangles()[i].point3); m = m * (1.0 / (3 * per)); for (int c = 0; c < ear.n; c++) have = have | same(m, ear.p[c], 0.02); sym_check(have, "a contact point is drawn where there is none");
                bool at = false; for (int c = 0; c < ear.n; c++) { bool all = true; for (int i = g * per; i < (g + 1) * per; i++) all = all & (absd(len(D3(d.getTriangles()[i].point1) - ear.p[c]) - r) <= 1e-4); at = at | all; } sym_check(at, "the sphere of a contact point has another radius or centre"); } }
    }
}
// drawing does not change the motion
SYM_ENTRY(neutral) {
    Vector3 v = grid3("v", -2, 1, 0); Vector3 res[2][3]; int mask = sym_pick("items", 0, 1) ? 63 : 4;
    for (int run = 0; run < 2; run++) { World W(Vector3(0, -10, 0)); CollisionShape* bx = W.pc.createBoxShape(Vector3(0.5f, 0.5f, 0.5f)); W.body(W.pc.createBoxShape(Vector3(4, 0.5f, 4)), Vector3(0, -0.95f, 0), 0, BodyType::STATIC)->setIsDebugEnabled(true); RigidBody* b[3]; b[0] = W.body(bx, Vector3(0, 0, 0)); b[1] = W.body(bx, Vector3(0.25f, 0.98f, 0)); b[2] = W.body(W.pc.createSphereShape(0.5f), Vector3(2, 0, 0)); for (int i = 0; i < 3; i++) b[i]->setIsDebugEnabled(run); b[2]->setLinearVelocity(v); if (run) { W.w->setIsDebugRenderingEnabled(true); setMask(W, mask); } W.step(3); for (int i = 0; i < 3; i++) { res[run][i] = b[i]->getTransform().getPosition(); observe3("x", res[run][i]); } }
    for (int i = 0; i < 3; i++) sym_check(eq3(res[0][i], res[1][i]), "the motion of the bodies depends on debug rendering"); sym_reach("end");
}

// C17: what the contacts of a step did to the velocities of the bodies, judged from outside: masses, velocities before and after, and the contacts the step reported.
#include "shapes.h"
static const float DT = 1.0f / 64;
static const float NRM[4][3] = { {0,1,0}, {1,0,0}, {0,0.6f,0.8f}, {0.70710678f,0,-0.70710678f} };
static const float MU[4] = { 0.5f, 0, 0.3f, 1.25f }, REST[3] = { 0, 0.5f, 1 }, MASS[4][2] = { {1,1}, {2,0.5f}, {0.25f,100}, {8,3} };
struct Hits : public EventListener {
    static const int MAX = 32; struct P { Body *b1, *b2; Vector3 n, p1, p2; float depth; } p[MAX]; int n = 0;
    void onContact(const CollisionCallback::CallbackData& d) override {
        for (uint32 i = 0; i < d.getNbContactPairs(); i++) {
            CollisionCallback::ContactPair q = d.getContactPair(i); if (q.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue;
            for (uint32 k = 0; k < q.getNbContactPoints(); k++) { CollisionCallback::ContactPoint c = q.getContactPoint(k); sym_check(n < MAX, "too many contact points"); P& o = p[n++]; o.b1 = q.getBody1(); o.b2 = q.getBody2(); o.n = c.getWorldNormal(); o.p1 = q.getCollider1()->getLocalToWorldTransform() * c.getLocalPointOnCollider1(); o.p2 = q.getCollider2()->getLocalToWorldTransform() * c.getLocalPointOnCollider2(); o.depth = c.getPenetrationDepth(); }
        }
    }
};
struct State { RigidBody* b; bool dyn; double m; D3 v, w, x, I, g; Quaternion q; };
static State stateOf(RigidBody* b, const D3& g = D3(0, 0, 0)) {
    State s; s.b = b; s.dyn = b->getType() == BodyType::DYNAMIC; s.m = b->getMass(); s.v = D3(b->getLinearVelocity()); s.w = D3(b->getAngularVelocity()); s.q = b->getTransform().getOrientation(); s.I = D3(b->getLocalInertiaTensor()); s.x = trd(b->getTransform(), D3(b->getLocalCenterOfMass())); s.g = g;
    if (s.dyn) s.v = s.v + g * DT; return s;           // with the effect of gravity in the step already added
}
static D3 spin(const State& s, const D3& w) { D3 l = rotd(Quaternion(-s.q.x, -s.q.y, -s.q.z, s.q.w), w); return rotd(s.q, D3(l.x * s.I.x, l.y * s.I.y, l.z * s.I.z)); }
static D3 velAt(const D3& v, const D3& w, const D3& r) { return v + cross(w, r); }
static void tie(RigidBody* b, float mass, float mu, float e) { b->setMass(mass); b->updateLocalInertiaTensorFromColliders(); for (uint32 i = 0; i < b->getNbColliders(); i++) { b->getCollider(i)->getMaterial().setFrictionCoefficient(mu); b->getCollider(i)->getMaterial().setBounciness(e); } }
static double speedOf(const State& a) { return len(a.v) + len(a.w); }
// the contacts of the pair (a, b) did what contacts may do. Velocities before the step are in a and b. 'single': one contact between round bodies: the outcome is known
static void judge(const State& a, const State& b, const Hits& h, double mu, double e, double loose, bool split, bool fresh) {
    int cnt = 0; D3 n(0, 0, 0), f1(0, 0, 0), f2(0, 0, 0); double depth = 0;
    for (int i = 0; i < h.n; i++) { const Hits::P& p = h.p[i]; bool s = p.b1 == a.b && p.b2 == b.b, t = p.b1 == b.b && p.b2 == a.b; if (!(s || t)) continue; cnt++; depth = maxd(depth, p.depth); n = n + (s ? D3(p.n) : D3(p.n) * -1); f1 = f1 + (s ? D3(p.p1) : D3(p.p2)); f2 = f2 + (s ? D3(p.p2) : D3(p.p1)); }
    D3 va = D3(a.b->getLinearVelocity()), vb = D3(b.b->getLinearVelocity()), wa = D3(a.b->getAngularVelocity()), wb = D3(b.b->getAngularVelocity());
    D3 Ja = (va - a.v) * a.m, Jb = (vb - b.v) * b.m; double sc = 1 + maxd(a.dyn ? a.m * 8 : 0, b.dyn ? b.m * 8 : 0), tol = 2e-6 * sc;
    if (!a.dyn) sym_check(neard(va, a.v, 0) & neard(wa, a.w, 0), "a contact changed the velocity of a body that is not dynamic"); if (!b.dyn) sym_check(neard(vb, b.v, 0) & neard(wb, b.w, 0), "a contact changed the velocity of a body that is not dynamic");
    if (cnt == 0) { sym_check((!a.dyn | neard(va, a.v, 1e-6)) & (!b.dyn | neard(vb, b.v, 1e-6)), "velocity changed without contact"); return; }
    n = n * (1 / len(n)); f1 = f1 * (1.0 / cnt); f2 = f2 * (1.0 / cnt);
    if (a.dyn & b.dyn) sym_check(neard(Ja + Jb, D3(0, 0, 0), tol), "the contacts changed the total linear momentum");
    D3 J = b.dyn ? Jb : Ja * -1; double Jn = dot(J, n); D3 Jt = J - n * Jn; double mt = dot(Jt, Jt), lim = mu * maxd(Jn, 0) * 1.41422 + tol;
    sym_check(Jn > -tol, "the contacts pull the bodies together"); sym_check(mt <= lim * lim, "tangential response above the friction limit");
    if (a.dyn) sym_check(absd(dot(spin(a, wa - a.w), n) + dot(cross(f1 - a.x, Jt), n)) <= mu * maxd(Jn, 0) + 4 * tol, "spin response above the friction limit");
    if (b.dyn) sym_check(absd(dot(spin(b, wb - b.w), n) - dot(cross(f2 - b.x, Jt), n)) <= mu * maxd(Jn, 0) + 4 * tol, "spin response above the friction limit");
    if (a.dyn & b.dyn) { D3 L = cross(a.x, Ja) + cross(b.x, Jb) + spin(a, wa - a.w) + spin(b, wb - b.w); sym_check(len(L) <= (0.001 + depth) * len(J) + 10 * tol, "the contacts changed the total angular momentum"); }
    bool apart = true; double before = 0, after = 0; D3 nn;
    for (int i = 0; i < h.n; i++) {
        const Hits::P& p = h.p[i]; bool s = p.b1 == a.b && p.b2 == b.b, t = p.b1 == b.b && p.b2 == a.b; if (!(s || t)) continue; nn = s ? D3(p.n) : D3(p.n) * -1; D3 ra = (s ? D3(p.p1) : D3(p.p2)) - a.x, rb = (s ? D3(p.p2) : D3(p.p1)) - b.x;
        before = dot(velAt(b.v, b.w, rb) - velAt(a.v, a.w, ra), nn); after = dot(velAt(vb, wb, rb) - velAt(va, wa, ra), nn); apart = apart & (before > 0);
        sym_check(after > -loose, "the bodies still approach each other after the step");
    }
    if (fresh && split) sym_check(!apart | (absd(Jn) <= tol), "bodies that move apart are pushed");
    double push = split ? 0 : 0.2 / DT * maxd(0, depth - 0.01);
    if (cnt == 1) sym_check(after <= maxd(maxd(before, 0), maxd(-e * before, 0)) + push + loose, e > 0 ? "the bodies rebound faster than the bounciness allows" : "the bodies rebound without bounciness");
    if (cnt == 1 && split && e > 0) sym_check((before > -0.501) | (absd(after + e * before) < loose), "the rebound does not follow the bounciness");
    sym_reach(cnt > 1 ? "several" : "single");
}
static void quiet(World& W, bool split) { W.w->enableSleeping(false); W.w->setContactsPositionCorrectionTechnique(split ? ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); }
// two round bodies with one contact, first step and the following one
SYM_ENTRY(round_pair) {
    int k = sym_pick("cfg", 0, RP_TIER ? 47 : 11), ty = sym_pick("types", 0, 2); bool split = (k / 2) % 3 != 2; World W; quiet(W, split); Hits h; W.w->setEventListener(&h); const float* nv = NRM[k % 4]; Vector3 n(nv[0], nv[1], nv[2]); float mu = MU[(k / 2 + k) % 4], e = REST[(k / 3) % 3];
    static const float DEP[3] = { 0.005f, 0.05f, 0.3f }; Solid s1 = sphereOf(W, 1), s2 = sphereOf(W, k & 1 ? 0.5f : 2); float gap = (k & 1 ? 1.5f : 3.0f) - DEP[k % 3]; Vector3 x0(1, -2, 3);
    RigidBody *a = W.body(s1.s, x0, k % 12), *b = W.body(s2.s, x0 + n * gap, 0, ty == 0 ? BodyType::DYNAMIC : ty == 1 ? BodyType::STATIC : BodyType::KINEMATIC); tie(a, MASS[k % 4][0], mu, e); tie(b, MASS[k % 4][1], mu, e);
    Vector3 v, w; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = sym_grid("vz", -2, 1, 0); w.x = 2 * sym_grid("wx", -2, 1, 0); w.z = 2 * sym_grid("wz", -2, 1, 0); w.y = 1; a->setLinearVelocity(v); a->setAngularVelocity(w); if (ty != 1) { b->setLinearVelocity(Vector3(0.25f, -0.5f, 0.125f)); b->setAngularVelocity(Vector3(1, 0, -2)); }
    State sa = stateOf(a), sb = stateOf(b); W.w->update(DT); sym_check(h.n == 1, "one contact"); judge(sa, sb, h, mu, e, 2e-4, split, true);
    if (k & 4) { h.n = 0; sa = stateOf(a); sb = stateOf(b); W.w->update(DT); judge(sa, sb, h, mu, e, 2e-4, split, false); }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
// several contact points: a polyhedron or a capsule lying flat on a partner
static RigidBody* lay(World& W, int what, Solid& o, float z) {       // something with a flat underside whose lowest point is at height z
    static const float E[3] = { 1, 0.5f, 0.75f }; static const float HY[6] = { 0.5f, 1, 1, 0.5f, 2, 0.25f };
    if (what == 0) o = boxOf(W, Vector3(E[0], E[1], E[2])); else if (what == 1) o = convexOf(W, 3, Vector3(1, 1, 1)); else if (what == 2) o = sphereOf(W, 1); else if (what == 3) o = capsuleOf(W, 0.5f, 2); else if (what == 4) o = boxOf(W, Vector3(0.5f, 2, 0.5f)); else o = boxOf(W, Vector3(2, 0.25f, 2));
    return W.body(o.s, Vector3(0.125f, z + HY[what], -0.25f), what == 3 ? 12 : 0);
}
static void flat(bool converged) {
    int k = sym_pick("cfg", 0, RP_TIER ? 35 : converged ? 3 : 11), what = sym_pick("what", 0, 5); if (converged) k = k * 5 + what * 7; int ty = k % 3; bool split = k % 5 != 4; Vector3 g(0, k & 1 ? -10 : 0, 0); World W(g); quiet(W, split); Hits h; W.w->setEventListener(&h); float mu = MU[(k + what) % 4], e = REST[(k / 2 + what) % 2 ? 0 : (k / 4) % 3];
    if (converged) W.w->setNbIterationsVelocitySolver(60);
    Solid o, p; RigidBody *a, *b; Vector3 e0(4, 1, 4); BodyType t = ty == 0 ? BodyType::STATIC : ty == 1 ? BodyType::DYNAMIC : BodyType::KINEMATIC;
    if (k & 4) { a = lay(W, what, o, k & 8 ? -0.125f : -0.015625f); p = boxOf(W, e0); b = W.body(p.s, Vector3(0, -1, 0), 0, t); } else { p = boxOf(W, e0); b = W.body(p.s, Vector3(0, -1, 0), 0, t); a = lay(W, what, o, k & 8 ? -0.125f : -0.015625f); }
    tie(a, MASS[k % 4][0], mu, e); tie(b, MASS[k % 4][1] * 4, mu, e); if (ty == 2) b->setLinearVelocity(Vector3(0.25f, 0.5f, 0));
    Vector3 v, w; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = k & 2 ? 0.5f : -1; w.x = k & 4 ? -1 : 0; w.y = 2 * sym_grid("wy", -2, 1, 0); a->setLinearVelocity(v); a->setAngularVelocity(w);
    D3 G(g); for (int s = 0; s < 2; s++) { h.n = 0; State sa = stateOf(a, G), sb = stateOf(b, G); W.w->update(DT); if (s == 0) sym_check(h.n >= 1, "no contact"); judge(sa, sb, h, mu, e, converged ? 0.02 : 1, split, s == 0); }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
SYM_ENTRY(flat) { flat(false); }
SYM_ENTRY(flat_converged) { flat(true); }
// centre of mass away from the centre, generic orientation and inertia
SYM_ENTRY(off_centre) {
    int k = sym_pick("cfg", 0, RP_TIER ? 47 : 11), ty = k % 3; bool split = k % 4 != 2; World W; quiet(W, split); W.w->setNbIterationsVelocitySolver(30); Hits h; W.w->setEventListener(&h); const float* nv = NRM[k % 4]; Vector3 n(nv[0], nv[1], nv[2]); float mu = MU[(k / 2 + k) % 4], e = REST[(k / 3) % 3];
    Solid s1 = sphereOf(W, 1), s2 = sphereOf(W, 2); Vector3 x0(1, -2, 3); RigidBody *a = W.body(s1.s, x0, k % 20), *b = W.body(s2.s, x0 + n * 2.96875f, (k * 3) % 20, ty == 0 ? BodyType::DYNAMIC : ty == 1 ? BodyType::STATIC : BodyType::KINEMATIC); tie(a, MASS[k % 4][0], mu, e); tie(b, MASS[k % 4][1], mu, e);
    a->setLocalCenterOfMass(Vector3(0.5f, -0.25f, 0.125f)); a->setLocalInertiaTensor(Vector3(0.5f, 2, 1)); if (k & 2) { b->setLocalCenterOfMass(Vector3(0, 0.5f, 1)); b->setLocalInertiaTensor(Vector3(3, 1, 2)); }
    Vector3 v, w; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = k & 1 ? 1 : -0.5f; w.x = k & 2 ? -4 : 0; w.z = 2 * sym_grid("wz", -2, 1, 0); w.y = 1; a->setLinearVelocity(v); a->setAngularVelocity(w); if (ty != 1) { b->setLinearVelocity(Vector3(0.25f, -0.5f, 0.125f)); b->setAngularVelocity(Vector3(1, 0, -2)); }
    State sa = stateOf(a), sb = stateOf(b); W.w->update(DT); sym_check(h.n == 1, "one contact"); judge(sa, sb, h, mu, e, 0.02, split, true);
    if (k & 4) { h.n = 0; sa = stateOf(a); sb = stateOf(b); W.w->update(DT); judge(sa, sb, h, mu, e, 0.02, split, false); }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
// how strong friction is: bodies that slide (rotation locked) or spin about the normal lose the smaller of what stops them and of mu times the normal impulse; the two colliders have different coefficients
SYM_ENTRY(coulomb) {
    int k = sym_pick("cfg", 0, RP_TIER ? 47 : 11), mode = sym_pick("mode", 0, 1), ty = (k / 2) % 3; bool split = k % 4 != 3, flip = k & 1; int ni = (k + k / 4) % 4; const float* nv = NRM[ni]; Vector3 n(nv[0], nv[1], nv[2]), gv = n * ((k / 3) % 2 ? -10 : 0); D3 G(gv); World W(gv); quiet(W, split); W.w->setNbIterationsVelocitySolver(40); Hits h; W.w->setEventListener(&h);
    static const float F[6][2] = { {0.09f,1}, {1,0.25f}, {0.49f,0.36f}, {0,0.5f}, {2.25f,1}, {0.04f,0.16f} }, B[3][2] = { {0,0}, {0.5f,0}, {0,0.75f} }; const float *f = F[k % 6], *e2 = B[(k / 2 + k) % 3]; double mu = sqrt((double)f[0] * (double)f[1]), e = maxd(e2[0], e2[1]);
    bool box = mode == 0 && ni == 0 && (k / 4) % 2 == 0; Solid s1 = box ? boxOf(W, Vector3(1, 1, 1)) : sphereOf(W, 1), s2 = box ? boxOf(W, Vector3(2, 1, 2)) : sphereOf(W, 2); float gap = (box ? 2.0f : 3.0f) - 0.0078125f; Vector3 x0(1, -2, 3); BodyType t = ty == 0 ? BodyType::DYNAMIC : ty == 1 ? BodyType::STATIC : BodyType::KINEMATIC; RigidBody *a, *b;
    if (flip) { b = W.body(s2.s, x0, 0, t); a = W.body(s1.s, x0 + n * gap, 0); } else { a = W.body(s1.s, x0 + n * gap, 0); b = W.body(s2.s, x0, 0, t); }
    tie(a, MASS[k % 4][0], f[0], e2[0]); tie(b, MASS[k % 4][1], f[1], e2[1]); Vector3 ub(0, 0, 0); if (ty != 1) ub = Vector3(0.25f, -0.5f, 0.125f); b->setLinearVelocity(ub);
    if (mode == 0) {
        a->setAngularLockAxisFactor(Vector3(0, 0, 0)); b->setAngularLockAxisFactor(Vector3(0, 0, 0)); Vector3 v; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = sym_grid("vz", -4, 3, 1); a->setLinearVelocity(v);
    } else {
        float vn = sym_grid("vn", -4, 3, 1), wn = 2 * sym_grid("wn", -4, 3, 1); a->setLinearVelocity(ub + n * vn); a->setAngularVelocity(n * wn); if (ty != 1) b->setAngularVelocity(n * 0.5f);
    }
    State sa = stateOf(a, G), sb = stateOf(b, G); W.w->update(DT); sym_check(h.n >= 1, "contact"); D3 N(n), dv = sa.v - sb.v, wa = D3(a->getAngularVelocity()), wb = D3(b->getAngularVelocity()), va = D3(a->getLinearVelocity()), vb = D3(b->getLinearVelocity());
    double im = (sa.dyn ? 1 / sa.m : 0) + (sb.dyn ? 1 / sb.m : 0), vn0 = dot(dv, N), vn1 = dot(D3(a->getLinearVelocity()) - D3(b->getLinearVelocity()), N), raw = dot(dv - G * (sb.dyn ? 0 : DT), N), P = (vn1 - vn0) / im;
    if (split) { double want = raw < -0.501 ? maxd(vn0, -e * raw) : raw > -0.499 ? maxd(vn0, 0) : vn1; sym_check(absd(vn1 - want) < 2e-3, "the normal velocity after the step is not the one the bounciness of the two materials gives"); }
    sym_check(P > -1e-3 / im, "pulled"); D3 t0 = dv - N * vn0, t1 = (va - vb) - N * vn1; double l0 = len(t0), l1 = len(t1), lw = maxd(0, l0 - mu * maxd(P, 0) * im);
    if (mode == 0) { sym_check(absd(l1 - lw) < 2e-3 + 1e-3 * l0, "friction is not the coefficient of the two materials times the normal impulse"); sym_check(len(t1 * l0 - t0 * lw) < (4e-3 + 1e-3 * l0) * (l0 + 0.1), "friction does not act against the sliding"); }
    else {
        double ia = sa.dyn ? 1 / sa.I.x : 0, ib = sb.dyn ? 1 / sb.I.x : 0, w0 = dot(sa.w - sb.w, N), w1 = dot(wa - wb, N), ww = maxd(0, absd(w0) - mu * maxd(P, 0) * (ia + ib)); if (w0 < 0) ww = -ww;
        sym_check(absd(w1 - ww) < 2e-3 + 1e-3 * absd(w0), "friction against spinning is not the coefficient of the two materials times the normal impulse"); sym_check(len(wa - N * dot(wa, N)) < 2e-3, "spinning tilted"); sym_check(l1 < 2e-3, "spinning moved the body");
    }
    sym_reach(P > 1e-3 ? lw > 0 ? "slides" : "sticks" : "apart"); observe3("v", a->getLinearVelocity()); sym_reach("end");
}
// locked axes: a contact changes no velocity component that is locked, and never the other components beyond what the free body gets
SYM_ENTRY(locked) {
    int k = sym_pick("cfg", 0, 11); World W; quiet(W, true); Hits h; W.w->setEventListener(&h); static const float L[4][3] = { {0,1,1}, {1,0,1}, {0,1,0}, {1,1,0} }; const float* nv = NRM[k % 4]; Vector3 n(nv[0], nv[1], nv[2]); Vector3 ll(L[k % 4][0], L[k % 4][1], L[k % 4][2]), al(L[(k / 4 + k) % 4][0], L[(k / 4 + k) % 4][1], L[(k / 4 + k) % 4][2]);
    Solid s = sphereOf(W, 1); bool first = k & 1; RigidBody *a = first ? W.body(s.s, Vector3(0, 0, 0), 0) : nullptr, *b = W.body(s.s, n * 1.9375f, 0, k % 3 ? BodyType::DYNAMIC : BodyType::STATIC); if (!a) a = W.body(s.s, Vector3(0, 0, 0), 0); tie(a, 1, 0.5f, 0.5f); tie(b, 2, 0.5f, 0.5f);
    a->setLinearLockAxisFactor(ll); a->setAngularLockAxisFactor(al); Vector3 v, w; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = sym_grid("vz", -4, 3, 1); w.x = sym_grid("wx", -2, 1, 0); w.y = 1; w.z = -2; a->setLinearVelocity(v); a->setAngularVelocity(w);
    for (int s = 0; s < 2; s++) { D3 v0 = D3(a->getLinearVelocity()), w0 = D3(a->getAngularVelocity()); W.w->update(DT); D3 dv = D3(a->getLinearVelocity()) - v0, dw = D3(a->getAngularVelocity()) - w0;
        sym_check(((ll.x != 0) | (dv.x == 0)) & ((ll.y != 0) | (dv.y == 0)) & ((ll.z != 0) | (dv.z == 0)), "a contact moved a body along a locked axis"); sym_check(((al.x != 0) | (dw.x == 0)) & ((al.y != 0) | (dw.y == 0)) & ((al.z != 0) | (dw.z == 0)), "a contact turned a body about a locked axis"); }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
// chains and heaps of bodies that touch only each other keep their total momentum; every partner may be hit by several others
SYM_ENTRY(heap) {
    int k = sym_pick("cfg", 0, RP_TIER ? 23 : 5), bb = RP_TIER ? sym_pick("boxes", 0, 1) : k == 1 || k == 4; bool split = k % 4 != 3; World W; quiet(W, split); Hits h; W.w->setEventListener(&h); float mu = MU[k % 4], e = REST[(k / 2) % 3]; const int N = 4; RigidBody* b[N]; Solid s[2] = { bb ? boxOf(W, Vector3(0.5f, 0.5f, 0.5f)) : sphereOf(W, 0.5f), sphereOf(W, 0.5f) };
    static const float POS[2][N][3] = { { {0,0,0}, {0.96875f,0,0}, {1.9375f,0,0}, {1.9375f,0.9375f,0} }, { {0,0,0}, {0,0.96875f,0}, {0.875f,0.25f,0}, {0.25f,0.25f,0.890625f} } };
    for (int j = 0; j < N; j++) { int i = k & 1 ? N - 1 - j : j; const float* p = POS[(k / 2) % 2][i]; b[i] = W.body(s[i == 3].s, Vector3(p[0], p[1], p[2]), k % 3 == 2 && i == 1 ? 4 : 0); tie(b[i], 1 + i * 0.75f, mu, e); }
    Vector3 v, u; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -2, 1, 0); u.x = sym_grid("ux", -2, 1, 0); u.z = sym_grid("uz", -2, 1, 0); b[0]->setLinearVelocity(v); b[2]->setLinearVelocity(u); b[1]->setAngularVelocity(Vector3(2, 0, 1)); D3 P(0, 0, 0), Q; for (int i = 0; i < N; i++) P = P + D3(b[i]->getLinearVelocity()) * b[i]->getMass();
    for (int st = 0; st < (RP_TIER ? 3 : 2); st++) { h.n = 0; W.w->update(DT); Q = D3(0, 0, 0); for (int i = 0; i < N; i++) Q = Q + D3(b[i]->getLinearVelocity()) * b[i]->getMass(); sym_check(neard(P, Q, 4e-5), "contacts changed the total momentum of bodies that only touch each other"); if (st == 0) sym_check(h.n >= 3, "contacts"); }
    observe3("v", b[1]->getLinearVelocity()); sym_reach("end");
}
// bodies put down on a static or kinematic floor under gravity stay on it: they neither sink nor jump
// (a lying capsule that slides may rock between its ends, one contact at a time, so it only has to stay near the surface)
SYM_ENTRY(rest) {
    int k = sym_pick("cfg", 0, RP_TIER ? 11 : 1), what = sym_pick("what", 0, 5); if (!RP_TIER) k = (what * 5 + k * 7) % 12; bool split = k % 3 != 2; World W(Vector3(0, -10, 0)); quiet(W, split); if (k & 1) W.w->enableSleeping(true); float mu = MU[k % 4]; Solid o, p = boxOf(W, Vector3(4, 1, 4)); RigidBody *b = W.body(p.s, Vector3(0, -1, 0), 0, k & 2 ? BodyType::KINEMATIC : BodyType::STATIC);
    float z = sym_grid("z", 0, 3, 8); RigidBody* a = lay(W, what, o, 0); Transform t = a->getTransform(); t.setPosition(t.getPosition() + Vector3(0, z - 0.00390625f, 0)); a->setTransform(t); tie(a, MASS[k % 4][0], mu, 0); tie(b, 1, mu, 0); Vector3 v(0, 0, 0); v.x = sym_grid("vx", -2, 1, 3); v.z = 0; a->setLinearVelocity(v);
    for (int s = 0; s < (RP_TIER ? 150 : 40); s++) {
        W.w->update(DT); Transform q = a->getTransform(); double low = 1e9; if (o.kind == 0) low = q.getPosition().y - o.r; else if (o.kind == 1) low = mind(trd(q, D3(0, o.h / 2, 0)).y, trd(q, D3(0, -o.h / 2, 0)).y) - o.r; else for (int i = 0; i < o.nv; i++) low = mind(low, trd(q, o.v[i]).y);
        sym_check(low > (what == 3 ? -0.15 : -0.025), "a body at rest sinks into the floor"); sym_check(low < 0.03, "a body at rest jumps off the floor");
    }
    sym_check(absd(a->getLinearVelocity().y) < (what == 3 ? 0.5 : 0.1), "a body at rest keeps falling"); observe3("v", a->getTransform().getPosition()); sym_reach("end");
}

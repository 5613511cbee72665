// C23: mass, centre of mass and inertia of a body against volumes and inertia of its shapes computed in double precision.
#include "shapes.h"
static const double PI = 3.14159265358979323846;
struct Prop { double vol; D3 I; };        // volume and inertia of unit mass about the collider's origin (shape formula)
static Prop propOf(int k, const D3& p) {  // 0 sphere(r) 1 capsule(r,h) 2 box(extents) 3..6 convex(scale)
    Prop o; 
    if (k == 0) { o.vol = 4.0 / 3 * PI * p.x * p.x * p.x; o.I = D3(1, 1, 1) * (0.4 * p.x * p.x); }
    else if (k == 1) {
        double r = p.x, h = p.y, vc = PI * r * r * h, vs = 4.0 / 3 * PI * r * r * r; o.vol = vc + vs; double mc = vc / o.vol, ms = vs / o.vol;
        double x = mc * (r * r / 4 + h * h / 12) + ms * (0.4 * r * r + h * h / 4 + 3.0 / 8 * h * r); o.I = D3(x, mc * r * r / 2 + ms * 0.4 * r * r, x);
    } else {
        D3 e = p; if (k > 2) { const MeshSrc& m = MESHES[k - 3]; D3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9); for (int i = 0; i < m.nv; i++) { lo = D3(mind(lo.x, m.v[i][0]), mind(lo.y, m.v[i][1]), mind(lo.z, m.v[i][2])); hi = D3(maxd(hi.x, m.v[i][0]), maxd(hi.y, m.v[i][1]), maxd(hi.z, m.v[i][2])); } e = D3((hi.x - lo.x) * p.x, (hi.y - lo.y) * p.y, (hi.z - lo.z) * p.z) * 0.5;
            double v = 0; for (int f = 0; f < m.nf; f++) for (int t = 1; t + 1 < (m.f[f][3] < 0 ? 3 : 4); t++) { D3 a(m.v[m.f[f][0]][0], m.v[m.f[f][0]][1], m.v[m.f[f][0]][2]), b(m.v[m.f[f][t]][0], m.v[m.f[f][t]][1], m.v[m.f[f][t]][2]), c(m.v[m.f[f][t + 1]][0], m.v[m.f[f][t + 1]][1], m.v[m.f[f][t + 1]][2]); v += dot(a, cross(b, c)) / 6; } o.vol = absd(v) * p.x * p.y * p.z; }
        else o.vol = 8 * e.x * e.y * e.z;
        o.I = D3(e.y * e.y + e.z * e.z, e.x * e.x + e.z * e.z, e.x * e.x + e.y * e.y) * (1.0 / 3);
    }
    return o;
}
static const float SZ[5][3] = { {1,1,1}, {0.5f,2,1.5f}, {0.25f,0.5f,4}, {3,0.125f,2}, {0.0625f,0.125f,0.03125f} };
static CollisionShape* shapeOf(World& W, int k, int s) { const float* z = SZ[s]; if (k == 0) return W.pc.createSphereShape(z[0]); if (k == 1) return W.pc.createCapsuleShape(z[0], z[1]); if (k == 2) return W.pc.createBoxShape(Vector3(z[0], z[1], z[2])); return W.pc.createConvexMeshShape(meshOf(W, k - 3), Vector3(z[0], z[1], z[2])); }
static bool rel(double a, double b) { return absd(a - b) <= 2e-5 * absd(b) + 1e-12; }
struct Item { int k, s; double rho; Transform t; };
struct Sum { double m; D3 c; };
static Sum sumOf(const Item* it, int n) { Sum r; r.m = 0; r.c = D3(0, 0, 0); for (int i = 0; i < n; i++) { double m = it[i].rho * propOf(it[i].k, D3(SZ[it[i].s][0], SZ[it[i].s][1], SZ[it[i].s][2])).vol; r.m += m; r.c = r.c + D3(it[i].t.getPosition()) * m; } if (r.m > 0) r.c = r.c * (1 / r.m); return r; }
static D3 inertiaOf(const Item* it, int n, const D3& com) {     // diagonal of the sum of R I R^T + m (|d|^2 E - d d^T)
    D3 r(0, 0, 0);
    for (int i = 0; i < n; i++) {
        Prop p = propOf(it[i].k, D3(SZ[it[i].s][0], SZ[it[i].s][1], SZ[it[i].s][2])); double m = it[i].rho * p.vol; D3 d = D3(it[i].t.getPosition()) - com; Quaternion q = it[i].t.getOrientation();
        D3 ex = rotd(q, D3(1, 0, 0)), ey = rotd(q, D3(0, 1, 0)), ez = rotd(q, D3(0, 0, 1)); double q2 = dot(d, d);
        r.x += m * (p.I.x * ex.x * ex.x + p.I.y * ey.x * ey.x + p.I.z * ez.x * ez.x + q2 - d.x * d.x); r.y += m * (p.I.x * ex.y * ex.y + p.I.y * ey.y * ey.y + p.I.z * ez.y * ez.y + q2 - d.y * d.y); r.z += m * (p.I.x * ex.z * ex.z + p.I.y * ey.z * ey.z + p.I.z * ez.z * ez.z + q2 - d.z * d.z);
    }
    return r;
}
static bool rel3(const D3& a, const D3& b, double s) { return (absd(a.x - b.x) <= 2e-5 * s) & (absd(a.y - b.y) <= 2e-5 * s) & (absd(a.z - b.z) <= 2e-5 * s); }
// the observable effect of mass and inertia: a unit impulse changes the velocity by impulse / mass (rotated inverse inertia), only for dynamic bodies
static void effect(World& W, RigidBody* b, double mass, const D3& I, const D3& com) {
    bool dyn = b->getType() == BodyType::DYNAMIC; W.w->setGravity(Vector3(0, 0, 0)); if (b->getType() != BodyType::STATIC) { b->setLinearVelocity(Vector3(0, 0, 0)); b->setAngularVelocity(Vector3(0, 0, 0)); } b->resetForce(); b->resetTorque();
    Transform t = b->getTransform(); D3 c = trd(t, com); b->applyWorldForceAtWorldPosition(Vector3(1, 0, 0), Vector3(0, 2, 3)); if (dyn) sym_check(neard(D3(b->getTorque()), cross(D3(0, 2, 3) - c, D3(1, 0, 0)), 1e-4), "force at a point does not act about the centre of mass");
    b->resetForce(); b->resetTorque(); Vector3 F(2, -1, 4), T(1, 3, -2); b->applyWorldForceAtCenterOfMass(F); b->applyWorldTorque(T); W.w->update(1.0f); D3 v(b->getLinearVelocity()), w(b->getAngularVelocity()); D3 ev(0, 0, 0), ew(0, 0, 0);
    if (dyn) { if (mass > 0) ev = D3(F) * (1 / mass); Quaternion q = t.getOrientation(); D3 l = rotd(Quaternion(-q.x, -q.y, -q.z, q.w), D3(T)); ew = rotd(q, D3(I.x != 0 ? l.x / I.x : 0, I.y != 0 ? l.y / I.y : 0, I.z != 0 ? l.z / I.z : 0)); }
    sym_check(rel3(v, ev, len(ev) + 1e-3), "inverse mass does not match mass and type of the body"); sym_check(rel3(w, ew, len(ew) + 1e-3), "inverse inertia does not match inertia and type of the body");
}
// volume and inertia of single shapes, after creation and after a change of size
SYM_ENTRY(shape) {
    World W; int k = sym_pick("shape", 0, 6), s = sym_pick("size", 0, 4), ch = sym_pick("change", 0, 1); CollisionShape* sh = shapeOf(W, k, ch ? (s + 1) % 5 : s); const float* z = SZ[s];
    if (ch) { if (k == 0) static_cast<SphereShape*>(sh)->setRadius(z[0]); else if (k == 1) { static_cast<CapsuleShape*>(sh)->setRadius(z[0]); static_cast<CapsuleShape*>(sh)->setHeight(z[1]); } else if (k == 2) static_cast<BoxShape*>(sh)->setHalfExtents(Vector3(z[0], z[1], z[2])); else static_cast<ConvexMeshShape*>(sh)->setScale(Vector3(z[0], z[1], z[2])); }
    float m = sym_grid("mass", 1, 1024, 4); Prop p = propOf(k, D3(z[0], z[1], z[2])); sym_check(rel(sh->getVolume(), p.vol), "volume of the shape"); Vector3 I = sh->getLocalInertiaTensor(m); sym_check(rel3(D3(I), p.I * (double)m, m * len(p.I)), "inertia of the shape"); sym_observe_f("v", sh->getVolume()); observe3("I", I);
}
// convex mesh away from the origin: volume does not depend on where the mesh lies
SYM_ENTRY(mesh_offset) {
    World W; int k = sym_pick("mesh", 0, 3); int o = sym_pick("offset", 0, 3); static const float O[4][3] = { {2,0,0}, {-1,3,0.5f}, {0,0,-8}, {16,-4,2} }; ConvexMesh* m = meshOf(W, k, 1, Vector3(O[o][0], O[o][1], O[o][2])); Prop p = propOf(3 + k, D3(1, 1, 1)); sym_check(absd(m->getVolume() - p.vol) < 2e-4 * p.vol, "volume of a convex mesh away from the origin");
    D3 c(0, 0, 0); for (int i = 0; i < MESHES[k].nv; i++) c = c + D3(MESHES[k].v[i][0], MESHES[k].v[i][1], MESHES[k].v[i][2]) * (1.0 / MESHES[k].nv); sym_check(neard(D3(m->getCentroid()), c + D3(O[o][0], O[o][1], O[o][2]), 1e-5), "centroid of a convex mesh");
}
// bodies with several colliders: densities and one placement symbolic, every way to update
SYM_ENTRY(body) {
    World W; int n = sym_pick("n", 1, 3), cfg = sym_pick("cfg", 0, RP_TIER ? 20 : 6), how = sym_pick("how", 0, 4), type = sym_pick("type", 0, 2); RigidBody* b = W.w->createRigidBody(Transform(Vector3(1, -2, 3), rotq((cfg * 5) % 20))); Item it[3]; Collider* c[3]; if (type) b->setType(type == 1 ? BodyType::STATIC : BodyType::KINEMATIC);
    float rho = sym_grid("rho", 0, 7, 1); Vector3 p; p.x = sym_grid("px", -4, 3, 1); p.y = sym_grid("py", -4, 3, 1); p.z = sym_grid("pz", -2, 1, 1);
    static const float P[3][3] = { {0,0,0}, {1,-0.5f,2}, {-3,0.25f,0} };
    for (int i = 0; i < n; i++) { it[i].k = (cfg + 3 * i) % 7; it[i].s = (cfg / 2 + i) % 5; it[i].rho = i == 0 ? (double)rho : 0.5 + i; it[i].t = Transform(Vector3(P[i][0], P[i][1], P[i][2]), rotq((cfg + 6 * i) % 20)); c[i] = b->addCollider(shapeOf(W, it[i].k, it[i].s), it[i].t); c[i]->getMaterial().setMassDensity((float)it[i].rho); }
    sym_check((b->getMass() == 1) & eq3(b->getLocalCenterOfMass(), Vector3(0, 0, 0)) & eq3(b->getLocalInertiaTensor(), Vector3(1, 1, 1)), "adding a collider changes the mass properties");
    it[0].t = Transform(p, it[0].t.getOrientation()); c[0]->setLocalToBodyTransform(it[0].t); sym_check(b->getMass() == 1, "moving a collider changes the mass");
    bool setC = false; D3 com(0, 0, 0), I(1, 1, 1); double m = 1; Sum s = sumOf(it, n);
    if (how == 0) { b->updateMassPropertiesFromColliders(); m = s.m; com = s.c; I = inertiaOf(it, n, com); } else if (how == 1) { b->updateLocalCenterOfMassFromColliders(); com = s.c; } else if (how == 2) { b->updateMassFromColliders(); m = s.m; }
    else if (how == 3) { b->setLocalCenterOfMass(Vector3(0.5f, 0, -1)); com = D3(0.5, 0, -1); b->updateLocalInertiaTensorFromColliders(); I = inertiaOf(it, n, com); } else { b->updateLocalCenterOfMassFromColliders(); b->updateLocalInertiaTensorFromColliders(); b->updateMassFromColliders(); m = s.m; com = s.c; I = inertiaOf(it, n, com); } (void)setC;
    double ext = 12; sym_check(rel(b->getMass(), m), "mass is not the sum of density times volume"); sym_check(rel3(D3(b->getLocalCenterOfMass()), com, ext), "centre of mass is not the weighted mean of the collider positions"); sym_check(rel3(D3(b->getLocalInertiaTensor()), I, 1e-6 + len(I)), "inertia does not follow from the shapes and the parallel axis theorem");
    sym_observe_f("m", b->getMass()); observe3("c", b->getLocalCenterOfMass()); observe3("I", b->getLocalInertiaTensor());
    // a collider removed later does not count after an update
    if (n == 3 && how == 0) { b->removeCollider(c[1]); sym_check(rel(b->getMass(), m), "removing a collider changes the mass before an update"); it[1] = it[2]; b->updateMassPropertiesFromColliders(); s = sumOf(it, 2); I = inertiaOf(it, 2, s.c); sym_check(rel(b->getMass(), s.m) & rel3(D3(b->getLocalCenterOfMass()), s.c, ext) & rel3(D3(b->getLocalInertiaTensor()), I, 1e-6 + len(I)), "mass properties after removing a collider"); }
}
// user values, type changes: what a force does afterwards
SYM_ENTRY(user_values) {
    World W; W.w->enableSleeping(false); int a = sym_pick("op1", 0, 7), b2 = sym_pick("op2", 0, 7), c = sym_pick("op3", 0, RP_TIER ? 7 : 3), r = sym_pick("rot", 0, 1); RigidBody* b = W.w->createRigidBody(Transform(Vector3(1, 0, -1), rotq(r ? 16 : 5))); Collider* cl = b->addCollider(W.pc.createBoxShape(Vector3(1, 2, 0.5f)), Transform(Vector3(0.5f, 0, 0), rotq(0))); float mass = sym_grid("mass", 1, 16, 2), ine = sym_grid("inertia", 1, 8, 1); cl->getMaterial().setMassDensity(0.5f);
    double m = 1; D3 I(1, 1, 1), com(0, 0, 0); int ops[3] = { a, b2, c };
    for (int i = 0; i < 3; i++) switch (ops[i]) {
        case 0: b->setType(BodyType::STATIC); break; case 1: b->setType(BodyType::DYNAMIC); break; case 2: b->setMass(mass); m = mass; break; case 3: b->setLocalInertiaTensor(Vector3(ine, 2, 4)); I = D3(ine, 2, 4); break;
        case 4: b->setLocalCenterOfMass(Vector3(0, 1, 0)); com = D3(0, 1, 0); break; case 5: b->setType(BodyType::KINEMATIC); break; case 6: b->updateMassPropertiesFromColliders(); m = 4; com = D3(0.5, 0, 0); I = D3(4.25, 1.25, 5) * (4.0 / 3); break; case 7: b->setMass(0); m = 0; break;
    }
    sym_check(rel(b->getMass(), m) & rel3(D3(b->getLocalInertiaTensor()), I, len(I)) & rel3(D3(b->getLocalCenterOfMass()), com, 1), "a mass property set by the user is not kept"); effect(W, b, m, I, com); sym_observe_f("m", b->getMass()); observe3("v", b->getLinearVelocity());
}

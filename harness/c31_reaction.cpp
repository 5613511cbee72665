// C31: the force and torque a joint reports are what its bodies received in the step.
#include "joints.h"
static const float GR[3][3] = { {0,0,0}, {0,-10,0}, {3,-5,8} };
struct Got { D3 F, T; };
static Got reported(const J& j) {
    Got g; Vector3 f = j.j->getReactionForce(DT), t = j.j->getReactionTorque(DT); g.F = D3(f) * (double)DT; g.T = D3(t) * (double)DT;
    Vector3 f2 = j.j->getReactionForce(2 * DT), t2 = j.j->getReactionTorque(2 * DT); double e = 1e-5; sym_check(neard(D3(f2) * 2, D3(f), e * (1 + len(D3(f)))) & neard(D3(t2) * 2, D3(t), e * (1 + len(D3(t)))), "the reported force does not scale with the time step"); return g;
}
// s1, s2: bodies of the joint before the step (gravity included); what acted on one of them was this joint only
static void agree(const J& j, const State& s1, const State& s2, double tol) {
    Got r = reported(j); D3 v1(j.b1->getLinearVelocity()), v2(j.b2->getLinearVelocity()), w1(j.b1->getAngularVelocity()), w2(j.b2->getAngularVelocity()); Geo g = geo(j, s1, s2);
    D3 J1 = (v1 - s1.v) * s1.m, J2 = (v2 - s2.v) * s2.m, L1 = spin(s1, w1 - s1.w), L2 = spin(s2, w2 - s2.w); double m = (s1.dyn ? s1.m : 0) + (s2.dyn ? s2.m : 0), sc = tol * (m + len(r.F) + len(r.T));
#ifdef RPDBG
    fprintf(stderr, "kind %d F %g %g %g T %g %g %g\n", j.kind, r.F.x, r.F.y, r.F.z, r.T.x, r.T.y, r.T.z); if (s2.dyn) { D3 t = L2 - cross(g.r2, J2); fprintf(stderr, "  2: J %g %g %g T %g %g %g\n", J2.x, J2.y, J2.z, t.x, t.y, t.z); } if (s1.dyn) { D3 t = (L1 - cross(j.kind == SLIDER ? g.r1 + g.u : g.r1, J1)) * -1; fprintf(stderr, "  1: J %g %g %g T %g %g %g\n", -J1.x, -J1.y, -J1.z, t.x, t.y, t.z); }
#endif
    if (s2.dyn) { sym_check(neard(J2, r.F, sc), "the reported force is not what body 2 received"); sym_check(neard(L2 - cross(g.r2, J2), r.T, 4 * sc), "the reported torque is not what body 2 received"); }
    if (s1.dyn) { sym_check(neard(J1 * -1, r.F, sc), "the reported force is not the opposite of what body 1 received"); sym_check(neard((L1 - cross(j.kind == SLIDER ? g.r1 + g.u : g.r1, J1)) * -1, r.T, 4 * sc), "the reported torque is not the opposite of what body 1 received"); }
}
static bool vary(J& j, int op, double at) {       // change of the settings before a step
    switch (op) {
        case 1: if (j.kind == HINGE) { j.hinge()->setMotorSpeed(2); j.hinge()->setMaxMotorTorque(64); j.hinge()->enableMotor(true); } else if (j.kind == SLIDER) { j.slider()->setMotorSpeed(-2); j.slider()->setMaxMotorForce(64); j.slider()->enableMotor(true); } else return false; break;
        case 2: if (j.kind == HINGE) j.hinge()->enableMotor(false); else if (j.kind == SLIDER) j.slider()->enableMotor(false); else return false; break;
        case 3: if (j.kind == HINGE) j.hinge()->enableLimit(true); else if (j.kind == SLIDER) j.slider()->enableLimit(true); else if (j.kind == BALL) j.ball()->enableConeLimit(true); else return false; break;
        case 4: if (j.kind == HINGE) j.hinge()->enableLimit(false); else if (j.kind == SLIDER) j.slider()->enableLimit(false); else if (j.kind == BALL) j.ball()->enableConeLimit(false); else return false; break;
        case 5: j.b2->setLinearVelocity(Vector3(1, -2, 0.5f)); break;
    }
    (void)at; return true;
}
static const double AT[3] = { -0.625, 0.1, 0.75 };
// any joint: limits reached or not, motor on or off, both, changed between the steps
SYM_ENTRY(single) {
    int kind = sym_pick("kind", 0, 3), k = sym_pick("cfg", 0, RP_TIER ? 11 : 3), w = sym_pick("where", 0, kind == FIXED ? 0 : 2), op1 = sym_pick("first", 0, RP_TIER ? 3 : 1) , op2 = sym_pick("second", 0, 5); if (!RP_TIER && op1 == 0) op1 = (k + w) % 2 ? 3 : 0;
    World W(Vector3(GR[k % 3][0], GR[k % 3][1], GR[k % 3][2])); calm(W, 10); D3 g(GR[k % 3][0], GR[k % 3][1], GR[k % 3][2]); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f); bool lim = kind != FIXED && (k + w) % 2; Setup u = build(W, kind, k + 3 * w, s1, s2, kind == BALL ? 0.5 * w : AT[w], lim, -0.5f, kind == BALL ? 0.7f : 0.5f, k & 1); if (!lim && kind == BALL) u.j.ball()->setConeLimitHalfAngle(0.7f);
    Vector3 v; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -2, 1, 0); v.z = 2 * sym_grid("vz", -1, 0, 0); u.a->setLinearVelocity(v); Vector3 av; av.y = 1; av.x = 2 * sym_grid("wx", -1, 0, 0); av.z = 2 * sym_grid("wz", -2, 1, 0); u.a->setAngularVelocity(av); if ((k + 3 * w) % 3 != 1) u.b->setAngularVelocity(Vector3(0.5f, 0, -1));
    if (op1 && !vary(u.j, op1, 0)) { sym_reach("none"); return; }
    for (int s = 0; s < 3; s++) { if (s == 1 && op2 && !vary(u.j, op2, 0)) return; State p1 = stateOf(u.j.b1, g), p2 = stateOf(u.j.b2, g); W.w->update(DT); agree(u.j, p1, p2, 1e-4); conserved(p1, p2, s ? 0.05 : 0.001, kind != BALL && kind != FIXED); }
    observe3("v", u.a->getLinearVelocity()); sym_reach("end");
}
// two joints on one body: it receives the sum of what they report
SYM_ENTRY(shared) {
    int k1 = sym_pick("kind1", 0, 3), k2 = sym_pick("kind2", 0, 3), cfg = sym_pick("cfg", 0, RP_TIER ? 7 : 1); World W(Vector3(0, -10, 0)); calm(W, 10); D3 g(0, -10, 0); CollisionShape* bx = W.pc.createBoxShape(Vector3(0.5f, 0.25f, 0.5f)); RigidBody* b[3]; for (int i = 0; i < 3; i++) { b[i] = W.body(bx, Vector3(2.0f * i, 1, 0), (cfg * 3 + i) % 20, i == 0 && cfg & 2 ? BodyType::STATIC : BodyType::DYNAMIC); massOf(b[i], 1 + i, 0); b[i]->getCollider(0)->setCollideWithMaskBits(0); }
    J j1 = tieJoint(W, k1, b[0], b[1], Vector3(1, 1, 0), Vector3(0.6f, 0, 0.8f), cfg & 1), j2 = cfg & 4 ? tieJoint(W, k2, b[2], b[1], Vector3(3, 1, 0), Vector3(0, 0, 1), cfg & 1) : tieJoint(W, k2, b[1], b[2], Vector3(3, 1, 0), Vector3(0, 0, 1), cfg & 1);
    Vector3 v; v.x = sym_grid("vx", -4, 3, 1); v.y = sym_grid("vy", -4, 3, 1); v.z = sym_grid("vz", -4, 3, 1); b[1]->setLinearVelocity(v);
    for (int s = 0; s < 2; s++) { State p = stateOf(b[1], g), q = stateOf(b[2], g); W.w->update(DT); Got r1 = reported(j1), r2 = reported(j2); D3 f = cfg & 4 ? r1.F + r2.F : r1.F - r2.F, Jm = (D3(b[1]->getLinearVelocity()) - p.v) * p.m, Jq = (D3(b[2]->getLinearVelocity()) - q.v) * q.m; double sc = 2e-4 * (6 + len(r1.F) + len(r2.F)); sym_check(neard(f, Jm, sc), "the reported forces do not add up to what the shared body received"); sym_check(neard(cfg & 4 ? r2.F * -1 : r2.F, Jq, sc), "the reported force is not what the last body received"); }
    observe3("v", b[1]->getLinearVelocity()); sym_reach("end");
}

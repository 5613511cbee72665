// C18: what the joints of a step did to the velocities of their bodies, judged from outside: masses, anchors and axes as given by the user, transforms and velocities before and after.
#include "joints.h"
// one joint between two bodies with any velocities, three steps (the later ones with warm starting)
SYM_ENTRY(pair) {
    int kind = sym_pick("kind", 0, 3), k = sym_pick("cfg", 0, RP_TIER ? 35 : 8); int ty = k % 3; bool sw = (k / 2) % 2, baum = (k / 3) % 2; World W; calm(W, kind == BALL ? 6 : 60);
    Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f); Vector3 x0(1, -2, 3), p = x0 + Vector3(0.5f, 0.25f, -0.25f); RigidBody *a = W.body(s1.s, x0, (k * 5) % 20), *b = W.body(s2.s, x0 + Vector3(1, 0.25f, -0.5f), (k * 7 + 3) % 20, typeOf(ty));
    massOf(a, MASS[(k + k / 3) % 6][0], k); massOf(b, MASS[(k + k / 3) % 6][1], k / 3); for (uint32 i = 0; i < 1; i++) { a->getCollider(i)->setCollideWithMaskBits(0); b->getCollider(i)->setCollideWithMaskBits(0); }
    J j = sw ? tieJoint(W, kind, b, a, p, Vector3(0.6f, 0, 0.8f), baum, k & 1) : tieJoint(W, kind, a, b, p, Vector3(0.6f, 0, 0.8f), baum, k & 1);
    setVel(a, "vx", "vy", "vz", "wx", "wz"); if (ty != 1) { b->setLinearVelocity(Vector3(0.25f, -0.5f, 0.125f)); b->setAngularVelocity(Vector3(0.5f, 0, -1)); }
    for (int s = 0; s < (RP_TIER ? 3 : 2); s++) { State sa = stateOf(a), sb = stateOf(b); W.w->update(DT); conserved(sa, sb, s ? 0.05 : 0.001); holds(j, sw ? sb : sa, sw ? sa : sb, kind == BALL ? 2e-4 : 5e-3); }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
SYM_ENTRY(limits) {
    int kind = sym_pick("kind", HINGE, SLIDER), k = sym_pick("cfg", 0, RP_TIER ? 23 : 5), w = sym_pick("where", 0, 4); k += RP_TIER ? 0 : w; static const double AT[5] = { -0.625, -0.25, 0.1, 0.375, 0.75 }; double at = AT[w]; float lo = -0.5f, hi = k & 1 ? 0.5f : 0.25f; bool below = at <= lo, above = at >= hi;
    World W, V; calm(W, 60); calm(V, 60); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f), t1 = boxOf(V, Vector3(0.5f, 0.75f, 0.5f)), t2 = sphereOf(V, 0.75f); Setup u = build(W, kind, k, s1, s2, at, true, lo, hi, k % 3 == 1), f = build(V, kind, k, t1, t2, at, false, 0, 0, k % 3 == 1);
    setVel(u.a, "vx", "vy", "vz", "wx", "wz"); f.a->setLinearVelocity(u.a->getLinearVelocity()); f.a->setAngularVelocity(u.a->getAngularVelocity()); if (k % 3 == 0) { u.b->setAngularVelocity(Vector3(0.5f, 0, -1)); f.b->setAngularVelocity(Vector3(0.5f, 0, -1)); }
    State sa = stateOf(u.a), sb = stateOf(u.b); W.w->update(DT); V.w->update(DT); conserved(sa, sb, 0.01); bool sw = u.j.b1 == u.b; const State &s1_ = sw ? sb : sa, &s2_ = sw ? sa : sb; holds(u.j, s1_, s2_, 0.01); Geo g = geo(u.j, s1_, s2_);
    double got, free; D3 w1(u.j.b1->getAngularVelocity()), w2(u.j.b2->getAngularVelocity()), v1(u.j.b1->getLinearVelocity()), v2(u.j.b2->getLinearVelocity()), W1(f.j.b1->getAngularVelocity()), W2(f.j.b2->getAngularVelocity()), V1(f.j.b1->getLinearVelocity()), V2(f.j.b2->getLinearVelocity());
    if (kind == HINGE) { got = dot(w2 - w1, g.axis); free = dot(W2 - W1, g.axis); } else { got = dot(v2 + cross(w2, g.r2) - v1 - cross(w1, g.r1 + g.u), g.axis); free = dot(V2 + cross(W2, g.r2) - V1 - cross(W1, g.r1 + g.u), g.axis); }
    double push = u.j.baum ? 0.2 / DT : 0;
#ifdef RPDBG
    fprintf(stderr, "kind %d k %d at %g lo %g hi %g got %g free %g\n", kind, k, at, lo, hi, got, free);
#endif
    if (below) { double least = push * (lo - at); sym_check(got > least - 0.01, "the lower limit does not hold"); sym_check(got >= free - 0.01, "the lower limit pulls"); sym_check((free < least) | (absd(got - free) < 0.01), "the lower limit acts on bodies that leave it"); sym_check((free > least) | (absd(got - least) < 0.01), "the lower limit pushes too hard"); sym_reach("below"); }
    else if (above) { double most = push * (hi - at); sym_check(got < most + 0.01, "the upper limit does not hold"); sym_check(got <= free + 0.01, "the upper limit pulls"); sym_check((free > most) | (absd(got - free) < 0.01), "the upper limit acts on bodies that leave it"); sym_check((free < most) | (absd(got - most) < 0.01), "the upper limit pushes too hard"); sym_reach("above"); }
    else { sym_check(absd(got - free) < 1e-4, "a limit acts that is not reached"); sym_reach("between"); }
    observe3("v", u.a->getLinearVelocity()); sym_reach("end");
}
static double axisInertia(const State& s, const D3& ax) { return dot(spin(s, ax), ax); }
// motors: the speed is reached if the motor is strong enough, otherwise the motor gives what its maximum allows and not more; also when the settings change between steps
SYM_ENTRY(motor) {
    int kind = sym_pick("kind", HINGE, SLIDER), k = sym_pick("cfg", 0, RP_TIER ? 11 : 3), ch = sym_pick("change", 0, 4), ty = k % 3; bool sw = k & 1; World W; calm(W, 20); Solid s1 = sphereOf(W, 0.5f), s2 = sphereOf(W, 0.75f); D3 ax = AXES[k % 4]; Vector3 axis(ax.x, ax.y, ax.z), x0(1, -2, 3);
    RigidBody *a = W.body(s1.s, x0, (k * 5) % 20), *b = W.body(s2.s, x0 + axis * 2, (k * 7 + 3) % 20, typeOf(ty)); static const float M[4][2] = { {1,1}, {2,0.5f}, {8,3}, {100,400} }; massOf(a, M[k % 4][0], 0); massOf(b, M[k % 4][1], 0); RigidBody *c = sw ? b : a, *d = sw ? a : b;
    J j = tieJoint(W, kind, c, d, x0 + axis, axis, k & 2, k & 1); float sp = 2 * sym_grid("speed", -2, 1, 0); float mx = sym_grid("max", 0, 7, 0); mx = mx * mx * 8; float w0 = 2 * sym_grid("w", -4, 3, 1); a->setAngularVelocity(axis * w0); a->setLinearVelocity(axis * (w0 * 0.5f));
    if (kind == HINGE) { j.hinge()->setMotorSpeed(sp); j.hinge()->setMaxMotorTorque(mx); j.hinge()->enableMotor(true); } else { j.slider()->setMotorSpeed(sp); j.slider()->setMaxMotorForce(mx); j.slider()->enableMotor(true); }
    for (int s = 0; s < 3; s++) {
        bool on = true; if (s == 1) { if (ch == 1) { mx = 1; if (kind == HINGE) j.hinge()->setMaxMotorTorque(mx); else j.slider()->setMaxMotorForce(mx); } if (ch == 2) { on = false; if (kind == HINGE) j.hinge()->enableMotor(false); else j.slider()->enableMotor(false); } if (ch == 3) { sp = -sp; if (kind == HINGE) j.hinge()->setMotorSpeed(sp); else j.slider()->setMotorSpeed(sp); } if (ch == 4) { mx = mx * 3; if (kind == HINGE) j.hinge()->setMaxMotorTorque(mx); else j.slider()->setMaxMotorForce(mx); } }
        if (s == 2 && ch == 2) break;
        State sa = stateOf(a), sb = stateOf(b); const State &p1 = sw ? sb : sa, &p2 = sw ? sa : sb; W.w->update(DT); conserved(sa, sb, 0.01); double got, before, k1, k2, lim = mx * DT; D3 w1(c->getAngularVelocity()), w2(d->getAngularVelocity()), v1(c->getLinearVelocity()), v2(d->getLinearVelocity());
        if (kind == HINGE) { got = dot(w2 - w1, ax); before = dot(p2.w - p1.w, ax); k1 = p1.dyn ? 1 / axisInertia(p1, ax) : 0; k2 = p2.dyn ? 1 / axisInertia(p2, ax) : 0; } else { got = dot(v2 - v1, ax); before = dot(p2.v - p1.v, ax); k1 = p1.dyn ? 1 / p1.m : 0; k2 = p2.dyn ? 1 / p2.m : 0; }
        double J = (got - before) / (k1 + k2), need = on ? (sp - before) / (k1 + k2) : 0, tol = 2e-3 / (k1 + k2);
#ifdef RPDBG
        fprintf(stderr, "kind %d k %d ch %d s %d before %g got %g sp %g J %g lim %g need %g\n", kind, k, ch, s, before, got, sp, J, lim, need);
#endif
        sym_check(absd(J) <= lim + tol, "the motor is stronger than its maximum"); sym_check(absd(J - clampd(need, -lim, lim)) <= tol, on ? "the motor does not reach its speed" : "a motor that is switched off acts");
        double F = kind == HINGE ? j.hinge()->getMotorTorque(DT) : j.slider()->getMotorForce(DT); sym_check(absd(F) <= mx * 1.0001 + 1e-6, "the motor reports more than its maximum"); if (kind == HINGE) sym_check(absd(F * DT - J) <= tol, "the reported motor torque is not what acted"); else sym_check(absd(F * DT + J) <= tol, "the reported motor force is not what acted");
    }
    observe3("v", a->getLinearVelocity()); sym_reach("end");
}
// the angle / translation the joint reports is the one of the bodies, whatever their common motion was
SYM_ENTRY(reported) {
    int kind = sym_pick("kind", HINGE, SLIDER), k = sym_pick("cfg", 0, 11), w = sym_pick("where", 0, 6); static const double AT[7] = { -3, -1.5, -0.625, 0, 0.25, 1, 2.75 }; double at = AT[w]; World W; calm(W, 0); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f); Setup u = build(W, kind, k, s1, s2, at, false, 0, 0, true);
    float vx = sym_grid("vx", -4, 3, 4); u.a->setLinearVelocity(Vector3(vx, 0, 0)); if (RPN) { Geo g0 = geo(u.j, stateOf(u.j.b1), stateOf(u.j.b2)); fprintf(stderr, "fault before %g\n", len(g0.u)); } W.w->update(DT); double got = kind == HINGE ? u.j.hinge()->getAngle() : u.j.slider()->getTranslation();
    State sa = stateOf(u.j.b1), sb = stateOf(u.j.b2); Geo g = geo(u.j, sa, sb); if (kind == SLIDER) sym_check(absd(got - dot(g.u, g.axis)) < 1e-4, "wrong translation reported"); else {
#ifdef RPDBG
        D3 dw = sb.w - sa.w; Geo g0 = geo(u.j, sa, sb); fprintf(stderr, "got %g at %g  spin %g fault %g  w %g %g\n", got, at, dot(dw, g0.axis), len(g0.u), len(sa.w), len(sb.w));
#endif
 double d = got - at; sym_check((absd(d) < 0.05) | (absd(d - 6.2831853) < 0.05) | (absd(d + 6.2831853) < 0.05), "wrong angle reported"); }
    observe3("v", u.a->getLinearVelocity()); sym_reach("end");
}
// the cone of a ball joint: no impulse inside, outside it stops the opening and never pulls
SYM_ENTRY(cone) {
    int k = sym_pick("cfg", 0, RP_TIER ? 23 : 7), out = sym_pick("outside", 0, 1); double at = 0.4 + 0.2 * (k % 4); World W, V; calm(W, 60); calm(V, 60); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f), t1 = boxOf(V, Vector3(0.5f, 0.75f, 0.5f)), t2 = sphereOf(V, 0.75f);
    Setup u = build(W, BALL, k, s1, s2, at, false, 0, 0, k % 3 == 1), f = build(V, BALL, k, t1, t2, at, false, 0, 0, k % 3 == 1); State sa = stateOf(u.j.b1), sb = stateOf(u.j.b2); Geo g = geo(u.j, sa, sb);
    D3 r1 = g.r1 * (1 / len(g.r1)), r2 = g.r2 * (-1 / len(g.r2)), n = cross(r1, r2); double si = len(n), angle = std::atan2(si, dot(r1, r2)); sym_assume(si > 0.15); n = n * (1 / si);
    if (k % 2) u.j.ball()->setConeLimitHalfAngle(3); u.j.ball()->enableConeLimit(true); u.j.ball()->setConeLimitHalfAngle(out ? angle - 0.05 : angle + 0.05); if (out) sym_reach("outside"); else sym_reach("inside"); sym_check(absd(u.j.ball()->getConeHalfAngle() - angle) < 1e-3, "wrong cone angle reported");
    setVel(u.a, "vx", "vy", "vz", "wx", "wz"); f.a->setLinearVelocity(u.a->getLinearVelocity()); f.a->setAngularVelocity(u.a->getAngularVelocity()); if (k % 3 == 0) { u.b->setAngularVelocity(Vector3(0.5f, 0, -1)); f.b->setAngularVelocity(Vector3(0.5f, 0, -1)); }
    sa = stateOf(u.a); sb = stateOf(u.b); W.w->update(DT); V.w->update(DT); conserved(sa, sb, 0.01); bool sw = u.j.b1 == u.b; holds(u.j, sw ? sb : sa, sw ? sa : sb, 0.01);
    double got = dot(D3(u.j.b2->getAngularVelocity()) - D3(u.j.b1->getAngularVelocity()), n), free = dot(D3(f.j.b2->getAngularVelocity()) - D3(f.j.b1->getAngularVelocity()), n);
#ifdef RPDBG
    fprintf(stderr, "k %d out %d angle %g got %g free %g\n", k, out, angle, got, free);
#endif
    if (!out) sym_check(absd(got - free) < 1e-4, "the cone acts on bodies inside it");
    else { sym_check(got < 0.01, "the cone does not hold"); sym_check(got <= free + 0.01, "the cone pulls"); if (!u.j.baum) { sym_check((free > 0) | (absd(got - free) < 0.01), "the cone acts on bodies that return"); sym_check((free < 0) | (absd(got) < 0.01), "the cone pushes too hard"); } }
    observe3("v", u.a->getLinearVelocity()); sym_reach("end");
}
// how far a joint is from where its constraint holds: anchors and axes
static double fault(const J& j, const Quaternion& rel0) {
    State s1 = stateOf(j.b1), s2 = stateOf(j.b2); Geo g = geo(j, s1, s2); D3 ax2 = rotd(s2.q, j.ax2); double e = j.kind == SLIDER ? absd(dot(g.u, g.n1)) + absd(dot(g.u, g.n2)) : len(g.u);
    if (j.kind == HINGE) e += len(cross(g.axis, ax2)); if (j.kind == FIXED || j.kind == SLIDER) { Quaternion d = j.b1->getTransform().getOrientation().getInverse() * j.b2->getTransform().getOrientation(); double c = absd((double)d.x * rel0.x + (double)d.y * rel0.y + (double)d.z * rel0.z + (double)d.w * rel0.w); e += 2 * std::sqrt(std::max(0.0, 1 - c * c)); } return e;
}
// displaced bodies return to where their joint holds them; several joints of one kind with different techniques in one world, one orientation written with the other sign
SYM_ENTRY(drift) {
    int kind = sym_pick("kind", BALL, SLIDER), k = sym_pick("cfg", 0, RP_TIER ? 17 : 5), order = sym_pick("techniques", 0, 3); World W; calm(W, 10); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f); J j[3]; Quaternion rel[3]; RigidBody *a[3], *b[3];
    for (int i = 0; i < 3; i++) {
        Vector3 x0(1 + 10 * i, -2, 3), p = x0 + Vector3(0.5f, 0.25f, -0.25f); int t = k + i, ty = t % 3 == 2 ? 0 : t % 3; a[i] = W.body(s1.s, x0, (t * 5) % 20); b[i] = W.body(s2.s, x0 + Vector3(1, 0.5f, -0.5f), (t * 7 + 3) % 20, typeOf(ty)); massOf(a[i], MASS[t % 6][0], t); massOf(b[i], MASS[t % 6][1], t / 3); a[i]->getCollider(0)->setCollideWithMaskBits(0); b[i]->getCollider(0)->setCollideWithMaskBits(0);
        D3 ax = AXES[t % 4]; bool baum = i < 2 && (order >> i & 1); j[i] = t & 1 ? tieJoint(W, kind, b[i], a[i], p, Vector3(ax.x, ax.y, ax.z), baum, t & 1) : tieJoint(W, kind, a[i], b[i], p, Vector3(ax.x, ax.y, ax.z), baum, t & 1); rel[i] = j[i].b1->getTransform().getOrientation().getInverse() * j[i].b2->getTransform().getOrientation();
    }
    float ex = sym_grid("ex", -2, 1, 4), ey = 0.0625f * sym_grid("ey", -1, 0, 0), er = sym_grid("er", -4, 3, 5); double before[3];
    for (int i = 0; i < 3; i++) { Transform t = a[i]->getTransform(); t.setPosition(t.getPosition() + Vector3(ex, ey, 0.03125f)); Quaternion q = t.getOrientation(); q = Quaternion(er, 0.015625f, er * 0.5f, 1) * q; q.normalize(); if ((k + i) & 1) q = q * -1; t.setOrientation(q); a[i]->setTransform(t); before[i] = fault(j[i], rel[i]); }
    for (int n = 0; n < 3; n++) { W.w->update(DT); if (RPN) for (int i = 0; i < 3; i++) { State s1 = stateOf(j[i].b1), s2 = stateOf(j[i].b2); Geo g = geo(j[i], s1, s2); fprintf(stderr, "%d: n1 %g n2 %g tot %g\n", i, dot(g.u, g.n1), dot(g.u, g.n2), fault(j[i], rel[i])); } }
    for (int i = 0; i < 3; i++) { double e = fault(j[i], rel[i]);
#ifdef RPDBG
        fprintf(stderr, "kind %d k %d i %d baum %d before %g after %g\n", kind, k, i, j[i].baum, before[i], e);
#endif
        sym_check(e < before[i] * (j[i].baum ? 0.95 : 0.5) + 2e-3, "a displaced joint is not corrected"); }
    observe3("v", a[0]->getTransform().getPosition()); sym_reach("end");
}
// a chain of three free bodies with two joints
SYM_ENTRY(chain) {
    int kind = sym_pick("kind", BALL, SLIDER), other = sym_pick("other", BALL, SLIDER), k = sym_pick("cfg", 0, RP_TIER ? 5 : 1); World W; calm(W, 10); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f), s3 = sphereOf(W, 0.5f); Vector3 x0(1, -2, 3); D3 ax = AXES[k % 4];
    RigidBody *r[3] = { W.body(s1.s, x0, k * 5 % 20), W.body(s2.s, x0 + Vector3(1, 0.5f, -0.5f), 7), W.body(s3.s, x0 + Vector3(1.5f, 0, 1), 3) }; static const float M[4] = { 1, 2.5f, 8, 0.5f }; for (int i = 0; i < 3; i++) { massOf(r[i], M[(k + i) % 4], k + i); r[i]->getCollider(0)->setCollideWithMaskBits(0); }
    tieJoint(W, kind, r[0], r[1], x0 + Vector3(0.5f, 0.25f, -0.25f), Vector3(ax.x, ax.y, ax.z), k & 1, 0, -0.5f, 0.5f, kind >= HINGE); tieJoint(W, other, r[2], r[1], x0 + Vector3(1, 0.25f, 0.5f), Vector3(0, 0.6f, 0.8f), !(k & 1), 1, -0.5f, 0.5f, other >= HINGE && (k & 2)); setVel(r[0], "vx", "vy", "vz", "wx", "wz"); r[2]->setLinearVelocity(Vector3(0.5f, -1, 0.25f)); r[1]->setAngularVelocity(Vector3(1, 0, -0.5f));
    for (int s = 0; s < 2; s++) {
        State b[3]; for (int i = 0; i < 3; i++) b[i] = stateOf(r[i]); W.w->update(DT); D3 P(0, 0, 0), L(0, 0, 0); double size = 0;
        for (int i = 0; i < 3; i++) { D3 dv = (D3(r[i]->getLinearVelocity()) - b[i].v) * b[i].m; P = P + dv; L = L + cross(b[i].x, dv) + spin(b[i], D3(r[i]->getAngularVelocity()) - b[i].w); size += len(dv); }
        sym_check(len(P) < 1e-3, "the joints changed the total linear momentum"); sym_check(len(L) < 5e-3 + 0.01 * size * (s ? 4 : 1), "the joints changed the total angular momentum");
    }
    observe3("v", r[0]->getLinearVelocity()); sym_reach("end");
}
// every way to describe a joint gives the same joint as the plain description with its fields set one by one; settings read back
static bool sameState(RigidBody* a, RigidBody* b) { Transform s = a->getTransform(), t = b->getTransform(); return (s == t) & (a->getLinearVelocity() == b->getLinearVelocity()) & (a->getAngularVelocity() == b->getAngularVelocity()); }
struct Duo { World W; RigidBody *a, *b; Duo(int k) : W(Vector3(0, 0, 0)) { calm(W, 12); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f); a = W.body(s1.s, Vector3(1, -2, 3), k % 20); b = W.body(s2.s, Vector3(2, -1.75f, 2.5f), (k + 7) % 20); a->getCollider(0)->setCollideWithMaskBits(0); b->getCollider(0)->setCollideWithMaskBits(0); } };
template<class I, class JT> static JT* plain(World& W, I& i, bool coll, bool baum) { i.isCollisionEnabled = coll; if (baum) i.positionCorrectionTechnique = JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS; return (JT*)W.w->createJoint(i); }
SYM_ENTRY(described) {
    int kind = sym_pick("kind", 0, 3), ct = sym_pick("ctor", 0, kind == BALL || kind == FIXED ? 1 : 5), var = sym_pick("var", 0, 1); bool baum = var & 1, coll = !(var & 1);
    Duo A(ct * 3 + 1), B(ct * 3 + 1); float lo = -(sym_grid("lo", 0, 7, 3) + 0.125f), hi = sym_grid("hi", 0, 7, 3) + 0.125f, sp = sym_grid("speed", -4, 3, 1), mx = sym_grid("max", 0, 3, 0), vx = sym_grid("vx", -2, 1, 0);
    Vector3 p(1.5f, -1.75f, 2.75f), ax(0.6f, 0, 0.8f), l1(0.5f, 0.25f, -0.25f), l2(-0.5f, 0.125f, 0.25f), x1(0, 0.6f, 0.8f), x2(0.8f, 0, -0.6f); bool loc = ct >= (kind < HINGE ? 1 : 3); int full = kind < HINGE ? 0 : ct % 3; Joint *ja, *jb;
    if (kind == BALL) { auto i = loc ? BallAndSocketJointInfo(A.a, A.b, l1, l2) : BallAndSocketJointInfo(A.a, A.b, p), m = loc ? BallAndSocketJointInfo(B.a, B.b, l1, l2) : BallAndSocketJointInfo(B.a, B.b, p); auto *x = plain<BallAndSocketJointInfo, BallAndSocketJoint>(A.W, i, coll, baum), *y = plain<BallAndSocketJointInfo, BallAndSocketJoint>(B.W, m, coll, baum); ja = x; jb = y;
        sym_check(!x->isConeLimitEnabled(), "a cone limit without being asked for"); x->setConeLimitHalfAngle(hi); y->setConeLimitHalfAngle(hi); x->enableConeLimit(true); y->enableConeLimit(true); sym_check(x->isConeLimitEnabled() & (x->getConeLimitHalfAngle() == hi), "the cone limit does not read back"); if (var) { x->enableConeLimit(false); sym_check(!x->isConeLimitEnabled(), "the cone limit cannot be switched off"); y->enableConeLimit(false); } }
    else if (kind == FIXED) { auto i = loc ? FixedJointInfo(A.a, A.b, l1, l2) : FixedJointInfo(A.a, A.b, p), m = loc ? FixedJointInfo(B.a, B.b, l1, l2) : FixedJointInfo(B.a, B.b, p); ja = plain<FixedJointInfo, FixedJoint>(A.W, i, coll, baum); jb = plain<FixedJointInfo, FixedJoint>(B.W, m, coll, baum); }
    else if (kind == HINGE) {
        HingeJointInfo i = ct == 0 ? HingeJointInfo(A.a, A.b, p, ax) : ct == 1 ? HingeJointInfo(A.a, A.b, p, ax, lo, hi) : ct == 2 ? HingeJointInfo(A.a, A.b, p, ax, lo, hi, sp, mx) : ct == 3 ? HingeJointInfo(A.a, A.b, l1, l2, x1, x2) : ct == 4 ? HingeJointInfo(A.a, A.b, l1, l2, x1, x2, lo, hi) : HingeJointInfo(A.a, A.b, l1, l2, x1, x2, lo, hi, sp, mx);
        HingeJointInfo m = loc ? HingeJointInfo(B.a, B.b, l1, l2, x1, x2) : HingeJointInfo(B.a, B.b, p, ax); HingeJoint* x = plain<HingeJointInfo, HingeJoint>(A.W, i, coll, baum); HingeJoint* y = plain<HingeJointInfo, HingeJoint>(B.W, m, coll, baum); ja = x; jb = y; sym_check((!y->isLimitEnabled()) & (!y->isMotorEnabled()) & (y->getMotorSpeed() == 0) & (y->getMaxMotorTorque() == 0), "limits or motor without being asked for");
        if (full) { y->enableLimit(true); y->setMinAngleLimit(lo); y->setMaxAngleLimit(hi); sym_check((y->getMinAngleLimit() == lo) & (y->getMaxAngleLimit() == hi) & y->isLimitEnabled(), "limits do not read back"); } if (full == 2) { y->enableMotor(true); y->setMotorSpeed(sp); y->setMaxMotorTorque(mx); sym_check((y->getMotorSpeed() == sp) & (y->getMaxMotorTorque() == mx) & y->isMotorEnabled(), "the motor does not read back"); }
        sym_check((x->isLimitEnabled() == (full > 0)) & (x->isMotorEnabled() == (full == 2)), "limits and motor are those of the description"); sym_check((x->getMinAngleLimit() == y->getMinAngleLimit()) & (x->getMaxAngleLimit() == y->getMaxAngleLimit()) & (x->getMotorSpeed() == y->getMotorSpeed()) & (x->getMaxMotorTorque() == y->getMaxMotorTorque()), "limits and motor have the described values");
    } else {
        SliderJointInfo i = ct == 0 ? SliderJointInfo(A.a, A.b, p, ax) : ct == 1 ? SliderJointInfo(A.a, A.b, p, ax, lo, hi) : ct == 2 ? SliderJointInfo(A.a, A.b, p, ax, lo, hi, sp, mx) : ct == 3 ? SliderJointInfo(A.a, A.b, l1, l2, x1) : ct == 4 ? SliderJointInfo(A.a, A.b, l1, l2, x1, lo, hi) : SliderJointInfo(A.a, A.b, l1, l2, x1, lo, hi, sp, mx);
        SliderJointInfo m = loc ? SliderJointInfo(B.a, B.b, l1, l2, x1) : SliderJointInfo(B.a, B.b, p, ax); SliderJoint* x = plain<SliderJointInfo, SliderJoint>(A.W, i, coll, baum); SliderJoint* y = plain<SliderJointInfo, SliderJoint>(B.W, m, coll, baum); ja = x; jb = y; sym_check((!y->isLimitEnabled()) & (!y->isMotorEnabled()) & (y->getMotorSpeed() == 0) & (y->getMaxMotorForce() == 0), "limits or motor without being asked for");
        if (full) { y->enableLimit(true); y->setMinTranslationLimit(lo); y->setMaxTranslationLimit(hi); sym_check((y->getMinTranslationLimit() == lo) & (y->getMaxTranslationLimit() == hi) & y->isLimitEnabled(), "limits do not read back"); } if (full == 2) { y->enableMotor(true); y->setMotorSpeed(sp); y->setMaxMotorForce(mx); sym_check((y->getMotorSpeed() == sp) & (y->getMaxMotorForce() == mx) & y->isMotorEnabled(), "the motor does not read back"); }
        sym_check((x->isLimitEnabled() == (full > 0)) & (x->isMotorEnabled() == (full == 2)), "limits and motor are those of the description"); sym_check((x->getMinTranslationLimit() == y->getMinTranslationLimit()) & (x->getMaxTranslationLimit() == y->getMaxTranslationLimit()) & (x->getMotorSpeed() == y->getMotorSpeed()) & (x->getMaxMotorForce() == y->getMaxMotorForce()), "limits and motor have the described values");
    }
    sym_check((ja->getBody1() == A.a) & (ja->getBody2() == A.b) & (ja->isCollisionEnabled() == coll), "a joint of other bodies"); sym_check(ja->getType() == (kind == BALL ? JointType::BALLSOCKETJOINT : kind == FIXED ? JointType::FIXEDJOINT : kind == HINGE ? JointType::HINGEJOINT : JointType::SLIDERJOINT), "a joint of another type");
    sym_check((jb->getBody1() == B.a) & (jb->getBody2() == B.b), "a joint of other bodies"); A.a->setLinearVelocity(Vector3(vx, 0.5f, 0)); B.a->setLinearVelocity(Vector3(vx, 0.5f, 0)); A.b->setAngularVelocity(Vector3(0.5f, 1, -2)); B.b->setAngularVelocity(Vector3(0.5f, 1, -2));
    for (int s = 0; s < 2; s++) { A.W.w->update(DT); B.W.w->update(DT); sym_check(sameState(A.a, B.a) & sameState(A.b, B.b), "the joint moves differently"); }
    observe3("v", A.a->getLinearVelocity()); sym_reach("end");
}
// a body held against gravity by a joint, its limit or its motor stays at rest; once the load is carried, a single iteration per step is enough to go on carrying it
SYM_ENTRY(steady) {
    int what = sym_pick("what", 0, 8), k = sym_pick("cfg", 0, RP_TIER ? 7 : 3); bool sw = k & 1, baum = k & 2; float g = 2 + 2 * sym_grid("g", 0, 7, 0), arm = 1 + sym_grid("arm", 0, 3, 1); World W(Vector3(0, -g, 0)); calm(W, 60); Solid s = boxOf(W, Vector3(0.5f, 0.5f, 0.5f)); float m = MASS[k % 6][0]; Vector3 p(1, 2, -1); int kind = what == 0 ? BALL : what == 1 ? FIXED : what < 5 ? HINGE : SLIDER; bool up = what == 3 || what == 6;
    // 0 hanging ball joint, 1 fixed, 2/3 hinge at its lower/upper limit, 4 hinge held by its motor, 5/6 slider at its lower/upper limit, 7 held by its motor, 8 horizontal
    Vector3 axis = kind == HINGE ? Vector3(0, 0, 1) : what == 8 ? Vector3(1, 0, 0) : Vector3(0, 1, 0), d = what == 0 ? Vector3(0, -1, 0) : Vector3(up && kind == HINGE ? -1 : 1, 0, 0); if (kind == SLIDER && up) axis = -axis; if (sw) axis = -axis;
    RigidBody *b = W.body(s.s, p + d * arm, k * 5 % 12), *a = W.body(s.s, p - d * 4, 0, BodyType::STATIC); massOf(b, m, 0); b->getCollider(0)->setCollideWithMaskBits(0); a->getCollider(0)->setCollideWithMaskBits(0); RigidBody *c = sw ? b : a, *e = sw ? a : b;
    bool lim = what == 2 || what == 3 || what == 5 || what == 6; J j = tieJoint(W, kind, c, e, p, axis, baum, 0, up ? -1 : 0, up ? 0 : 1, lim); if (what == 4) { j.hinge()->setMotorSpeed(0); j.hinge()->setMaxMotorTorque(1e6f); j.hinge()->enableMotor(true); } if (what == 7) { j.slider()->setMotorSpeed(0); j.slider()->setMaxMotorForce(1e6f); j.slider()->enableMotor(true); }
    double worst = 0, late = 0; for (int i = 0; i < 16; i++) { if (i == 8 && !lim) W.w->setNbIterationsVelocitySolver(1); W.w->update(DT); double v = len(D3(b->getLinearVelocity())) + len(D3(b->getAngularVelocity())); if (i < 8) worst = maxd(worst, v); else late = maxd(late, v); }
    if (!lim) sym_check(late < 4e-4 * g, "a load that a joint carried is not carried on with a single iteration"); else { double at = kind == HINGE ? j.hinge()->getAngle() : j.slider()->getTranslation(); sym_check(absd(at) < 0.03, "a body does not rest at the limit of its joint"); }
    Vector3 x = b->getTransform().getPosition(), x0 = p + d * arm; sym_check(len(D3(x - x0)) < 0.02 * arm, "a body held by a joint does not stay where it is"); observe3("v", b->getLinearVelocity()); sym_reach("end");
}
// locked axes: a joint, its limits, its motor and its position correction never move a body along or (with all axes locked) about a locked axis, and keep the momentum along the axes that are free
SYM_ENTRY(locked) {
    static const int KS[6] = { 0, 9, 6, 4, 14, 24 }; static const float LK[6][3] = { {0,1,1}, {1,0,1}, {0,1,0}, {1,1,0}, {1,1,1}, {0,0,0} };
    int kind = sym_pick("kind", 0, 3), k = sym_pick("cfg", 0, RP_TIER ? 29 : 5), var = sym_pick("variant", 0, 3), c = k; if (!RP_TIER) k = KS[k]; double at = kind == FIXED ? 0.125 * var : var == 1 ? -0.7 : var == 2 ? 0.6 : 0.1; World W; calm(W, 0); Solid s1 = boxOf(W, Vector3(0.5f, 0.75f, 0.5f)), s2 = sphereOf(W, 0.75f);
    Setup u = build(W, kind, k, s1, s2, at, kind != FIXED && (var == 1 || var == 2), -0.5f, 0.25f, k % 3 == 1); RigidBody* r[2] = { u.a, u.b }; const float *ll[2] = { LK[(c + var) % 6], LK[(c + var + 1 + c / 2) % 6] }, *al[2] = { LK[(2 * c + var + 3) % 6], LK[(c + 2 * var + 5) % 6] };
    if (var == 3 && kind == HINGE) { u.j.hinge()->setMotorSpeed(3); u.j.hinge()->setMaxMotorTorque(1e5f); u.j.hinge()->enableMotor(true); } if (var == 3 && kind == SLIDER) { u.j.slider()->setMotorSpeed(3); u.j.slider()->setMaxMotorForce(1e5f); u.j.slider()->enableMotor(true); }
    for (int i = 0; i < 2; i++) { r[i]->setLinearLockAxisFactor(Vector3(ll[i][0], ll[i][1], ll[i][2])); r[i]->setAngularLockAxisFactor(Vector3(al[i][0], al[i][1], al[i][2])); }
    setVel(u.a, "vx", "vy", "vz", "wx", "wz"); if (k % 3 == 0) { u.b->setLinearVelocity(Vector3(0.25f, -0.5f, 0.125f)); u.b->setAngularVelocity(Vector3(0.5f, 0, -1)); } for (int i = 0; i < 2; i++) if (al[i][0] + al[i][1] + al[i][2] == 0 && r[i]->getType() == BodyType::DYNAMIC) r[i]->setAngularVelocity(Vector3(0, 0, 0));
    for (int s = 0; s < 2; s++) {
        State p[2] = { stateOf(u.a), stateOf(u.b) }; W.w->update(DT); D3 J[2];
        for (int i = 0; i < 2; i++) {
            D3 v(r[i]->getLinearVelocity()), w(r[i]->getAngularVelocity()), x = trd(r[i]->getTransform(), p[i].com), dv = v - p[i].v, dw = w - p[i].w, dx = x - p[i].x - v * DT; J[i] = dv * p[i].m; const float *l = ll[i], *a = al[i]; if (!p[i].dyn) { sym_check(neard(dv, D3(0, 0, 0), 0) & neard(dw, D3(0, 0, 0), 0), "a joint changed the velocity of a body that is not dynamic"); continue; }
            sym_check(((l[0] != 0) | (dv.x == 0)) & ((l[1] != 0) | (dv.y == 0)) & ((l[2] != 0) | (dv.z == 0)), "a joint pushed a body along a locked axis"); sym_check(((a[0] != 0) | (dw.x == 0)) & ((a[1] != 0) | (dw.y == 0)) & ((a[2] != 0) | (dw.z == 0)), "a joint turned a body about a locked axis");
            sym_check(((l[0] != 0) | (absd(dx.x) < 1e-5)) & ((l[1] != 0) | (absd(dx.y) < 1e-5)) & ((l[2] != 0) | (absd(dx.z) < 1e-5)), "the correction of a joint moved a body along a locked axis");
            if (a[0] + a[1] + a[2] == 0) { Quaternion q = r[i]->getTransform().getOrientation(); sym_check((absd(q.x - p[i].q.x) < 1e-5) & (absd(q.y - p[i].q.y) < 1e-5) & (absd(q.z - p[i].q.z) < 1e-5) & (absd(q.w - p[i].q.w) < 1e-5), "a joint turned a body whose rotation is locked"); }
        }
        if (p[0].dyn && p[1].dyn) { double tol = 1e-4 * (p[0].m + p[1].m); D3 S = J[0] + J[1]; sym_check(((ll[0][0] * ll[1][0] == 0) | (absd(S.x) < tol)) & ((ll[0][1] * ll[1][1] == 0) | (absd(S.y) < tol)) & ((ll[0][2] * ll[1][2] == 0) | (absd(S.z) < tol)), "a joint between bodies with locked axes changed the momentum along a free axis"); }
    }
    observe3("v", u.a->getLinearVelocity()); sym_reach("end");
}

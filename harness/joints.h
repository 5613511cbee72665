#pragma once
// bodies and joints as their user sees them (shared by C18 and C31)
#include "shapes.h"
#include <cstdio>
#ifndef RPN
#define RPN 0
#endif
static const float DT = 1.0f / 64;
static const float MASS[6][2] = { {1,1}, {2,0.5f}, {1000,2000}, {8,3}, {0.015625f,0.03125f}, {100,400} };
struct State { RigidBody* b; bool dyn; double m; D3 v, w, x, I, com; Quaternion q; };
static State stateOf(RigidBody* b, const D3& g = D3(0, 0, 0)) {
    State s; s.b = b; s.dyn = b->getType() == BodyType::DYNAMIC; s.m = b->getMass(); s.v = D3(b->getLinearVelocity()); s.w = D3(b->getAngularVelocity()); s.q = b->getTransform().getOrientation(); s.I = D3(b->getLocalInertiaTensor()); s.com = D3(b->getLocalCenterOfMass()); s.x = trd(b->getTransform(), s.com);
    if (s.dyn) s.v = s.v + g * DT; return s;
}
static D3 inv(const Quaternion& q, const D3& w) { return rotd(Quaternion(-q.x, -q.y, -q.z, q.w), w); }
static D3 spin(const State& s, const D3& w) { D3 l = inv(s.q, w); return rotd(s.q, D3(l.x * s.I.x, l.y * s.I.y, l.z * s.I.z)); }
// a joint as its user described it
struct J { int kind; RigidBody *b1, *b2; D3 a1, a2, ax1, ax2; Joint* j; bool baum; BallAndSocketJoint* ball() { return (BallAndSocketJoint*)j; } HingeJoint* hinge() { return (HingeJoint*)j; } SliderJoint* slider() { return (SliderJoint*)j; } };
enum { BALL, FIXED, HINGE, SLIDER };
static D3 localOf(RigidBody* b, const D3& p) { return inv(b->getTransform().getOrientation(), p - D3(b->getTransform().getPosition())); }
static J tieJoint(World& W, int kind, RigidBody* b1, RigidBody* b2, const Vector3& p, const Vector3& axis, bool baum, int local = 0, float lo = 0, float hi = 0, bool limits = false) {
    J o; o.kind = kind; o.b1 = b1; o.b2 = b2; o.baum = baum; o.a1 = localOf(b1, D3(p)); o.a2 = localOf(b2, D3(p)); D3 ax(axis); ax = ax * (1 / len(ax)); o.ax1 = inv(b1->getTransform().getOrientation(), ax); o.ax2 = inv(b2->getTransform().getOrientation(), ax);
    Vector3 l1(o.a1.x, o.a1.y, o.a1.z), l2(o.a2.x, o.a2.y, o.a2.z), x1(o.ax1.x, o.ax1.y, o.ax1.z), x2(o.ax2.x, o.ax2.y, o.ax2.z); auto T = baum ? JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS : JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL;
    if (kind == BALL) { BallAndSocketJointInfo i = local ? BallAndSocketJointInfo(b1, b2, l1, l2) : BallAndSocketJointInfo(b1, b2, p); i.positionCorrectionTechnique = T; o.j = W.w->createJoint(i); }
    else if (kind == FIXED) { FixedJointInfo i = local ? FixedJointInfo(b1, b2, l1, l2) : FixedJointInfo(b1, b2, p); i.positionCorrectionTechnique = T; o.j = W.w->createJoint(i); }
    else if (kind == HINGE) { HingeJointInfo i = local ? HingeJointInfo(b1, b2, l1, l2, x1, x2) : HingeJointInfo(b1, b2, p, axis); i.positionCorrectionTechnique = T; if (limits) { i.isLimitEnabled = true; i.minAngleLimit = lo; i.maxAngleLimit = hi; } o.j = W.w->createJoint(i); }
    else { SliderJointInfo i = local ? SliderJointInfo(b1, b2, l1, l2, x1) : SliderJointInfo(b1, b2, p, axis); i.positionCorrectionTechnique = T; if (limits) { i.isLimitEnabled = true; i.minTranslationLimit = lo; i.maxTranslationLimit = hi; } o.j = W.w->createJoint(i); }
    return o;
}
static Quaternion mulq(const Quaternion& a, const Quaternion& b) { return a * b; }
// the constraint of the joint holds for the velocities after the step. s1, s2: bodies before the step
struct Geo { D3 r1, r2, u, axis, n1, n2; };
static Geo geo(const J& j, const State& s1, const State& s2) { Geo g; g.r1 = rotd(s1.q, j.a1 - s1.com); g.r2 = rotd(s2.q, j.a2 - s2.com); g.u = s2.x + g.r2 - s1.x - g.r1; g.axis = rotd(s1.q, j.ax1); D3 t = absd(g.axis.x) < 0.6 ? D3(1, 0, 0) : D3(0, 1, 0); g.n1 = cross(g.axis, t); g.n1 = g.n1 * (1 / len(g.n1)); g.n2 = cross(g.axis, g.n1); return g; }
static void holds(const J& j, const State& s1, const State& s2, double tol) {
    D3 v1(j.b1->getLinearVelocity()), v2(j.b2->getLinearVelocity()), w1(j.b1->getAngularVelocity()), w2(j.b2->getAngularVelocity()); Geo g = geo(j, s1, s2); double beta = j.baum ? 0.2 / DT : 0;
    if (!s1.dyn && !s2.dyn) return;
#ifdef RPDBG
    { D3 r = v2 + cross(w2, g.r2) - v1 - cross(w1, g.r1); fprintf(stderr, "kind %d rel %g %g %g bias %g %g %g  w %g %g %g\n", j.kind, r.x, r.y, r.z, g.u.x*beta, g.u.y*beta, g.u.z*beta, w2.x-w1.x,w2.y-w1.y,w2.z-w1.z); }
#endif
    if (j.kind != SLIDER) { D3 r = v2 + cross(w2, g.r2) - v1 - cross(w1, g.r1) + g.u * beta; sym_check(neard(r, D3(0, 0, 0), tol), "the anchors move apart"); }
    else { D3 r = v2 + cross(w2, g.r2) - v1 - cross(w1, g.r1 + g.u); sym_check((absd(dot(r, g.n1) + beta * dot(g.u, g.n1)) <= tol) & (absd(dot(r, g.n2) + beta * dot(g.u, g.n2)) <= tol), "the slider moves across its axis"); }
    if (!j.baum) { if (j.kind == FIXED || j.kind == SLIDER) sym_check(neard(w2, w1, tol), "the bodies turn against each other"); if (j.kind == HINGE) { D3 d = w2 - w1; sym_check((absd(dot(d, g.n1)) <= tol) & (absd(dot(d, g.n2)) <= tol), "the hinge turns across its axis"); } }
}
// only the two bodies touch each other's momentum
static void conserved(const State& s1, const State& s2, double gap, bool angular = true) {
    D3 v1(s1.b->getLinearVelocity()), v2(s2.b->getLinearVelocity()), w1(s1.b->getAngularVelocity()), w2(s2.b->getAngularVelocity()); double sc = (s1.dyn ? s1.m : 0) + (s2.dyn ? s2.m : 0); D3 J1 = (v1 - s1.v) * s1.m, J2 = (v2 - s2.v) * s2.m;
    if (!s1.dyn) sym_check(neard(v1, s1.v, 0) & neard(w1, s1.w, 0), "a joint changed the velocity of a body that is not dynamic"); if (!s2.dyn) sym_check(neard(v2, s2.v, 0) & neard(w2, s2.w, 0), "a joint changed the velocity of a body that is not dynamic");
    if (!s1.dyn || !s2.dyn) return;
    sym_check(neard(J1 + J2, D3(0, 0, 0), 5e-5 * sc), "the joint changed the total linear momentum");
    if (angular) { D3 L = cross(s1.x, J1) + cross(s2.x, J2) + spin(s1, w1 - s1.w) + spin(s2, w2 - s2.w); sym_check(len(L) <= gap * (len(J1) + len(J2)) + 5e-4 * sc, "the joint changed the total angular momentum"); }
}
static void setVel(RigidBody* a, const char* nx, const char* ny, const char* nz, const char* n1, const char* n2) {
    Vector3 v, w; v.x = sym_grid(nx, -4, 3, 1); v.y = sym_grid(ny, -4, 3, 1); v.z = sym_grid(nz, -2, 1, 0); w.x = 2 * sym_grid(n1, -1, 0, 0); w.z = 2 * sym_grid(n2, -2, 1, 0); w.y = 1; a->setLinearVelocity(v); a->setAngularVelocity(w);
}
static void massOf(RigidBody* b, float m, int k) { b->updateMassFromColliders(); b->updateLocalInertiaTensorFromColliders(); b->setLocalInertiaTensor(b->getLocalInertiaTensor() * (m / b->getMass())); b->setMass(m); if (k & 2) { b->setLocalCenterOfMass(k & 1 ? Vector3(0.25f, -0.125f, 0.125f) : Vector3(0, 0.25f, -0.25f)); b->setLocalInertiaTensor(k & 1 ? Vector3(0.5f * m, m, 0.75f * m) : Vector3(m, 0.5f * m, 1.5f * m)); } }
static BodyType typeOf(int ty) { return ty == 0 ? BodyType::DYNAMIC : ty == 1 ? BodyType::STATIC : BodyType::KINEMATIC; }
static void calm(World& W, int its) { W.w->enableSleeping(false); if (its) W.w->setNbIterationsVelocitySolver(its); }
static Quaternion axisTurn(const D3& ax, double half) { double s = std::sin(half), c = std::cos(half); return Quaternion(ax.x * s, ax.y * s, ax.z * s, c); }
// moves body 2 by the joint's free motion: turn about the axis (hinge, ball) or translation along it (slider)
static void displace(J& j, RigidBody* moved, double amount, const D3& axis, const D3& p) {
    Transform t = moved->getTransform(); D3 x(t.getPosition()); if (j.kind == SLIDER) { x = x + axis * amount; t.setPosition(Vector3(x.x, x.y, x.z)); }
    else { Quaternion r = axisTurn(axis, amount / 2); Quaternion q = r * t.getOrientation(); q.normalize(); x = p + rotd(r, x - p); t.setPosition(Vector3(x.x, x.y, x.z)); t.setOrientation(q); }
    moved->setTransform(t);
}
// a joint displaced against its limits, next to the same joint without limits
struct Setup { RigidBody *a, *b; J j; };
static const D3 AXES[4] = { D3(0, 0, 1), D3(0.6, 0, 0.8), D3(-0.36, 0.48, 0.8), D3(1, 0, 0) };
static Setup build(World& W, int kind, int k, const Solid& s1, const Solid& s2, double amount, bool limits, float lo, float hi, bool whole) {
    Setup u; int ty = k % 3; bool sw = (k / 2) % 2; Vector3 x0(1, -2, 3); D3 ax = AXES[k % 4]; Vector3 axis(ax.x, ax.y, ax.z), p = x0 + Vector3(0.5f, 0.25f, -0.25f);
    u.a = W.body(s1.s, x0, (k * 5) % 20); u.b = W.body(s2.s, x0 + Vector3(1, 0.5f, -0.5f), (k * 7 + 3) % 20, typeOf(ty)); massOf(u.a, MASS[(k + 1) % 6][0], k); massOf(u.b, MASS[(k + 1) % 6][1], k / 3); u.a->getCollider(0)->setCollideWithMaskBits(0); u.b->getCollider(0)->setCollideWithMaskBits(0);
    u.j = sw ? tieJoint(W, kind, u.b, u.a, p, axis, k % 5 == 4, k & 1, lo, hi, limits) : tieJoint(W, kind, u.a, u.b, p, axis, k % 5 == 4, k & 1, lo, hi, limits); if (kind == BALL && limits) { u.j.ball()->setConeLimitHalfAngle(hi); u.j.ball()->enableConeLimit(true); }
    D3 P(p); if (whole) {                    // turn everything together first
        D3 c(0.48, 0.6, 0.64); for (RigidBody* r : { u.a, u.b }) { Quaternion q = axisTurn(c, 0.7); Transform t = r->getTransform(); D3 x = rotd(q, D3(t.getPosition())); Quaternion o = q * t.getOrientation(); o.normalize(); t.setPosition(Vector3(x.x, x.y, x.z)); t.setOrientation(o); r->setTransform(t); }
        Quaternion q = axisTurn(c, 0.7); P = rotd(q, P); ax = rotd(q, ax);
    }
    displace(u.j, u.j.b2, amount, ax, P); return u;
}

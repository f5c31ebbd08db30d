// Pairs of sides, their placement, reference verdicts, and named results of the queries.
#pragma once
#include "octx.h"
typedef fcl::Vector3d E3; typedef fcl::Transform3d TF;

// ---------------------------------------------------------------- sides and pairs
static Side randSide(Rng& r, int kindMask = 15, int nmax = 14) {
  for (;;) {
    T tf = randPose(r, 2); if (r.chance(.1)) tf.t = V();
    int k = r.below(10);
    if (k < 4 && kindMask & 1) return shapeSide(randShape(r, scene::randKind(r), .15, 1.2), tf);
    if (k >= 4 && k < 7 && kindMask & 2) return meshSide(r, goodMesh(r, nmax, r.uni(.2, 1.2)), r.below(8), tf);
    if (k >= 7 && k < 9 && kindMask & 4) return octSide(r, randOct(r, r.chance(.2) ? 20 : 6, r.uni(.2, 1.2), r.chance(.3)), tf);
    if (k == 9 && kindMask & 8) return shapeSide(randShape(r, r.chance(.5) ? HALFSPACE : PLANE, .1, 1.2), tf);
  }
}
static void movePrims(Side& s, const T& to) {
  for (auto& p : s.p) {
    if (p.s.k == TRI && s.kind == 1) { V c; for (int k = 0; k < 3; ++k) { p.s.pts[k] = to(s.tf.inv(p.s.pts[k])); c = c + p.s.pts[k] * (1. / 3); } p.c = c; }
    else { V l = s.tf.inv(p.c); p.tf.R = to.R; p.tf.t = to(l); p.c = p.tf.t; }
  }
  s.tf = to;
}
// place b near a primitive of a
static void placeNear(Rng& r, const Side& a, Side& b, int style = -1) {
  if (a.p.empty() || b.p.empty()) return;
  if (a.kind == 3 && b.kind == 3) return;
  T to = b.tf; if (r.chance(.15)) to.R = a.tf.R; else if (r.chance(.1)) to.R = a.tf.R * randRot(r, 2);
  auto& pa = a.p[r.below(a.p.size())]; auto& pb = b.p[r.below(b.p.size())];
  V lb = b.tf.inv(pb.c); double away = style == 0 ? r.u() * .7 : style == 1 ? r.uni(1.2, 3) : r.chance(.4) ? r.uni(.9, 2.5) : r.u();
  if (a.kind == 3 || b.kind == 3) {
    const Side& u = a.kind == 3 ? a : b; const Prim& q = a.kind == 3 ? pb : pa; V n = u.tf.R * u.shape.p;
    if (b.kind == 3) { n = to.R * b.shape.p; V target = pa.c + n * ((r.chance(.5) ? 1 : -1) * away * pa.rad); to.t = target - n * b.shape.d + cross(n, randIn(r, 1)); }
    else { V target = a.tf.t + n * (a.shape.d + (r.chance(.7) ? 1 : -1) * away * q.rad) + cross(n, randIn(r, 1)); to.t = target - to.R * lb; }
  } else to.t = pa.c + randUnit(r) * (away * (pa.rad + pb.rad)) - to.R * lb;
  movePrims(b, to);
}
static bool flat(const Prim& p) { return p.s.k == TRI; }
// 1 certainly meet by more than m, -1 certainly apart by more than m, 0 undecided
static int judge2(const Prim& a, const Prim& b, double m) {
  if (!a.s.bounded() && !b.s.bounded()) return 0;
  if (!a.s.bounded()) return judge2(b, a, m);
  if (!b.s.bounded()) return judge(a, b, m);
  if (norm(a.c - b.c) > a.rad + b.rad + m) return -1;
  Dist d = distance(a.s, a.tf, b.s, b.tf); if (!d.overlap) return d.lo > m ? -1 : 0;
  Depth q = depth(a.s, a.tf, b.s, b.tf, m * .2); return q.lo > m ? 1 : 0;
}
static int judgeSides(const Side& a, const Side& b, double m) { int v = -1; for (auto& p : a.p) for (auto& q : b.p) { int x = judge2(p, q, m); if (x > 0) return 1; if (!x) v = 0; } return v; }
static double refGap(const Side& a, const Side& b, bool& meet) {   // least certified distance; meet when some pair overlaps
  double g = 1e300; meet = false;
  for (auto& p : a.p) for (auto& q : b.p) {
    if (!p.s.bounded() && !q.s.bounded()) continue;
    if (!p.s.bounded() || !q.s.bounded()) { const Prim& u = p.s.bounded() ? q : p; const Prim& s = p.s.bounded() ? p : q; V n = u.tf.R * u.s.p; double d = u.s.d + dot(n, u.tf.t), mn, mx; extentAlong(s.s, s.tf, n, mn, mx); double x = u.s.k == HALFSPACE ? mn - d : std::max(mn - d, d - mx); g = std::min(g, x); if (x <= 0) meet = true; continue; }
    if (norm(p.c - q.c) - p.rad - q.rad > g) continue;
    Dist d = distance(p.s, p.tf, q.s, q.tf); if (d.overlap) { meet = true; return 0; } g = std::min(g, (double)d.lo);
  }
  return g;
}
static const Prim* primOf(const Side& s, intptr_t id) { for (auto& p : s.p) if (p.id == id) return &p; return nullptr; }
static double sideScale(const Side& s) { double x = .1; for (auto& p : s.p) x = std::max(x, norm(p.c) + (p.s.bounded() ? p.rad : 0)); return x; }
static std::string pname(const Side& a, const Side& b) { auto f = [](const Side& s) { return s.kind == 1 ? std::string("Mesh") : s.name; }; return f(a) + "-" + f(b); }
static fcl::GJKSolverType solver(int s) { return s ? fcl::GST_INDEP : fcl::GST_LIBCCD; }

struct Ct { intptr_t a, b; V p, n; double d; };
struct Cont { bool named = true; size_t ret = 0; std::vector<Ct> c; std::map<std::pair<intptr_t, intptr_t>, std::vector<Ct>> by; };
static Cont collideNamed(const Side& a, const TF& ta, const Side& b, const TF& tb, bool swap, int s, size_t nmax = 100000, bool contact = true) {
  fcl::CollisionRequestd q(nmax, contact, 1, false, true, solver(s)); fcl::CollisionResultd res; Cont o;
  o.ret = swap ? fcl::collide(b.g.get(), tb, a.g.get(), ta, q, res) : fcl::collide(a.g.get(), ta, b.g.get(), tb, q, res);
  for (size_t i = 0; i < res.numContacts(); ++i) {
    auto& k = res.getContact(i); bool fwd = k.o1 == a.g.get() && k.o2 == b.g.get(), rev = k.o1 == b.g.get() && k.o2 == a.g.get();
    if (!fwd && !rev) { o.named = false; continue; }
    Ct x{fwd ? k.b1 : k.b2, fwd ? k.b2 : k.b1, rv(k.pos), fwd ? rv(k.normal) : -rv(k.normal), k.penetration_depth}; o.c.push_back(x); o.by[{x.a, x.b}].push_back(x);
  }
  return o;
}
struct Ds { bool named = true; double ret, d; V p[2]; intptr_t id[2]; };
static Ds distNamed(const Side& a, const TF& ta, const Side& b, const TF& tb, bool swap, int s, bool pts = true, bool sgn = false) {
  fcl::DistanceRequestd q(pts, sgn, 0, 0, 1e-6, solver(s)); fcl::DistanceResultd res; Ds o;
  o.ret = swap ? fcl::distance(b.g.get(), tb, a.g.get(), ta, q, res) : fcl::distance(a.g.get(), ta, b.g.get(), tb, q, res); o.d = res.min_distance;
  bool fwd = res.o1 == a.g.get() && res.o2 == b.g.get(), rev = res.o1 == b.g.get() && res.o2 == a.g.get(); o.named = fwd || rev; int k = fwd ? 0 : 1;
  o.p[0] = rv(res.nearest_points[k]); o.p[1] = rv(res.nearest_points[1 - k]); o.id[0] = k ? res.b2 : res.b1; o.id[1] = k ? res.b1 : res.b2; return o;
}
static T jiggle(Rng& r, const T& t, double e) { T o = t; o.R = t.R * axisAngle(randUnit(r), e); o.t = t.t + randUnit(r) * e; return o; }

// pairs answered by closed formulas (the others by iterative solvers)
static bool exactPair(const Side& a, const Side& b) {
  if (a.kind == 3 || b.kind == 3) return true; auto cls = [](const Side& s) { return s.kind == 1 ? 2 : s.kind == 2 || s.shape.k == BOX ? 1 : s.shape.k == SPHERE ? 0 : 9; };
  int x = cls(a), y = cls(b); if (x > y) std::swap(x, y); return y <= 1 || (x == 0 && y == 2) || (x == 2 && y == 2);
}
static Ct top(const std::vector<Ct>& u) { Ct m = u[0]; for (auto& z : u) if (z.d > m.d) m = z; return m; }


// Narrow phase on bounded primitives: verdicts, contacts, distances, signed distances, half-spaces, triangles.
#include "scene.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision_object.h"
#include "fcl/narrowphase/detail/gjk_solver_libccd.h"
#include "fcl/narrowphase/detail/gjk_solver_indep.h"
using namespace fx;
using namespace scene;
typedef std::shared_ptr<fcl::CollisionGeometry<double>> G;
static fcl::GJKSolverType solv(int s) { return s ? fcl::GST_INDEP : fcl::GST_LIBCCD; }
static const char* sn(int s) { return s ? "indep" : "ccd"; }

static size_t doCollide(Rng& r, G a, const T& ta, G b, const T& tb, const fcl::CollisionRequest<double>& q, fcl::CollisionResult<double>& res) {
  if (r.chance(.5)) return fcl::collide(a.get(), ft<double>(ta), b.get(), ft<double>(tb), q, res);
  fcl::CollisionObject<double> o1(a, ft<double>(ta)), o2(b, ft<double>(tb));
  return fcl::collide(&o1, &o2, q, res);
}
static double doDistance(Rng& r, G a, const T& ta, G b, const T& tb, const fcl::DistanceRequest<double>& q, fcl::DistanceResult<double>& res) {
  if (r.chance(.5)) return fcl::distance(a.get(), ft<double>(ta), b.get(), ft<double>(tb), q, res);
  fcl::CollisionObject<double> o1(a, ft<double>(ta)), o2(b, ft<double>(tb));
  return fcl::distance(&o1, &o2, q, res);
}

VH_PROP(N01) {
  auto& r = c.rng; static const double GM = 5e-4, DM = 1e-3;
  Kind ka = BOUNDED[c.caseno % 7], kb = BOUNDED[c.caseno / 7 % 7];
  double u = r.u(); int place = u < .35 ? GAP : u < .7 ? SHALLOW : u < .85 ? ANY : u < .93 ? DEEP : CONCENTRIC;
  Pair p = randPair(r, ka, kb, place);
  int want = verdict(p, GM, DM);
  if (!want) { c.count("undecided: too close to contact"); return; }
  G ga = fg<double>(p.a), gb = fg<double>(p.b);
  for (int s = 0; s < 2; ++s) {
    fcl::CollisionRequest<double> q(r.range(1, 10), r.chance(.5)); q.gjk_solver_type = solv(s); fcl::CollisionResult<double> res;
    std::string pr = std::string(kname(ka)) + "-" + kname(kb) + " " + sn(s);
    c.phase("collide %s", pr.c_str());
    size_t n = doCollide(r, ga, p.ta, gb, p.tb, q, res);
    c.count(want > 0 ? "checked colliding" : "checked apart");
    c.observe(hash(p, s));
    if ((n > 0) != (want > 0) || res.isCollision() != (want > 0)) {
      std::string k = std::string(want > 0 ? "missed" : "false hit") + "|" + pr;
      c.violation(k, vh::fmt("verdict n=%d isCollision=%d but reference says %s (gap lo %.9g hi %.9g) place=%s ", (int)n, res.isCollision(), want > 0 ? "overlap" : "apart", p.d.lo, p.d.hi, plname(place)) + p.str());
    }
  }
  if (c.caseno < 4) c.sample(vh::fmt("%s-%s %s reference %s: ", kname(ka), kname(kb), plname(place), want > 0 ? "overlap" : "apart") + p.str());
}

// smallest residual overlap after moving B by mv
static double residual(const Pair& p, const V& mv) {
  T t = p.tb; t.t = t.t + mv; Dist q = distance(p.a, p.ta, p.b, t); if (!q.overlap) return 0; return depth(p.a, p.ta, p.b, t, 1e-4).lo;
}
static double overlapAlong(const Pair& p, const V& n) {   // translation of B along n that just separates by that direction's slab
  V sa = p.ta(p.a.sup(tmul(p.ta.R, n))), sb = p.tb(p.b.sup(tmul(p.tb.R, -n))); return dot(sa - sb, n);
}
static bool is2(Kind a, Kind b, Kind x, Kind y) { return (a == x && b == y) || (a == y && b == x); }
static bool closedForm(Kind a, Kind b, int s) {   // pairs with a dedicated exact algorithm
  return (a == SPHERE && b == SPHERE) || is2(a, b, SPHERE, BOX) || is2(a, b, SPHERE, CAPSULE) || is2(a, b, SPHERE, CYLINDER);
}
VH_PROP(N02) {
  auto& r = c.rng;
  Kind ka = BOUNDED[c.caseno % 7], kb = BOUNDED[c.caseno / 7 % 7];
  double u = r.u(); int place = u < .5 ? SHALLOW : u < .75 ? ANY : u < .95 ? DEEP : CONCENTRIC;
  Pair p = randPair(r, ka, kb, place);
  if (!p.d.overlap) { c.count("apart"); return; }
  Depth dp = depth(p.a, p.ta, p.b, p.tb, 1e-4);
  if (!dp.ok || dp.lo < 1e-3) { c.count("undecided"); return; }
  G ga = fg<double>(p.a), gb = fg<double>(p.b);
  for (int s = 0; s < 2; ++s) {
    fcl::CollisionRequest<double> q(10, true); q.gjk_solver_type = solv(s); fcl::CollisionResult<double> res;
    std::string pr = std::string(kname(ka)) + "-" + kname(kb) + " " + sn(s);
    c.phase("collide %s", pr.c_str());
    doCollide(r, ga, p.ta, gb, p.tb, q, res);
    if (!res.numContacts()) { c.count("no contact"); continue; }
    c.observe(hash(p, s));
    bool boxes = ka == BOX && kb == BOX, exact = closedForm(ka, kb, s), epa = s == 1 && !boxes && !exact;
    if (!boxes && res.numContacts() != 1) c.violation("count|" + pr, vh::fmt("%d contacts for one convex pair ", (int)res.numContacts()) + p.str());
    double best = -1e300;
    for (size_t i = 0; i < res.numContacts(); ++i) {
      auto& k = res.getContact(i); V n = rv(k.normal); double D = k.penetration_depth; V pos = rv(k.pos); c.count("contacts checked");
      std::string info = vh::fmt("contact %d/%d normal=%s depth=%.9g pos=%s true depth in [%.9g,%.9g] place=%s ", (int)i, (int)res.numContacts(), str(n).c_str(), D, str(pos).c_str(), dp.lo, dp.hi, plname(place)) + p.str();
      if (k.o1 != ga.get() || k.o2 != gb.get()) c.violation("objects|" + pr, info);
      if (!(std::isfinite(D) && std::isfinite(dot(n, pos)))) { c.violation("not finite|" + pr, info); continue; }
      bool concentric = ka == SPHERE && kb == SPHERE && norm(p.ta.t - p.tb.t) < 1e-12;   // documented: no direction, zero normal
      if (concentric) { c.count("concentric spheres"); }
      else if (std::fabs(norm(n) - 1) > 1e-6) { c.violation("normal not unit|" + pr, info); continue; }
      if (D < -1e-9) c.violation("negative depth|" + pr, info);
      best = std::max(best, D);
      double po = std::max(pointOut(pos, p.a, p.ta), pointOut(pos, p.b, p.tb));
      double plim = D + (epa ? .02 + .1 * dp.hi : 2e-3);
      c.maxi(epa ? "position outside (over limit) epa" : "position outside (over limit)", po - plim);
      if (po > plim) c.violation((epa ? "epa imprecise|position " : "position|") + pr, vh::fmt("contact point %.6g outside an object; ", po) + info);
      if (concentric) continue;
      double ex = overlapAlong(p, n);
      if (boxes) {   // a manifold: the normal is an axis of least overlap (up to the preference for face axes), depths are those of its points
        if (ex > 1.06 * dp.hi + 1e-3) c.violation("box normal|" + pr, vh::fmt("overlap along the normal %.9g ", ex) + info);
        if (D > ex + 1e-3) c.violation("box depth|" + pr, vh::fmt("overlap along the normal only %.9g ", ex) + info);
        continue;
      }
      double rs = residual(p, n * D);
      if (epa) {
        c.maxi("epa residual / depth", rs / dp.hi); c.maxi("epa depth error / depth", std::fabs(D - dp.hi) / dp.hi);
        if (D > dp.hi + 1e-3) c.violation("depth above true|" + pr, info);
        if (rs > .02 + .15 * dp.hi) c.violation("epa imprecise|residual " + pr, vh::fmt("still %.9g deep after the move ", rs) + info);
        else if (D < dp.lo * .93 - .01) c.violation("epa imprecise|depth " + pr, info);
      } else {
        c.maxi("residual", rs);
        if (rs > 2e-3) c.violation("not separated|" + pr, vh::fmt("still %.9g deep after the move ", rs) + info);
        if (exact) { c.maxi("exact depth error", std::fabs(D - dp.hi)); if (D > dp.hi + 2e-3) c.violation("depth above true|" + pr, info); }
      }
    }
    if (boxes && best < 0) c.violation("box depth|" + pr, "no contact with positive depth");
    if (c.caseno < 200 && c.caseno % 50 == 3) c.sample(vh::fmt("%s: %d contacts, depth %.6g, true %.6g: ", pr.c_str(), (int)res.numContacts(), best, dp.hi) + p.str());
  }
}
VH_PROP(N03) {
  auto& r = c.rng;
  Kind ka = BOUNDED[c.caseno % 7], kb = BOUNDED[c.caseno / 7 % 7];
  Pair p = randPair(r, ka, kb, r.chance(.85) ? GAP : r.chance(.5) ? SHALLOW : DEEP);
  if (!p.d.overlap && (p.d.hi - p.d.lo > 1e-8 || p.d.lo < 5e-4)) { c.count("undecided"); return; }
  if (p.d.overlap && depth(p.a, p.ta, p.b, p.tb, 2e-4).lo < 1e-3) { c.count("undecided"); return; }
  G ga = fg<double>(p.a), gb = fg<double>(p.b);
  for (int s = 0; s < 2; ++s) {
    fcl::DistanceRequest<double> q(true); q.gjk_solver_type = solv(s); fcl::DistanceResult<double> res;
    std::string pr = std::string(kname(ka)) + "-" + kname(kb) + " " + sn(s);
    c.phase("distance %s", pr.c_str());
    double v = doDistance(r, ga, p.ta, gb, p.tb, q, res);
    c.observe(hash(p, s));
    V p1 = rv(res.nearest_points[0]), p2 = rv(res.nearest_points[1]);
    std::string info = vh::fmt("returned %.12g min_distance %.12g reference [%.12g,%.12g] overlap=%d points %s %s ", v, res.min_distance, p.d.lo, p.d.hi, p.d.overlap, str(p1).c_str(), str(p2).c_str()) + p.str();
    if (p.d.overlap) { c.count("overlapping checked"); if (!(v <= 0)) c.violation("positive distance of overlapping shapes|" + pr, info); continue; }
    c.count("separated checked");
    if (v != res.min_distance) c.violation("return value differs from result|" + pr, info);
    double e = std::fabs(v - p.d.hi), tol = s ? 3e-4 : 2e-5; c.maxi(std::string("distance error ") + sn(s), e);
    if (!(e <= tol * std::max(1.0, p.d.hi))) { c.violation("distance|" + pr, info); continue; }
    if (res.o1 != ga.get() || res.o2 != gb.get()) c.violation("objects|" + pr, info);
    double np = std::fabs(norm(p1 - p2) - v), on = std::max(pointOut(p1, p.a, p.ta), pointOut(p2, p.b, p.tb));
    c.maxi(std::string("witness distance mismatch ") + sn(s), np); c.maxi(std::string("witness off shape ") + sn(s), on);
    if (!(np <= 5e-4 && on <= 5e-4)) c.violation("witness|" + pr, vh::fmt("off by %.6g, off shape by %.6g ", np, on) + info);
    if (c.caseno < 3) c.sample(vh::fmt("%s: distance %.9g, reference %.9g: ", pr.c_str(), v, p.d.hi) + p.str());
  }
}
VH_PROP(N04) {
  auto& r = c.rng;
  Kind ka = BOUNDED[c.caseno % 7], kb = BOUNDED[c.caseno / 7 % 7];
  double u = r.u(); int place = u < .5 ? SHALLOW : u < .7 ? DEEP : u < .8 ? ANY : u < .85 ? CONCENTRIC : GAP;
  Pair p = randPair(r, ka, kb, place);
  Depth dp; if (p.d.overlap) { dp = depth(p.a, p.ta, p.b, p.tb, 1e-4); if (!dp.ok || dp.lo < 1e-3) { c.count("undecided"); return; } }
  else if (p.d.lo < 5e-4) { c.count("undecided"); return; }
  G ga = fg<double>(p.a), gb = fg<double>(p.b);
  for (int s = 0; s < 2; ++s) {
    fcl::DistanceRequest<double> q(true, true); q.gjk_solver_type = solv(s); fcl::DistanceResult<double> res;
    std::string pr = std::string(kname(ka)) + "-" + kname(kb) + " " + sn(s);
    c.phase("signed distance %s", pr.c_str());
    double v = doDistance(r, ga, p.ta, gb, p.tb, q, res);
    V p1 = rv(res.nearest_points[0]), p2 = rv(res.nearest_points[1]);
    c.observe(hash(p, s)); c.count(p.d.overlap ? "overlapping checked" : "separated checked");
    std::string info = vh::fmt("returned %.12g min_distance %.12g reference gap [%.12g,%.12g] depth [%.12g,%.12g] overlap=%d points %s %s place=%s ", v, res.min_distance, p.d.lo, p.d.hi, dp.lo, dp.hi, p.d.overlap, str(p1).c_str(), str(p2).c_str(), plname(place)) + p.str();
    double m = res.min_distance;
    if (!p.d.overlap) {
      if (!(std::fabs(m - p.d.hi) <= (s ? 3e-4 : 2e-5) * std::max(1.0, p.d.hi)) || v != m) c.violation("separated|" + pr, info);
      continue;
    }
    if (!(v < 0 && m < 0)) { c.violation("not negative|" + pr, info); continue; }
    if (s == 0) {
      double e = std::max(-m - dp.hi, dp.lo + m); c.maxi("signed distance error ccd", e); c.maxi("return value error ccd", std::fabs(v - m));
      if (!(e <= 2e-4) || std::fabs(v - m) > 1e-12) { c.violation("depth|" + pr, info); continue; }
      double np = std::fabs(norm(p1 - p2) + m), on = std::max(pointOut(p1, p.a, p.ta), pointOut(p2, p.b, p.tb)), in = std::max(pointIn(p1, p.a, p.ta), pointIn(p2, p.b, p.tb)), rs = residual(p, p1 - p2);
      c.maxi("witness distance mismatch ccd", np); c.maxi("witness off shape ccd", on); c.maxi("witness inside shape ccd", in); c.maxi("residual after the move ccd", rs);
      if (!(np <= 5e-4 && on <= 5e-4 && in <= 2e-3)) c.violation("witness|" + pr, vh::fmt("mismatch %.6g outside %.6g inside %.6g ", np, on, in) + info);
      else if (rs > 2e-3) c.violation("not separated by the witnesses|" + pr, vh::fmt("still %.6g deep ", rs) + info);
    } else {
      bool boxes = ka == BOX && kb == BOX, exact = closedForm(ka, kb, s);
      if (-m > (boxes ? 1.06 : 1.0) * dp.hi + 1e-3) c.violation("depth above true|" + pr, info);
      if (exact && -m < dp.lo - 1e-3) c.violation("depth|" + pr, info);
      if (!boxes && !exact) { c.maxi("relative depth error indep", 1 + m / dp.lo); if (-m < dp.lo * .93 - .01) c.violation("epa imprecise|depth " + pr, info); }
    }
    if (c.caseno < 3) c.sample(vh::fmt("%s: signed distance %.9g, reference depth [%.9g,%.9g]: ", pr.c_str(), m, dp.lo, dp.hi) + p.str());
  }
}

static double flatGap(const Shape& f, const T& tf, V& n) { n = tf.R * f.p; return f.d + dot(n, tf.t); }   // boundary n.x = return
VH_PROP(N06) {
  auto& r = c.rng;
  bool half = c.caseno & 1; Kind k = BOUNDED[c.caseno / 2 % 7]; bool flatFirst = c.caseno / 14 % 2; int mode = c.caseno / 28 % 8;
  Shape f = randShape(r, half ? HALFSPACE : PLANE, .2, 3); T tf = randPose(r, 4);
  if (r.chance(.1)) f.p = f.p * r.logu(.1, 10), f.d *= norm(f.p);      // constructor normalises
  Shape fn = f; { double l = norm(f.p); fn.p = f.p * (1 / l); fn.d = f.d / l; }
  V n; double d = flatGap(fn, tf, n);
  if (mode == 7) {   // two unbounded objects: verdict only
    Kind k2 = r.chance(.5) ? HALFSPACE : PLANE; Shape g = randShape(r, k2, .2, 3); T tg = randPose(r, 4);
    double u = r.u();
    if (u < .6) { tg.R = tf.R; g.p = fn.p * (r.chance(.5) ? 1 : -1); if (r.chance(.5)) { tg.R = randRot(r, 0); g.p = tmul(tg.R, n) * (r.chance(.5) ? 1 : -1); } g.p = unit(g.p); }
    V m; double e = flatGap(g, tg, m); bool want, par = norm(cross(n, m)) < 1e-7; if (!par && norm(cross(n, m)) < 1e-3) return;
    double gap;   // > 0: apart by that much (parallel case)
    if (!par) gap = -1;
    else if (dot(n, m) > 0) { if (half && k2 == HALFSPACE) gap = -1; else if (half) gap = e - d; else if (k2 == HALFSPACE) gap = d - e; else gap = std::fabs(d - e); }
    else { if (!half && k2 == PLANE) gap = std::fabs(d + e); else gap = -(d + e); }
    if (std::fabs(gap) < 1e-6) return; want = gap < 0;
    G ga = fg<double>(f), gb = fg<double>(g);
    for (int s = 0; s < 2; ++s) for (int ct = 0; ct < 2; ++ct) {
      fcl::CollisionRequest<double> q(4, ct); q.gjk_solver_type = solv(s); fcl::CollisionResult<double> res;
      std::string pr = std::string(kname(f.k)) + "-" + kname(k2) + " " + sn(s); c.phase("collide %s", pr.c_str());
      size_t nn = doCollide(r, ga, tf, gb, tg, q, res); c.count("unbounded pairs checked"); vh::Hash h; h.add(d); h.add(e); h.add(s); c.observe(h.h);
      if ((nn > 0) != want || res.isCollision() != want) c.violation("verdict|" + pr, vh::fmt("n=%d isCollision=%d reference %d (gap %.9g, parallel=%d) contacts=%d ", (int)nn, res.isCollision(), want, gap, par, ct) + f.str() + str(tf) + g.str() + str(tg));
    }
    return;
  }
  Shape a = randShape(r, k, .2, 3); T ta = randPose(r, 4);
  if (r.chance(.25)) { V t = ta.t; M q = randRot(r, 0); ta.R = r.chance(.5) ? tf.R : q; if (r.chance(.6)) { // an axis of the shape along / across the normal
      V ax; ax[r.below(3)] = r.chance(.5) ? 1 : -1; V w = cross(ax, n); double sn = norm(w), cs = dot(ax, n); if (sn > 1e-9) ta.R = axisAngle(w, std::atan2(sn, cs)); else ta.R = M(); if (r.chance(.3)) ta.R = axisAngle(n, r.uni(0, 6)) * ta.R; } ta.t = t; }
  double mn, mx; extentAlong(a, ta, n, mn, mx);
  double u = r.u(), want = u < .3 ? r.uni(.01, 1) * (mx - mn) : u < .5 ? r.logu(1e-3, .1) : u < .6 ? (mx - mn) * r.uni(1, 3) : u < .65 ? .5 * (mx - mn) : -r.logu(1e-3, 4);   // depth of the deepest point
  ta.t = ta.t + n * (d - want - mn); extentAlong(a, ta, n, mn, mx);
  double depthRef = half ? d - mn : std::min(d - mn, mx - d); bool over = depthRef > 0;
  if (std::fabs(depthRef) < 5e-4) { c.count("undecided"); return; }
  G ga = fg<double>(a), gf = fg<double>(f);
  for (int s = 0; s < 2; ++s) {
    bool ct = r.chance(.9); fcl::CollisionRequest<double> q(4, ct); q.gjk_solver_type = solv(s); fcl::CollisionResult<double> res;
    std::string pr = (flatFirst ? std::string(kname(f.k)) + "-" + kname(k) : std::string(kname(k)) + "-" + kname(f.k)) + " " + sn(s);
    c.phase("collide %s", pr.c_str());
    size_t nn = flatFirst ? doCollide(r, gf, tf, ga, ta, q, res) : doCollide(r, ga, ta, gf, tf, q, res);
    std::string info = vh::fmt("extent along the normal [%.9g,%.9g], boundary at %.9g ", mn, mx, d) + a.str() + " at " + str(ta) + " flat " + f.str() + " at " + str(tf);
    c.count(over ? "colliding checked" : "apart checked"); { vh::Hash h; h.add(a.str()); h.add(mn); h.add(s); h.add(flatFirst); c.observe(h.h); }
    if ((nn > 0) != over || res.isCollision() != over) { c.violation(std::string(over ? "missed" : "false hit") + "|" + pr, info); continue; }
    if (!over || !ct) continue;
    if (res.numContacts() != 1) c.violation("count|" + pr, vh::fmt("%d contacts ", (int)res.numContacts()) + info);
    auto& x = res.getContact(0); V N = rv(x.normal), pos = rv(x.pos); double D = x.penetration_depth;
    info = vh::fmt("normal=%s depth=%.9g pos=%s ", str(N).c_str(), D, str(pos).c_str()) + info;
    if (x.o1 != (flatFirst ? gf : ga).get() || x.o2 != (flatFirst ? ga : gf).get()) c.violation("objects|" + pr, info);
    if (std::fabs(norm(N) - 1) > 1e-6 || norm(cross(N, n)) > 1e-6) { c.violation("normal|" + pr, info); continue; }
    double toShape = flatFirst ? dot(N, n) : -dot(N, n);   // the shape moves by +D along toShape*n
    c.maxi("depth error", std::fabs(D - depthRef)); if (!(std::fabs(D - depthRef) < 1e-3)) { c.violation("depth|" + pr, vh::fmt("true depth %.9g ", depthRef) + info); continue; }
    double lo = mn + toShape * D, hi = mx + toShape * D, rs = half ? d - lo : std::min(d - lo, hi - d);
    c.maxi("residual", rs); if (rs > 1e-3) { c.violation("not separated|" + pr, vh::fmt("still %.9g deep after the move ", rs) + info); continue; }
    double po = pointOut(pos, a, ta), fl = half ? dot(n, pos) - d : std::fabs(dot(n, pos) - d);
    c.maxi("position outside the shape over half the depth", po - D / 2); c.maxi("position outside the flat", half ? fl : fl - D);
    if (po > D + 1e-3 || fl > (half ? 1e-3 : D + 1e-3)) c.violation("position|" + pr, vh::fmt("outside the shape by %.6g, the flat by %.6g ", po, fl) + info);
    if (c.caseno < 3) c.sample(pr + vh::fmt(" depth %.9g reference %.9g ", D, depthRef) + info);
  }
  // the same flat against a triangle, through the solver
  Shape t = randShape(r, TRI, .2, 3); T tt = randPose(r, 4); extentAlong(t, tt, n, mn, mx); tt.t = tt.t + n * (d - mn - r.uni(-.3, 1) * (mx - mn)); extentAlong(t, tt, n, mn, mx);
  double dr = half ? d - mn : std::min(d - mn, mx - d); if (std::fabs(dr) < 1e-6) return;
  for (int s = 0; s < 2; ++s) {
    fcl::Vector3d P, N; double D = 0; bool hit; fcl::Vector3d q[3] = {fv<double>(t.pts[0]), fv<double>(t.pts[1]), fv<double>(t.pts[2])};
    fcl::Halfspace<double> H(fv<double>(f.p), f.d); fcl::Plane<double> L(fv<double>(f.p), f.d); auto F = ft<double>(tf), X = ft<double>(tt);
    std::string pr = std::string(kname(f.k)) + "-Triangle " + sn(s); c.phase("%s", pr.c_str());
    fcl::detail::GJKSolver_libccd<double> g1; fcl::detail::GJKSolver_indep<double> g2;
    if (s) hit = half ? g2.shapeTriangleIntersect(H, F, q[0], q[1], q[2], X, &P, &D, &N) : g2.shapeTriangleIntersect(L, F, q[0], q[1], q[2], X, &P, &D, &N);
    else hit = half ? g1.shapeTriangleIntersect(H, F, q[0], q[1], q[2], X, &P, &D, &N) : g1.shapeTriangleIntersect(L, F, q[0], q[1], q[2], X, &P, &D, &N);
    c.count("triangles checked");
    std::string info = vh::fmt("extent [%.9g,%.9g] boundary %.9g depth %.9g normal %s ", mn, mx, d, hit ? D : 0, hit ? str(rv(N)).c_str() : "-") + t.str() + str(tt) + f.str() + str(tf);
    if (hit != (dr > 0)) { c.violation("verdict|" + pr, info); continue; }
    if (!hit) continue;
    double mv = dot(rv(N), n) * D, rs = half ? d - (mn + mv) : std::min(d - (mn + mv), mx + mv - d);
    if (std::fabs(norm(rv(N)) - 1) > 1e-9 || std::fabs(D - dr) > 1e-9 || rs > 1e-9) c.violation("contact|" + pr, vh::fmt("residual %.9g ", rs) + info);
    if (pointOut(rv(P), t, tt) > D / 2 + 1e-9 || (half ? dot(n, rv(P)) - d > 1e-9 : std::fabs(dot(n, rv(P)) - d) > 1e-9)) c.violation("position|" + pr, info);
  }
}

template <class F> static void withShape(const Shape& s, F f) {
  auto g = fg<double>(s);
  switch (s.k) {
    case SPHERE: return f(static_cast<fcl::Sphere<double>&>(*g)); case BOX: return f(static_cast<fcl::Box<double>&>(*g));
    case ELLIPSOID: return f(static_cast<fcl::Ellipsoid<double>&>(*g)); case CAPSULE: return f(static_cast<fcl::Capsule<double>&>(*g));
    case CONE: return f(static_cast<fcl::Cone<double>&>(*g)); case CYLINDER: return f(static_cast<fcl::Cylinder<double>&>(*g));
    default: return f(static_cast<fcl::Convex<double>&>(*g));
  }
}
VH_PROP(N07) {
  auto& r = c.rng;
  Kind k = BOUNDED[c.caseno % 7]; bool wt = c.caseno / 7 % 2;
  Pair p = randPair(r, k, TRI, r.chance(.45) ? GAP : r.chance(.6) ? SHALLOW : r.chance(.5) ? DEEP : ANY);
  if (r.chance(.15)) { double f = r.logu(.02, 1); for (auto& q : p.b.pts) q.z *= f; p.d = distance(p.a, p.ta, p.b, p.tb); }
  Shape tri = p.b; T tt = p.tb; if (!wt) { for (auto& q : tri.pts) q = p.tb(q); tt = T(); }
  p.b = tri; p.tb = tt; p.d = distance(p.a, p.ta, p.b, p.tb);
  int want = 0; Depth dp;
  if (!p.d.overlap) { if (p.d.lo > 5e-4 && p.d.hi - p.d.lo < 1e-7) want = -1; } else { dp = depth(p.a, p.ta, p.b, p.tb, 2e-4); if (dp.ok && dp.lo > 1e-3) want = 1; }
  if (!want) { c.count("undecided"); return; }
  fcl::Vector3d q[3] = {fv<double>(tri.pts[0]), fv<double>(tri.pts[1]), fv<double>(tri.pts[2])}; auto X = ft<double>(tt), A = ft<double>(p.ta);
  for (int s = 0; s < 2; ++s) {
    std::string pr = std::string(kname(k)) + "-Triangle " + sn(s) + (wt ? " posed" : ""); fcl::Vector3d P, N, p1, p2; double D = 0, dist = -7; bool hit = false, apart = false, bare = false;
    N.setZero(); P.setZero(); p1.setZero(); p2.setZero();
    fcl::detail::GJKSolver_libccd<double> g1; fcl::detail::GJKSolver_indep<double> g2;
    c.phase("intersect %s", pr.c_str());
    withShape(p.a, [&](auto& sh) {
      if (s) { hit = wt ? g2.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], X, &P, &D, &N) : g2.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], &P, &D, &N); bare = wt ? g2.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], X) : g2.shapeTriangleIntersect(sh, A, q[0], q[1], q[2]); }
      else { hit = wt ? g1.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], X, &P, &D, &N) : g1.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], &P, &D, &N); bare = wt ? g1.shapeTriangleIntersect(sh, A, q[0], q[1], q[2], X) : g1.shapeTriangleIntersect(sh, A, q[0], q[1], q[2]); }
      c.phase("distance %s", pr.c_str());
      if (s) apart = wt ? g2.shapeTriangleDistance(sh, A, q[0], q[1], q[2], X, &dist, &p1, &p2) : g2.shapeTriangleDistance(sh, A, q[0], q[1], q[2], &dist, &p1, &p2);
      else apart = wt ? g1.shapeTriangleDistance(sh, A, q[0], q[1], q[2], X, &dist, &p1, &p2) : g1.shapeTriangleDistance(sh, A, q[0], q[1], q[2], &dist, &p1, &p2);
    });
    c.observe(hash(p, s)); c.count(want > 0 ? "colliding checked" : "apart checked");
    std::string info = vh::fmt("hit=%d bare=%d depth=%.9g normal=%s pos=%s apart=%d dist=%.9g p1=%s p2=%s reference gap [%.9g,%.9g] depth [%.9g,%.9g] ", hit, bare, D, str(rv(N)).c_str(), str(rv(P)).c_str(), apart, dist, str(rv(p1)).c_str(), str(rv(p2)).c_str(), p.d.lo, p.d.hi, dp.lo, dp.hi) + p.str();
    if (hit != (want > 0) || bare != (want > 0)) { c.violation(std::string(want > 0 ? "missed" : "false hit") + "|" + pr, info); continue; }
    if (apart != (want < 0)) { c.violation("distance verdict|" + pr, info); continue; }
    if (want > 0) {
      V n = rv(N), pos = rv(P); if (!(std::fabs(norm(n) - 1) < 1e-6)) { c.violation("normal not unit|" + pr, info); continue; }
      if (!(D >= -1e-9)) { c.violation("negative depth|" + pr, info); continue; }
      double rs = residual(p, n * D), po = std::max(pointOut(pos, p.a, p.ta), pointOut(pos, p.b, p.tb)); bool epa = s && k != SPHERE; std::string e = epa ? "epa imprecise|" : "";
      c.maxi(std::string("residual ") + (epa ? "epa" : "exact"), rs); c.maxi(std::string("position over depth ") + (epa ? "epa" : "exact"), po - D); c.maxi(std::string("depth above true ") + sn(s), D - dp.hi);
      if (rs > (epa ? .02 + .15 * dp.hi : 2e-3)) c.violation(e + "not separated|" + pr, vh::fmt("still %.9g deep ", rs) + info);
      if (po > (epa ? D + .02 + .1 * dp.hi : D + 2e-3)) c.violation(e + "position|" + pr, vh::fmt("outside by %.9g ", po) + info);
    } else {
      c.maxi(std::string("distance error ") + sn(s), std::fabs(dist - p.d.hi));
      if (!(std::fabs(dist - p.d.hi) <= (s ? 3e-4 : 2e-5) * std::max(1.0, p.d.hi))) { c.violation("distance|" + pr, info); continue; }
      double np = std::fabs(norm(rv(p1) - rv(p2)) - dist), on = std::max(pointOut(rv(p1), p.a, p.ta), pointOut(rv(p2), p.b, p.tb)); c.maxi(std::string("witness ") + sn(s), std::max(np, on));
      if (!(np <= 5e-4 && on <= 5e-4)) c.violation("witness|" + pr, vh::fmt("mismatch %.6g off %.6g ", np, on) + info);
    }
    if (c.caseno < 3) c.sample(pr + ": " + info);
  }
}
VH_MAIN

#include <iostream>
// Motions, continuous collision and the interval / Taylor-model arithmetic behind it.
#include "scene.h"
#include "bvx.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/motion/triangle_motion_bound_visitor.h"
#include "fcl/math/motion/tbv_motion_bound_visitor.h"
#include "fcl/math/motion/taylor_model/taylor_matrix.h"
#include "fcl/math/motion/taylor_model/taylor_vector.h"
#include "fcl/math/motion/taylor_model/interval_matrix.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/continuous_collision_object.h"
using namespace fx;
typedef fcl::Vector3d E3; typedef fcl::Matrix3d M3; typedef fcl::Transform3d TF;
typedef fcl::Interval<double> I; typedef fcl::IVector3<double> IV; typedef fcl::IMatrix3<double> IM;
typedef fcl::TaylorModel<double> TM; typedef fcl::TVector3<double> TV; typedef fcl::TMatrix3<double> TX;
typedef std::shared_ptr<fcl::TimeInterval<double>> TI;

// ---------------------------------------------------------------- motions
struct Mot { std::shared_ptr<fcl::MotionBase<double>> m; int kind = 0; std::string info; TF a, b; bool ends = true; double speed0 = 0, spin = 0; V pivot; bool about = false; E3 Td[4], Rd[4]; bool spline4 = false; E3 ref = E3::Zero(); double loose = 0; };
static const char* mkind[] = {"Translation", "Interp", "Screw", "Spline"};
static V off(vh::Rng& r, double e) { return r.chance(.1) ? V(0, 0, 0) : r.chance(.3) ? V(r.uni(-e, e), 0, 0) : randIn(r, e); }
static Mot randMotion(vh::Rng& r, double e, int kind = -1, double spinmax = 3.1, const T* pa = nullptr, const V* pb = nullptr) {
  Mot o; o.kind = kind < 0 ? r.below(4) : kind; T a = pa ? *pa : randPose(r, e), b;
  double ang = r.chance(.15) ? 0 : r.chance(.1) ? r.logu(1e-13, 1e-3) : r.uni(0, spinmax); if (r.chance(.05)) ang = 3.14159265358979 - r.logu(1e-9, 1e-3);
  b.R = axisAngle(r.chance(.3) ? V(0, 0, 1) : randUnit(r), ang) * a.R; b.t = pb ? *pb : a.t + off(r, 2 * e);
  if (o.kind == 0) b.R = a.R;
  o.a = ft<double>(a); o.b = ft<double>(b); int way = r.below(3);
  M3 R1 = o.a.linear(), R2 = o.b.linear(); E3 T1 = o.a.translation(), T2 = o.b.translation();
  if (o.kind == 3 && ang < 1e-6) o.loose = 1e-7;   // rotation vectors of tiny turns are rounded to 1e-8
  if (o.kind == 2 && ang > 0) o.loose = 1e-14 * (o.b.translation() - o.a.translation()).norm() / std::max(ang, 1e-10);   // the axis of a screw with a tiny turn is far away
  switch (o.kind) {
    case 0: if (way) o.m = std::make_shared<fcl::TranslationMotion<double>>(o.a, o.b); else o.m = std::make_shared<fcl::TranslationMotion<double>>(R1, T1, T2); break;
    case 1: { int w = r.below(4); o.ref = fv<double>(randIn(r, 1));
      if (w == 0) o.m = std::make_shared<fcl::InterpMotion<double>>(o.a, o.b); else if (w == 1) o.m = std::make_shared<fcl::InterpMotion<double>>(R1, T1, R2, T2);
      else if (w == 2) o.m = std::make_shared<fcl::InterpMotion<double>>(o.a, o.b, o.ref); else o.m = std::make_shared<fcl::InterpMotion<double>>(R1, T1, R2, T2, o.ref);
      if (w < 2) o.ref = E3::Zero(); way = w; break; }
    case 2: if (way) o.m = std::make_shared<fcl::ScrewMotion<double>>(o.a, o.b); else o.m = std::make_shared<fcl::ScrewMotion<double>>(R1, T1, R2, T2); break;
    default:
      if (way == 0) o.m = std::make_shared<fcl::SplineMotion<double>>(o.a, o.b); else if (way == 1) o.m = std::make_shared<fcl::SplineMotion<double>>(R1, T1, R2, T2);
      else { o.spline4 = true; o.ends = false; double w = r.pick(std::vector<double>{0, .3, 1, 2}); for (int i = 0; i < 4; ++i) { o.Td[i] = fv<double>(randIn(r, e)); o.Rd[i] = fv<double>(randIn(r, w)); } if (r.chance(.2)) for (int i = 1; i < 4; ++i) o.Rd[i] = o.Rd[0];
        o.m = std::make_shared<fcl::SplineMotion<double>>(o.Td[0], o.Td[1], o.Td[2], o.Td[3], o.Rd[0], o.Rd[1], o.Rd[2], o.Rd[3]); }
  }
  o.info = vh::fmt("%s motion (constructor %d) turn %.6g ", mkind[o.kind], way, ang) + "from " + ref::str(rt<double>(o.a)) + " to " + ref::str(rt<double>(o.b)) + " ref " + ref::str(rv(o.ref));
  if (o.spline4) { o.info = "Spline motion"; for (int i = 0; i < 4; ++i) o.info += " " + ref::str(rv(o.Td[i])); for (int i = 0; i < 4; ++i) o.info += " " + ref::str(rv(o.Rd[i])); }
  return o;
}
static TF at(const Mot& m, double t) { m.m->integrate(t); TF x; m.m->getCurrentTransform(x); return x; }
static double rotDiff(const TF& x, const TF& y) { return (x.linear() - y.linear()).cwiseAbs().maxCoeff(); }
static double posDiff(const TF& x, const TF& y) { return (x.translation() - y.translation()).cwiseAbs().maxCoeff(); }

// ---------------------------------------------------------------- C03
static bool near9(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (scale + std::fabs(b)); }
static bool inside(const I& i, double v, double tol) { return i[0] - tol <= v && v <= i[1] + tol; }
static I randI(vh::Rng& r) { double s = r.pick(std::vector<double>{1, 1, 10, 1e-3}); double a = r.uni(-s, s), b = r.uni(-s, s); if (a > b) std::swap(a, b); switch (r.below(8)) { case 0: b = a; break; case 1: a = 0; if (b < 0) b = -b; break; case 2: b = 0; if (a > 0) a = -a; break; case 3: a = std::fabs(a); b = a + std::fabs(b); break; case 4: b = -std::fabs(b); a = b - std::fabs(a); break; default:; } return I(a, b); }
static double memb(vh::Rng& r, const I& i) { int k = r.below(4); double v = k == 0 ? i[0] : k == 1 ? i[1] : r.uni(i[0], i[1]); return std::min(i[1], std::max(i[0], v)); }
static std::string istr(const I& i) { return vh::fmt("[%.17g,%.17g]", i[0], i[1]); }
struct MV { IV i; E3 v; }; struct MM { IM i; M3 v; };
static MV randMV(vh::Rng& r) { MV o; I c[3]; for (int k = 0; k < 3; ++k) { c[k] = randI(r); o.v[k] = memb(r, c[k]); } switch (r.below(4)) { case 0: o.i = IV(c); break; case 1: o.i = IV(c[0], c[1], c[2]); break; case 2: o.i = IV(c[0][0], c[0][1], c[1][0], c[1][1], c[2][0], c[2][1]); break; default: { double a[3][2]; for (int k = 0; k < 3; ++k) { a[k][0] = c[k][0]; a[k][1] = c[k][1]; } o.i = IV(a); } } return o; }
static MM randMM(vh::Rng& r) { MM o; I c[3][3]; double a[3][3][2]; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) { c[k][l] = randI(r); o.v(k, l) = memb(r, c[k][l]); a[k][l][0] = c[k][l][0]; a[k][l][1] = c[k][l][1]; } switch (r.below(3)) { case 0: o.i = IM(c); break; case 1: o.i = IM(a); break; default: o.i = IM(IV(c[0]), IV(c[1]), IV(c[2])); } return o; }
static bool inV(const IV& i, const E3& v) { for (int k = 0; k < 3; ++k) if (!inside(i[k], v[k], 1e-11 * (1 + std::fabs(v[k])))) return false; return true; }
static bool inM(const IM& i, const M3& v) { for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) if (!inside(i(k, l), v(k, l), 1e-11 * (1 + std::fabs(v(k, l))))) return false; return true; }

static void intervals(vh::Ctx& c) {
  auto& r = c.rng; I a = randI(r), b = randI(r); double s = r.chance(.1) ? 0 : r.normal() * 3;
  std::string ab = istr(a) + " and " + istr(b); c.phase("Interval");
  for (int rep = 0; rep < 6; ++rep) {
    double x = memb(r, a), y = memb(r, b), tol = 1e-12 * (1 + std::fabs(x)) * (1 + std::fabs(y)) * 10;
    auto ck = [&](const I& got, double v, const char* op) { c.count("interval operations"); if (!inside(got, v, tol * (1 + std::fabs(v)))) c.violation(std::string("interval|") + op, vh::fmt("%s gives %s without %.17g, from %.17g and %.17g in ", op, istr(got).c_str(), v, x, y) + ab + vh::fmt(" s=%.17g", s)); };
    I t; ck(a + b, x + y, "+"); ck(a - b, x - y, "-"); ck(a * b, x * y, "*"); ck(a * s, x * s, "* scalar"); ck(-a, -x, "negation");
    t = a; t += b; ck(t, x + y, "+="); t = a; t -= b; ck(t, x - y, "-="); t = a; t *= b; ck(t, x * y, "*="); t = a; t *= s; ck(t, x * s, "*= scalar");
    if (b[0] > 1e-3 || b[1] < -1e-3) { ck(a / b, x / y, "/"); t = a; t /= b; ck(t, x / y, "/="); }
    t = a; t.bound(b); ck(t, x, "bound"); ck(t, y, "bound"); t = a; t.bound(s); ck(t, s, "bound value"); ck(t, x, "bound value"); ck(fcl::bound(a, b), y, "bound()"); ck(fcl::bound(a, b), x, "bound()"); ck(fcl::bound(a, s), s, "bound() value"); ck(fcl::bound(a, s), x, "bound() value");
    if (!a.contains(x)) c.violation("interval|contains", vh::fmt("%.17g ", x) + ab);
    if (std::fabs(x) < a.getAbsLower() - tol || std::fabs(x) > a.getAbsUpper() + tol) c.violation("interval|getAbsLower/Upper", vh::fmt("%.17g outside [%.17g,%.17g] ", x, a.getAbsLower(), a.getAbsUpper()) + ab);
    if (b.contains(x)) { if (!a.overlap(b) || !b.overlap(a)) c.violation("interval|overlap", ab); t = a; if (!t.intersect(b)) c.violation("interval|intersect", "no for " + ab); ck(t, x, "intersect"); }
  }
  bool ov = a[0] <= b[1] && b[0] <= a[1]; if (a.overlap(b) != ov) c.violation("interval|overlap", ab); I t = a; if (t.intersect(b) != ov) c.violation("interval|intersect", ab);
  if (ov && !(t == I(std::max(a[0], b[0]), std::min(a[1], b[1])))) c.violation("interval|intersect", "result " + istr(t) + " of " + ab);
  if (std::fabs(a.diameter() - (a[1] - a[0])) > 1e-12 * (1 + std::fabs(a[0]) + std::fabs(a[1])) || std::fabs(a.center() - .5 * (a[0] + a[1])) > 1e-12 * (1 + std::fabs(a[0]) + std::fabs(a[1]))) c.violation("interval|center or diameter", ab);
  double d = memb(r, a), e2 = a[1] + r.logu(1e-6, 1), e1 = a[0] - r.logu(1e-6, 1); if (!a.contains(d) || a.contains(e1) || a.contains(e2)) c.violation("interval|contains", ab);
  MV u = randMV(r), v = randMV(r); MM m = randMM(r), n = randMM(r); E3 w(r.normal(), r.normal(), r.normal()); M3 W; for (int k = 0; k < 9; ++k) W(k / 3, k % 3) = r.normal();
  auto kv = [&](const IV& g, const E3& x, const char* op) { c.count("vector operations"); if (!inV(g, x)) c.violation(std::string("interval vector|") + op, vh::fmt("(%.9g,%.9g,%.9g) outside %s %s %s", x[0], x[1], x[2], istr(g[0]).c_str(), istr(g[1]).c_str(), istr(g[2]).c_str())); };
  auto ks = [&](const I& g, double x, const char* op) { c.count("vector operations"); if (!inside(g, x, 1e-10 * (1 + std::fabs(x)))) c.violation(std::string("interval vector|") + op, vh::fmt("%.9g outside %s", x, istr(g).c_str())); };
  auto km = [&](const IM& g, const M3& x, const char* op) { c.count("matrix operations"); if (!inM(g, x)) { std::ostringstream o; o << x; c.violation(std::string("interval matrix|") + op, "members " + o.str()); } };
  c.phase("IVector3"); IV q; kv(u.i, u.v, "constructor"); kv(u.i + v.i, u.v + v.v, "+"); kv(u.i - v.i, u.v - v.v, "-"); q = u.i; q += v.i; kv(q, u.v + v.v, "+="); q = u.i; q -= v.i; kv(q, u.v - v.v, "-=");
  ks(u.i.dot(v.i), u.v.dot(v.v), "dot"); ks(u.i.dot(w), u.v.dot(w), "dot value"); kv(u.i.cross(v.i), u.v.cross(v.v), "cross"); kv(u.i.cross(w), u.v.cross(w), "cross value"); kv(IV(w), w, "from vector");
  q = u.i; q.bound(v.i); kv(q, u.v, "bound"); kv(q, v.v, "bound"); q = u.i; q.bound(w); kv(q, w, "bound value"); kv(q, u.v, "bound value"); q = fcl::bound(u.i, v.i); kv(q, u.v, "bound()"); kv(q, v.v, "bound()"); q = fcl::bound(u.i, w); kv(q, u.v, "bound() value"); kv(q, w, "bound() value");
  { bool o3 = true, in3 = true; for (int k = 0; k < 3; ++k) { o3 = o3 && u.i[k].overlap(v.i[k]); in3 = in3 && u.i[k][0] <= v.i[k][0] && v.i[k][1] <= u.i[k][1]; } if (u.i.overlap(v.i) != o3) c.violation("interval vector|overlap", ""); if (u.i.contain(v.i) != in3) c.violation("interval vector|contain", ""); IV sub = u.i; for (int k = 0; k < 3; ++k) { double x = memb(r, u.i[k]), y = memb(r, u.i[k]); sub[k] = I(std::min(x, y), std::max(x, y)); } if (!u.i.contain(sub) || !u.i.overlap(sub)) c.violation("interval vector|contain", "part of itself"); }
  for (int k = 0; k < 3; ++k) if (u.i.getLow()[k] != u.i[k][0] || u.i.getHigh()[k] != u.i[k][1]) c.violation("interval vector|getLow/getHigh", "");
  { double vol = u.i[0].diameter() * u.i[1].diameter() * u.i[2].diameter(); if (!near9(u.i.volumn(), vol, 1)) c.violation("interval vector|volumn", ""); for (int k = 0; k < 3; ++k) if (!near9(u.i.center()[k], u.i[k].center(), 1)) c.violation("interval vector|center", ""); }
  c.phase("IMatrix3"); IM g; km(m.i, m.v, "constructor"); km(IM(W), W, "from matrix"); km(m.i + n.i, m.v + n.v, "+"); km(m.i - n.i, m.v - n.v, "-"); g = m.i; g += n.i; km(g, m.v + n.v, "+="); g = m.i; g -= n.i; km(g, m.v - n.v, "-=");
  km(m.i * n.i, m.v * n.v, "*"); g = m.i; g *= n.i; km(g, m.v * n.v, "*="); km(m.i * W, m.v * W, "* value"); g = m.i; g *= W; km(g, m.v * W, "*= value"); kv(m.i * u.i, m.v * u.v, "matrix * vector"); kv(m.i * w, m.v * w, "matrix * value");
  for (int k = 0; k < 3; ++k) { kv(m.i.getColumn(k), m.v.col(k), "column"); kv(m.i.getRow(k), m.v.row(k).transpose(), "row"); for (int l = 0; l < 3; ++l) if (m.i.getLow()(k, l) != m.i(k, l)[0] || m.i.getHigh()(k, l) != m.i(k, l)[1]) { c.violation("interval matrix|getLow/getHigh", ""); k = 3; break; } }
  for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) if (m.i.getColumnLow(k)[l] != m.i(l, k)[0] || m.i.getColumnHigh(k)[l] != m.i(l, k)[1] || m.i.getRowLow(k)[l] != m.i(k, l)[0] || m.i.getRowHigh(k)[l] != m.i(k, l)[1]) c.violation("interval matrix|row or column limits", "");
  IM rot = m.i; M3 rv_ = m.v; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) { double lo = r.uni(-1.5, 1), hi = lo + r.uni(0, 2); if (hi < -1) hi = -.5; rot(k, l) = I(lo, hi); rv_(k, l) = std::min(1., std::max(-1., memb(r, rot(k, l)))); }
  km(fcl::rotationConstrain(rot), rv_, "rotationConstrain()"); g = rot; g.rotationConstrain(); km(g, rv_, "rotationConstrain");
  vh::Hash h; h.add(a[0]); h.add(a[1]); h.add(b[0]); h.add(b[1]); c.observe(h.h);
}

static const int K = 9;
struct Tr { TM m; double f[K]; }; struct Tv { TV m; double f[3][K]; }; struct Tx { TX m; double f[3][3][K]; };
struct Tay {
  vh::Ctx& c; vh::Rng& r; TI ti; double l, h, t[K]; bool dead = false;
  explicit Tay(vh::Ctx& c_) : c(c_), r(c_.rng) { l = r.uni(0, .9); h = r.uni(l, 1); if (r.chance(.3)) { l = 0; h = 1; } if (r.chance(.1)) h = l + r.logu(1e-6, 1e-2); ti = std::make_shared<fcl::TimeInterval<double>>(l, h); for (int k = 0; k < K; ++k) t[k] = k == 0 ? l : k == 1 ? h : r.uni(l, h); }
  std::string when() const { return vh::fmt(" over [%.17g,%.17g]", l, h); }
  bool ck1(const TM& m, const double* f, const std::string& op) {
    double s = 1 + std::fabs(m.coeff(0)) + std::fabs(m.coeff(1)) + std::fabs(m.coeff(2)) + std::fabs(m.coeff(3)) + std::fabs(m.remainder()[0]) + std::fabs(m.remainder()[1]), tol = 2e-12 * s;
    I all = m.getBound(), tight = m.getTightBound(); double p = r.uni(l, h), q = r.uni(l, h); if (p > q) std::swap(p, q); I part = m.getBound(p, q), tpart = m.getTightBound(p, q); c.count("models checked");
    for (int k = 0; k < K; ++k) { I x = m.getBound(t[k]); const char* w = !inside(x, f[k], tol) ? "getBound(t)" : !inside(all, f[k], tol) ? "getBound()" : !inside(tight, f[k], tol) ? "getTightBound()" : t[k] >= p && t[k] <= q && !inside(part, f[k], tol) ? "getBound(l,r)" : t[k] >= p && t[k] <= q && !inside(tpart, f[k], tol) ? "getTightBound(l,r)" : nullptr;
      if (w) { I b = *w == 'g' && w[3] == 'T' ? tight : w[8] == '(' && w[9] == 't' ? x : all; dead = true; c.violation("Taylor model|" + op + "|" + w, vh::fmt("value %.17g at %.17g outside %s (all %s), coefficients %.9g %.9g %.9g %.9g remainder %s", f[k], t[k], istr(b).c_str(), istr(all).c_str(), m.coeff(0), m.coeff(1), m.coeff(2), m.coeff(3), istr(m.remainder()).c_str()) + when()); return false; } }
    return true;
  }
  template <class F> Tr base(const TM& m, F fn, const std::string& op) { Tr o{m, {}}; for (int k = 0; k < K; ++k) o.f[k] = fn(t[k]); ck1(o.m, o.f, op); return o; }
  Tr leaf() {
    TM m(ti); double w = r.chance(.1) ? 0 : r.uni(-7, 7), q = r.chance(.4) ? 0 : r.uni(-4, 4), p = r.normal(), v = r.normal(), c2 = r.normal(), c3 = r.chance(.3) ? 0 : r.normal();
    if (r.chance(.3)) { m.coeff(1) = 3; m.coeff(3) = -2; m.remainder() = I(-5, 4); }   // a model that was in use before
    switch (r.below(5)) {
      case 0: return base(TM(p, ti), [=](double) { return p; }, "constant");
      case 1: fcl::generateTaylorModelForLinearFunc(m, p, v); return base(m, [=](double x) { return p + v * x; }, "linear");
      case 2: fcl::generateTaylorModelForCosFunc(m, w, q); return base(m, [=](double x) { return std::cos(w * x + q); }, w == 0 ? "cos of a constant" : "cos");
      case 3: fcl::generateTaylorModelForSinFunc(m, w, q); return base(m, [=](double x) { return std::sin(w * x + q); }, w == 0 ? "sin of a constant" : "sin");
      default: { I rem(-.01, .02); double d = r.uni(-.01, .02); if (r.chance(.5)) { double cc[4] = {p, v, c2, c3}; m = TM(cc, rem, ti); } else m = TM(p, v, c2, c3, rem, ti); return base(m, [=](double x) { return p + x * (v + x * (c2 + x * c3)) + d; }, "cubic"); }
    }
  }
  Tr op(int depth) {
    if (depth == 0 || r.chance(.15)) return leaf();
    Tr a = op(depth - 1); double s = r.chance(.1) ? 0 : r.normal(); if (dead) return a;
    auto un = [&](const TM& m, auto fn, const char* n) { Tr o{m, {}}; for (int k = 0; k < K; ++k) o.f[k] = fn(a.f[k]); ck1(o.m, o.f, n); return o; };
    TM m = a.m;
    switch (r.below(14)) {
      case 0: return un(a.m + s, [=](double x) { return x + s; }, "+ value"); case 1: return un(a.m - s, [=](double x) { return x - s; }, "- value"); case 2: return un(a.m * s, [=](double x) { return x * s; }, "* value");
      case 3: return un(s + a.m, [=](double x) { return x + s; }, "value +"); case 4: return un(s - a.m, [=](double x) { return s - x; }, "value -"); case 5: return un(s * a.m, [=](double x) { return x * s; }, "value *");
      case 6: m += s; return un(m, [=](double x) { return x + s; }, "+= value"); case 7: m -= s; return un(m, [=](double x) { return x - s; }, "-= value"); case 8: m *= s; return un(m, [=](double x) { return x * s; }, "*= value"); case 9: return un(-a.m, [](double x) { return -x; }, "negation");
      default: {
        Tr b = op(depth - 1); if (dead) return b; auto bin = [&](const TM& q, auto fn, const char* n) { Tr o{q, {}}; for (int k = 0; k < K; ++k) o.f[k] = fn(a.f[k], b.f[k]); ck1(o.m, o.f, n); return o; };
        auto ad = [](double x, double y) { return x + y; }; auto su = [](double x, double y) { return x - y; }; auto mu = [](double x, double y) { return x * y; };
        switch (r.below(6)) { case 0: return bin(a.m + b.m, ad, "+"); case 1: return bin(a.m - b.m, su, "-"); case 2: return bin(a.m * b.m, mu, "*"); case 3: m += b.m; return bin(m, ad, "+="); case 4: m -= b.m; return bin(m, su, "-="); default: m *= b.m; return bin(m, mu, "*="); }
      }
    }
  }
  Tv vec() { Tv o; Tr x[3] = {leaf(), leaf(), leaf()}; if (r.chance(.5)) o.m = TV(x[0].m, x[1].m, x[2].m); else { TM a[3] = {x[0].m, x[1].m, x[2].m}; o.m = TV(a); } for (int i = 0; i < 3; ++i) for (int k = 0; k < K; ++k) o.f[i][k] = x[i].f[k]; return o; }
  Tx mat() { Tx o; Tv x[3] = {vec(), vec(), vec()}; if (r.chance(.5)) o.m = TX(x[0].m, x[1].m, x[2].m); else { TM a[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = x[i].m[j]; o.m = TX(a); } for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < K; ++k) o.f[i][j][k] = x[i].f[j][k]; return o; }
  template <class F> void ckv(const TV& m, F fn, const std::string& op) {   // fn(k) -> E3
    if (dead) return; c.count("vector models"); double f[3][K]; for (int k = 0; k < K; ++k) { E3 v = fn(k); for (int i = 0; i < 3; ++i) f[i][k] = v[i]; }
    for (int i = 0; i < 3; ++i) if (!ck1(m[i], f[i], "vector " + op)) return;
    IV all = m.getBound(), tight = m.getTightBound(); for (int k = 0; k < K; ++k) { E3 v(f[0][k], f[1][k], f[2][k]); IV b = m.getBound(t[k]); for (int i = 0; i < 3; ++i) { double tol = 1e-10 * (1 + std::fabs(all[i][0]) + std::fabs(all[i][1])); if (!inside(b[i], v[i], tol) || !inside(all[i], v[i], tol) || !inside(tight[i], v[i], tol)) { dead = true; c.violation("Taylor vector|" + op + "|bound", when()); return; } } }
  }
  template <class F> void ckm(const TX& m, F fn, const std::string& op) {   // fn(k) -> M3
    if (dead) return; c.count("matrix models"); M3 v[K]; for (int k = 0; k < K; ++k) v[k] = fn(k);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double f[K]; for (int k = 0; k < K; ++k) f[k] = v[k](i, j); if (!ck1(m(i, j), f, "matrix " + op)) return; }
    IM all = m.getBound(), tight = m.getTightBound(); for (int k = 0; k < K; ++k) { IM b = m.getBound(t[k]); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double tol = 1e-10 * (1 + std::fabs(all(i, j)[0]) + std::fabs(all(i, j)[1])); if (!inside(b(i, j), v[k](i, j), tol) || !inside(all(i, j), v[k](i, j), tol) || !inside(tight(i, j), v[k](i, j), tol)) { dead = true; c.violation("Taylor matrix|" + op + "|bound", when()); return; } } }
  }
  static E3 v(const Tv& a, int k) { return E3(a.f[0][k], a.f[1][k], a.f[2][k]); }
  static M3 v(const Tx& a, int k) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = a.f[i][j][k]; return m; }
  void vectors() {
    Tv a = vec(), b = vec(); Tx m = mat(), n = mat(); Tr s = leaf(); double d = r.normal(); E3 w(r.normal(), r.normal(), r.normal()), w2(r.normal(), r.normal(), r.normal()); M3 W; for (int k = 0; k < 9; ++k) W(k / 3, k % 3) = r.normal(); if (dead) return;
    c.phase("TVector3"); TV q; TX g;
    ckv(a.m + b.m, [&](int k) { return E3(v(a, k) + v(b, k)); }, "+"); ckv(a.m - b.m, [&](int k) { return E3(v(a, k) - v(b, k)); }, "-"); q = a.m; q += b.m; ckv(q, [&](int k) { return E3(v(a, k) + v(b, k)); }, "+="); q = a.m; q -= b.m; ckv(q, [&](int k) { return E3(v(a, k) - v(b, k)); }, "-=");
    ckv(a.m + w, [&](int k) { return E3(v(a, k) + w); }, "+ value"); ckv(a.m - w, [&](int k) { return E3(v(a, k) - w); }, "- value"); q = a.m; q += w; ckv(q, [&](int k) { return E3(v(a, k) + w); }, "+= value"); q = a.m; q -= w; ckv(q, [&](int k) { return E3(v(a, k) - w); }, "-= value");
    ckv(-a.m, [&](int k) { return E3(-v(a, k)); }, "negation"); ckv(a.m * s.m, [&](int k) { return E3(v(a, k) * s.f[k]); }, "* model"); q = a.m; q *= s.m; ckv(q, [&](int k) { return E3(v(a, k) * s.f[k]); }, "*= model"); ckv(a.m * d, [&](int k) { return E3(v(a, k) * d); }, "* scalar"); q = a.m; q *= d; ckv(q, [&](int k) { return E3(v(a, k) * d); }, "*= scalar");
    ckv(a.m.cross(b.m), [&](int k) { return E3(v(a, k).cross(v(b, k))); }, "cross"); ckv(a.m.cross(w), [&](int k) { return E3(v(a, k).cross(w)); }, "cross value"); ckv(w * s.m, [&](int k) { return E3(w * s.f[k]); }, "value * model"); ckv(w + a.m, [&](int k) { return E3(w + v(a, k)); }, "value +"); ckv(w - a.m, [&](int k) { return E3(w - v(a, k)); }, "value -"); ckv(TV(w, ti), [&](int) { return w; }, "from value");
    { TV z(ti); z[0].remainder() = I(1, 2); fcl::generateTVector3ForLinearFunc(z, w, w2); ckv(z, [&](int k) { return E3(w + w2 * t[k]); }, "linear"); }
    if (!dead) { double f[K]; for (int k = 0; k < K; ++k) f[k] = v(a, k).dot(v(b, k)); ck1(a.m.dot(b.m), f, "vector dot"); for (int k = 0; k < K; ++k) f[k] = v(a, k).dot(w); ck1(a.m.dot(w), f, "vector dot value"); for (int k = 0; k < K; ++k) f[k] = v(a, k).squaredNorm(); ck1(a.m.squareLength(), f, "vector squareLength"); }
    c.phase("TMatrix3");
    ckm(m.m + n.m, [&](int k) { return M3(v(m, k) + v(n, k)); }, "+"); ckm(m.m - n.m, [&](int k) { return M3(v(m, k) - v(n, k)); }, "-"); g = m.m; g += n.m; ckm(g, [&](int k) { return M3(v(m, k) + v(n, k)); }, "+="); g = m.m; g -= n.m; ckm(g, [&](int k) { return M3(v(m, k) - v(n, k)); }, "-=");
    ckm(m.m + W, [&](int k) { return M3(v(m, k) + W); }, "+ value"); ckm(m.m - W, [&](int k) { return M3(v(m, k) - W); }, "- value"); g = m.m; g += W; ckm(g, [&](int k) { return M3(v(m, k) + W); }, "+= value"); g = m.m; g -= W; ckm(g, [&](int k) { return M3(v(m, k) - W); }, "-= value"); ckm(-m.m, [&](int k) { return M3(-v(m, k)); }, "negation");
    ckm(m.m * n.m, [&](int k) { return M3(v(m, k) * v(n, k)); }, "*"); g = m.m; g *= n.m; ckm(g, [&](int k) { return M3(v(m, k) * v(n, k)); }, "*="); ckm(m.m * W, [&](int k) { return M3(v(m, k) * W); }, "* value"); g = m.m; g *= W; ckm(g, [&](int k) { return M3(v(m, k) * W); }, "*= value");
    ckm(m.m * s.m, [&](int k) { return M3(v(m, k) * s.f[k]); }, "* model"); g = m.m; g *= s.m; ckm(g, [&](int k) { return M3(v(m, k) * s.f[k]); }, "*= model"); ckm(m.m * d, [&](int k) { return M3(v(m, k) * d); }, "* scalar"); g = m.m; g *= d; ckm(g, [&](int k) { return M3(v(m, k) * d); }, "*= scalar");
    ckm(W * s.m, [&](int k) { return M3(W * s.f[k]); }, "value * model"); ckm(s.m * W, [&](int k) { return M3(W * s.f[k]); }, "model * value"); ckm(s.m * m.m, [&](int k) { return M3(v(m, k) * s.f[k]); }, "model *"); ckm(d * m.m, [&](int k) { return M3(v(m, k) * d); }, "scalar *"); ckm(W + m.m, [&](int k) { return M3(W + v(m, k)); }, "value +"); ckm(W - m.m, [&](int k) { return M3(W - v(m, k)); }, "value -"); ckm(TX(W, ti), [&](int) { return W; }, "from value");
    ckv(m.m * a.m, [&](int k) { return E3(v(m, k) * v(a, k)); }, "matrix * vector"); ckv(m.m * w, [&](int k) { return E3(v(m, k) * w); }, "matrix * value"); int i = r.below(3); ckv(m.m.getColumn(i), [&](int k) { return E3(v(m, k).col(i)); }, "column"); ckv(m.m.getRow(i), [&](int k) { return E3(v(m, k).row(i).transpose()); }, "row");
    if (dead) return; g = m.m; g.setIdentity(); ckm(g, [&](int) { return M3(M3::Identity()); }, "setIdentity"); g.setZero(); ckm(g, [&](int) { return M3(M3::Zero()); }, "setZero");
    // a matrix known to be a rotation: models of cosines and sines with widened remainders
    TX rot(ti); double f[3][3][K]; for (int i2 = 0; i2 < 3; ++i2) for (int j = 0; j < 3; ++j) { double w0 = r.uni(-3, 3), p = r.uni(-3, 3), lo = -r.logu(1e-3, 3), hi = r.logu(1e-3, 3), shift = r.chance(.5) ? 0 : r.uni(-2, 2); TM x(ti); fcl::generateTaylorModelForCosFunc(x, w0, p); x.remainder() = x.remainder() + I(std::min(lo, -shift), std::max(hi, -shift)); x += shift; rot(i2, j) = x; for (int k = 0; k < K; ++k) f[i2][j][k] = std::cos(w0 * t[k] + p); }
    auto fr = [&](int k) { M3 x; for (int i2 = 0; i2 < 3; ++i2) for (int j = 0; j < 3; ++j) x(i2, j) = f[i2][j][k]; return x; }; ckm(rot, fr, "rotation"); g = rot; g.rotationConstrain(); ckm(g, fr, "rotationConstrain"); ckm(fcl::rotationConstrain(rot), fr, "rotationConstrain()");
  }
};

static void movingBox(vh::Ctx& c);
VH_PROP(C03) {
  auto& r = c.rng;
  if (r.chance(.08)) return movingBox(c);
  if (r.chance(.35)) return intervals(c);
  if (r.chance(.75)) { c.phase("TaylorModel"); Tay t(c); if (r.chance(.6)) { for (int k = 0; k < 4 && !t.dead; ++k) t.op(r.range(1, 4)); } else t.vectors(); vh::Hash h; h.add(t.l); h.add(t.h); h.add((int)c.caseno); c.observe(h.h); return; }
  Mot m = randMotion(r, 2); double l = r.uni(0, .95), h = r.uni(l, 1); if (r.chance(.3)) { l = 0; h = 1; } c.phase((std::string("getTaylorModel ") + mkind[m.kind]).c_str());
  m.m->getTimeInterval()->setValue(l, h); TX R(m.m->getTimeInterval()); TV t(m.m->getTimeInterval()); if (r.chance(.3)) { R(0, 1).remainder() = I(-3, 2); t[1].coeff(2) = 5; }
  m.m->getTaylorModel(R, t); c.count(std::string("motion models ") + mkind[m.kind]); IM Rb = R.getBound(), Rt = R.getTightBound(); IV tb = t.getBound(), tt = t.getTightBound(); vh::Hash hh; hh.add(m.info); hh.add(l); hh.add(h); c.observe(hh.h);
  for (int k = 0; k < 12; ++k) { double s = k == 0 ? l : k == 1 ? h : r.uni(l, h); TF x = at(m, s); IM Rs = R.getBound(s); IV ts = t.getBound(s);
    for (int i = 0; i < 3; ++i) { double tol = 1e-10 * (10 + std::fabs(tb[i][0]) + std::fabs(tb[i][1])) + m.loose, v = x.translation()[i];
      if (!inside(ts[i], v, tol) || !inside(tb[i], v, tol) || !inside(tt[i], v, tol)) { c.violation(std::string("motion model|") + mkind[m.kind] + "|translation", vh::fmt("%.12g at %.12g outside %s, all %s over [%.9g,%.9g] ", v, s, istr(ts[i]).c_str(), istr(tb[i]).c_str(), l, h) + m.info); return; }
      for (int j = 0; j < 3; ++j) { double q = x.linear()(i, j), to = 1e-10 * (10 + std::fabs(Rb(i, j)[0]) + std::fabs(Rb(i, j)[1])); if (!inside(Rs(i, j), q, to) || !inside(Rb(i, j), q, to) || !inside(Rt(i, j), q, to)) { c.violation(std::string("motion model|") + mkind[m.kind] + "|rotation", vh::fmt("%.12g at %.12g outside %s, all %s over [%.9g,%.9g] ", q, s, istr(Rs(i, j)).c_str(), istr(Rb(i, j)).c_str(), l, h) + m.info); return; } } } }
}

// ---------------------------------------------------------------- C02
static M3 expm(const E3& w) { double a = w.norm(); if (a < 1e-12) { M3 h; h << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0; return M3::Identity() + h; } V k = rv(w) * (1 / a); M R = axisAngle(k, a); return ft<double>(T{R, V(0, 0, 0)}).linear(); }
template <class BV> static void bvBound(vh::Ctx& c, Mot& m, const char* name, const std::vector<E3>& pts, const E3& n, double t0, const std::vector<double>& at_, double scale) {
  BV bv; { std::vector<E3> q = pts; fcl::fit(q.data(), (int)q.size(), bv); }
  TF x0 = at(m, t0); double b = m.m->computeMotionBound(fcl::TBVMotionBoundVisitor<BV>(bv, n)); c.count(std::string("bounds of ") + name);
  for (double s : at_) { TF x = at(m, s); for (auto& p : pts) { double d = n.dot(x * p - x0 * p); if (d > b * (s - t0) + 1e-9 * scale + 10 * m.loose) { c.violation(std::string("motion bound|") + mkind[m.kind] + "|" + name, vh::fmt("moves %.12g along (%.9g,%.9g,%.9g) from %.9g to %.9g, bound per unit %.12g ", d, n[0], n[1], n[2], t0, s, b) + m.info); return; } } }
}
VH_PROP(C02) {
  auto& r = c.rng; double e = r.pick(std::vector<double>{1, 3, 20}); Mot m = randMotion(r, e, -1); c.phase(mkind[m.kind]); vh::Hash hh; hh.add(m.info); c.observe(hh.h); c.count(std::string("motions ") + mkind[m.kind]);
  auto bad = [&](const char* what, const std::string& msg) { c.violation(std::string(mkind[m.kind]) + "|" + what, msg + m.info); };
  double tol = 1e-9 * (1 + e) + m.loose, rtol = 1e-9;
  TF now; m.m->getCurrentTransform(now); TF x0 = at(m, 0), x1 = at(m, 1);
  if (rotDiff(now, x0) > rtol || posDiff(now, x0) > tol) bad("new motion not at its start", vh::fmt("off by %.3g, %.3g ", rotDiff(now, x0), posDiff(now, x0)));
  if (m.ends) { if (rotDiff(x0, m.a) > rtol || posDiff(x0, m.a) > tol) bad("start", vh::fmt("off by %.3g, %.3g ", rotDiff(x0, m.a), posDiff(x0, m.a))); TF goal = m.b; if (m.kind == 0) goal.linear() = m.a.linear(); if (rotDiff(x1, goal) > 1e-7 || posDiff(x1, goal) > tol + 1e-7 * (m.kind == 1 ? m.ref.norm() : 0)) bad("goal", vh::fmt("off by %.3g, %.3g ", rotDiff(x1, goal), posDiff(x1, goal))); }
  std::vector<double> ts; for (int k = 0; k < 10; ++k) ts.push_back(r.chance(.1) ? r.pick(std::vector<double>{0, 1, .5}) : r.uni(0, 1)); std::vector<TF> xs; for (double t : ts) xs.push_back(at(m, t));
  for (size_t k = 0; k < ts.size(); ++k) {
    const TF& x = xs[k]; double t = ts[k]; M3 R = x.linear(); c.count("poses judged");
    if ((R.transpose() * R - M3::Identity()).cwiseAbs().maxCoeff() > 1e-9 || std::fabs(R.determinant() - 1) > 1e-9) { bad("not rigid", vh::fmt("at %.9g ", t)); break; }
    E3 want; M3 W; bool known = true; double ptol = tol, wtol = 1e-8;
    if (m.kind == 0) { W = m.a.linear(); want = m.a.translation() + t * (m.b.translation() - m.a.translation()); }
    else if (m.kind == 1) {   // constant angular velocity, and the reference point moves on a straight line
      Eigen::AngleAxisd aa(M3(m.b.linear() * m.a.linear().transpose())); W = expm(aa.axis() * aa.angle() * t) * m.a.linear(); E3 p0 = m.a * m.ref, p1 = m.b * m.ref; want = p0 + t * (p1 - p0) - W * m.ref; ptol += 1e-8;
    } else if (m.kind == 2) {   // the motion relative to the start is a one parameter group: judged against the pose at 1
      Eigen::AngleAxisd aa(M3(m.b.linear() * m.a.linear().transpose())); W = expm(aa.axis() * aa.angle() * t) * m.a.linear(); double th = aa.angle(); E3 w = aa.axis(), d = m.b.translation() - m.a.translation();
      // translation along the axis grows linearly, the rest turns about the axis at constant speed
      E3 along = w * w.dot(d), perp = d - along; if (th < 1e-7) { want = m.a.translation() + t * d; ptol += 1e-6 * (1 + d.norm()); } else { double h = th / 2; E3 side = w.cross(perp) / (2 * std::tan(h)); E3 ctr = m.a.translation() + .5 * perp + side; want = ctr + expm(w * th * t) * (m.a.translation() - ctr) + t * along; ptol += 1e-8 * (1 + d.norm() / th); }
    } else if (m.spline4) { double u = 1 - t, b[4] = {u * u * u / 6, (3 * t * t * t - 6 * t * t + 4) / 6, (3 * u * u * u - 6 * u * u + 4) / 6, t * t * t / 6}; want.setZero(); E3 w = E3::Zero(); for (int q = 0; q < 4; ++q) { want += b[q] * m.Td[q]; w += b[q] * m.Rd[q]; } W = expm(w); }
    else known = false;
    if (known && ((R - W).cwiseAbs().maxCoeff() > wtol || (x.translation() - want).cwiseAbs().maxCoeff() > ptol)) { bad("pose", vh::fmt("at %.12g off by %.3g, %.3g ", t, (R - W).cwiseAbs().maxCoeff(), (x.translation() - want).cwiseAbs().maxCoeff())); break; }
  }
  // the pose at a time depends on the time alone, and stays that of the goal afterwards
  for (int k = 0; k < 6; ++k) { size_t q = r.below((int)ts.size()); TF x = at(m, ts[q]); if ((x.matrix() - xs[q].matrix()).cwiseAbs().maxCoeff() != 0) { bad("history", vh::fmt("pose at %.9g differs ", ts[q])); break; } }
  { TF x = at(m, 1 + r.logu(1e-6, 10)); if ((x.matrix() - x1.matrix()).cwiseAbs().maxCoeff() != 0) bad("after the end", ""); }
  { size_t q = r.below((int)ts.size()); TF x = at(m, ts[q]); M3 R, R2; E3 T, T2, T3; fcl::Quaterniond Q, Q2; m.m->getCurrentTransform(R, T); m.m->getCurrentTransform(Q, T2); m.m->getCurrentRotation(R2); m.m->getCurrentRotation(Q2); m.m->getCurrentTranslation(T3); TF y; m.m->getCurrentTransform(y);
    if ((y.matrix() - x.matrix()).norm() != 0 || (R - x.linear()).norm() != 0 || (R2 - R).norm() != 0 || (T - x.translation()).norm() != 0 || (T2 - T).norm() != 0 || (T3 - T).norm() != 0 || (Q.toRotationMatrix() - R).norm() > 1e-9 || (Q2.toRotationMatrix() - R).norm() > 1e-9) bad("accessors", "different poses "); }
  if (r.chance(.05)) { fcl::InterpMotion<double> a; fcl::ScrewMotion<double> b; a.integrate(.5); b.integrate(.5); TF x, y; a.getCurrentTransform(x); b.getCurrentTransform(y); if ((x.matrix() - TF::Identity().matrix()).norm() > 1e-12 || (y.matrix() - TF::Identity().matrix()).norm() > 1e-12) bad("default motion", "not the identity "); c.count("default motions"); }
  // motion bounds: how fast anything moves along a direction from a time on
  double t0 = r.chance(.3) ? 0 : r.uni(0, .99), sz = r.pick(std::vector<double>{.1, 1, 5}); std::vector<E3> tri; int np = 3 + (r.chance(.6) ? r.below(20) : 0); V o = r.chance(.5) ? V(0, 0, 0) : randIn(r, sz * 3); for (int k = 0; k < np; ++k) tri.push_back(fv<double>(o + randIn(r, sz)));
  E3 n = r.chance(.3) && (x1.translation() - x0.translation()).norm() > 1e-3 ? E3((x1.translation() - x0.translation()).normalized()) : fv<double>(randUnit(r)); if (r.chance(.2)) n = -n;
  std::vector<double> ss; for (int k = 0; k < 12; ++k) ss.push_back(k == 0 ? 1 : k < 4 ? std::min(1., t0 + r.logu(1e-5, .1)) : r.uni(t0, 1)); double scale = 1 + e + 4 * sz;
  c.phase("motion bounds");
  { TF x = at(m, t0); double b = m.m->computeMotionBound(fcl::TriangleMotionBoundVisitor<double>(tri[0], tri[1], tri[2], n)); c.count("bounds of triangles"); double most = 0;
    for (double s : ss) { TF y = at(m, s); for (int k = 0; k < 3; ++k) { double d = n.dot(y * tri[k] - x * tri[k]); most = std::max(most, d / (s - t0)); if (d > b * (s - t0) + 1e-9 * scale + 10 * m.loose) { bad("motion bound|triangle", vh::fmt("moves %.12g along (%.9g,%.9g,%.9g) from %.9g to %.9g, bound per unit %.12g ", d, n[0], n[1], n[2], t0, s, b)); goto out; } } } }
out:
  { using namespace fcl; bvBound<RSSd>(c, m, "RSS", tri, n, t0, ss, scale); switch (r.below(6)) { case 0: bvBound<OBBRSSd>(c, m, "OBBRSS", tri, n, t0, ss, scale); break; case 1: bvBound<OBBd>(c, m, "OBB", tri, n, t0, ss, scale); break; case 2: bvBound<AABBd>(c, m, "AABB", tri, n, t0, ss, scale); break; case 3: bvBound<kIOSd>(c, m, "kIOS", tri, n, t0, ss, scale); break; case 4: bvBound<KDOP<double, 16>>(c, m, "KDOP16", tri, n, t0, ss, scale); break; default: if (r.chance(.5)) bvBound<KDOP<double, 18>>(c, m, "KDOP18", tri, n, t0, ss, scale); else bvBound<KDOP<double, 24>>(c, m, "KDOP24", tri, n, t0, ss, scale); } }
}

// ---------------------------------------------------------------- C01
struct Obj { std::vector<std::pair<Shape, T>> parts; std::shared_ptr<fcl::CollisionGeometryd> g; bool mesh = false; int type = -1; double rad = 0; std::string info; };
static Obj randObj(vh::Rng& r, bool mesh, int type = -1) {
  Obj o; o.mesh = mesh; double hi = r.pick(std::vector<double>{.5, 1.5, 3});
  if (!mesh) { Shape s = randShape(r, scene::randKind(r), .15, hi); o.parts.push_back({s, T()}); o.g = fg<double>(s); o.info = s.str(); o.rad = s.radius(); }
  else {
    bvx::Mesh m; int n = r.chance(.4) ? 1 : r.range(2, 4); m.kind = "parts";
    for (int k = 0; k < n; ++k) { Shape s; if (!r.chance(.3)) s = randConvex(r, hi / (n > 1 ? 2 : 1), r.range(4, r.chance(.3) ? 40 : 10)); T p; p.R = randRot(r, r.below(3)); if (n > 1 || r.chance(.3)) p.t = randIn(r, hi);
      if (s.pts.empty()) { V h(r.uni(.1, hi), r.uni(.1, hi), r.uni(.1, hi)); bvx::Mesh b = bvx::boxMesh(h); s = Shape(); s.k = CONVEX; s.pts = b.v; s.tris = b.t; }
      int base = m.v.size(); for (auto& q : s.pts) { m.v.push_back(p(q)); o.rad = std::max(o.rad, norm(p(q))); } for (auto& t : s.tris) m.t.push_back({t[0] + base, t[1] + base, t[2] + base}); o.parts.push_back({s, p}); }
    o.type = type < 0 ? r.below(8) : type; o.g = bvx::buildAny(r, m, o.type); o.info = vh::fmt("%s mesh, %d triangles", bvx::tname(o.type), (int)m.t.size()); for (auto& q : o.parts) o.info += " " + q.first.str() + " at " + ref::str(q.second);
  }
  return o;
}
// the box of a moving object holds it at every time
static void movingBox(vh::Ctx& c) {
  auto& r = c.rng; Obj o = randObj(r, r.chance(.5)); Mot m = randMotion(r, r.pick(std::vector<double>{1, 4})); c.phase("ContinuousCollisionObject"); vh::Hash hh; hh.add(m.info); hh.add(o.info); c.observe(hh.h); o.g->computeLocalAABB();
  double l = 0, h = 1; if (r.chance(.3)) { l = r.uni(0, .9); h = r.uni(l, 1); m.m->getTimeInterval()->setValue(l, h); }
  fcl::ContinuousCollisionObject<double> x(o.g, m.m); x.computeAABB(); fcl::AABBd b = x.getAABB(); double reach = 0;
  for (int k = 0; k < 10; ++k) { double t = k == 0 ? l : k == 1 ? h : r.uni(l, h); T p = rt<double>(at(m, t)); for (int a = 0; a < 3; ++a) { V n(a == 0, a == 1, a == 2); for (auto& q : o.parts) { D mn, mx; extentAlong(q.first, p * q.second, n, mn, mx); reach = std::max(reach, std::max(std::fabs((double)mn), std::fabs((double)mx)));
    double e = 1e-9 * (1 + reach) + m.loose; if (mn < b.min_[a] - e || mx > b.max_[a] + e) { c.violation(std::string("box of a moving object|") + mkind[m.kind], vh::fmt("at %.9g in [%.9g,%.9g] along axis %d from %.12g to %.12g, box from %.12g to %.12g ", t, l, h, a, (double)mn, (double)mx, b.min_[a], b.max_[a]) + o.info + " " + m.info); return; } } } }
  c.count("boxes of moving objects"); c.count("boxes of moving objects at a time", 10);
}
// no point of the object moves faster than this
static double speedOf(const Mot& m, const Obj& o) {
  if (m.spline4) { double v = 0, w = 0; for (int k = 0; k < 3; ++k) { v = std::max(v, (m.Td[k + 1] - m.Td[k]).norm()); w = std::max(w, (m.Rd[k + 1] - m.Rd[k]).norm()); } return v + w * o.rad; }
  E3 d = m.b.translation() - m.a.translation(); if (m.kind == 0) return d.norm();
  Eigen::AngleAxisd aa(M3(m.b.linear() * m.a.linear().transpose())); double th = aa.angle();
  if (m.kind == 1) return (m.b * m.ref - m.a * m.ref).norm() + th * (o.rad + m.ref.norm());
  if (m.kind == 3) return d.norm() + std::max(th, 6.3) * o.rad;    // the spline may choose another vector for the goal rotation
  if (th < 1e-9) return d.norm() * 1.001 + th * o.rad; E3 w = aa.axis(), perp = d - w * w.dot(d); return d.norm() + th * (o.rad + perp.norm() / (2 * std::sin(th / 2)));
}
static double gap(const Obj& a, const T& ta, const Obj& b, const T& tb, bool* over = nullptr) {
  double best = 1e300; for (auto& p : a.parts) for (auto& q : b.parts) { T x = ta * p.second, y = tb * q.second; double lo = norm(x.t - y.t) - p.first.radius() - q.first.radius(); if (lo > best) continue; Dist d = distance(p.first, x, q.first, y); best = std::min(best, d.overlap ? 0 : std::max(0., d.lo)); if (d.overlap && over) *over = true; } return best;
}
static bool deep(const Obj& a, const T& ta, const Obj& b, const T& tb, double m) { for (auto& p : a.parts) for (auto& q : b.parts) { T x = ta * p.second, y = tb * q.second; if (norm(x.t - y.t) > p.first.radius() + q.first.radius()) continue; if (distance(p.first, x, q.first, y).overlap && depth(p.first, x, q.first, y, m * .2).lo > m) return true; } return false; }
static std::vector<E3> verts(const fcl::CollisionGeometryd* g) { std::vector<E3> v; auto take = [&](auto* m) { if (m) v.assign(m->vertices, m->vertices + m->num_vertices); }; using namespace fcl;
  take(dynamic_cast<const BVHModel<AABBd>*>(g)); take(dynamic_cast<const BVHModel<OBBd>*>(g)); take(dynamic_cast<const BVHModel<RSSd>*>(g)); take(dynamic_cast<const BVHModel<OBBRSSd>*>(g)); take(dynamic_cast<const BVHModel<kIOSd>*>(g)); take(dynamic_cast<const BVHModel<KDOP<double, 16>>*>(g)); take(dynamic_cast<const BVHModel<KDOP<double, 18>>*>(g)); take(dynamic_cast<const BVHModel<KDOP<double, 24>>*>(g)); return v; }
static const char* cls(const Obj& o) { return o.mesh ? bvx::tname(o.type) : "shape"; }

// a plane or half-space on the way: an answer is right, or there is none
static void unboundedPair(vh::Ctx& c) {
  auto& r = c.rng; using namespace fcl; Obj A = randObj(r, r.chance(.4)); Shape us = randShape(r, r.chance(.5) ? HALFSPACE : PLANE, .2, 1); auto U = fg<double>(us); U->computeLocalAABB(); bool swap = r.chance(.5);
  T u0; u0.R = randRot(r, r.below(3)); u0.t = randIn(r, 1); V n = u0.R * us.p; V foot = u0.t + n * us.d; T a0, a1; a0.R = randRot(r, 1); a1.R = r.chance(.5) ? a0.R : randRot(r, 1); a0.t = foot + n * (A.rad * r.uni(1.1, 3)) + cross(n, randIn(r, 2)); a1.t = foot + n * (A.rad * r.uni(-3, 3)) + cross(n, randIn(r, 2));
  ContinuousCollisionRequestd req; req.gjk_solver_type = r.chance(.5) ? GST_INDEP : GST_LIBCCD; bool naive = r.chance(.3); req.ccd_solver_type = naive ? CCDC_NAIVE : CCDC_CONSERVATIVE_ADVANCEMENT; req.ccd_motion_type = r.chance(.5) ? CCDM_TRANS : CCDM_LINEAR; if (req.ccd_motion_type == CCDM_TRANS) a1.R = a0.R; req.num_max_iterations = 50; req.toc_err = 1e-3;
  std::string key = vh::fmt("unbounded %s|%s", naive ? "naive" : "advancement", swap ? "plane first" : "plane second"), info = A.info + " " + ref::str(a0) + " to " + ref::str(a1) + " / " + us.str() + " " + ref::str(u0);
  TF f0 = ft<double>(a0), f1 = ft<double>(a1), g = ft<double>(u0); ContinuousCollisionResultd res; c.phase("continuous collision with an unbounded object %s", naive ? "naive" : "advancement");
  double ret = swap ? continuousCollide(U.get(), g, g, A.g.get(), f0, f1, req, res) : continuousCollide(A.g.get(), f0, f1, U.get(), g, g, req, res); c.phase("judging");
  if (ret < 0) { c.count("unbounded unsupported"); if (res.is_collide) c.violation(key + "|contact without support", info); return; }
  c.count("unbounded judged"); if (ret != res.time_of_contact || (!res.is_collide && ret != 1)) c.violation(key + "|returned time", info);
  Mot m1; bool meet = false; double when = 1; T p; for (int i = 0; i <= 100 && !meet; ++i) { double t = i / 100.; V c1 = a0.t + (a1.t - a0.t) * t; p.R = a0.R; p.t = c1; if (req.ccd_motion_type == CCDM_LINEAR && i != 0 && i != 100) continue; if (i == 100) p.R = a1.R; for (auto& q : A.parts) { double mn, mx; extentAlong(q.first, p * q.second, n, mn, mx); double d = dot(n, foot); if (us.k == HALFSPACE ? mn < d - .01 : mn < d - .01 && mx > d + .01) { meet = true; when = t; } } }
  if (meet && !res.is_collide && (!naive || when == 0 || when == 1)) c.violation(key + "|contact missed", vh::fmt("overlap at %.3g ", when) + info); if (meet) c.count("unbounded meeting");
}
VH_PROP(C01) {
  std::cerr.rdbuf(nullptr);   // the library reports every distance of two bounding volumes it does not compute
  auto& r = c.rng; using namespace fcl; if (c.caseno % 20 == 7) return unboundedPair(c); int solver = r.below(10); bool poly = solver == 9, naive = !poly && solver >= 6;
  bool ma = poly || r.chance(.4), mb = poly || r.chance(.4); Obj A = randObj(r, ma), B = randObj(r, mb, ma && mb && !(naive && r.chance(.3)) ? A.type : -1);
  for (Obj* o : {&A, &B}) while (!naive && !o->mesh && o->parts[0].first.k == ELLIPSOID) *o = randObj(r, false);   // ellipsoids: not supported
  // A is sent past B, or into it
  double size = A.rad + B.rad; T a0, b0; a0.R = randRot(r, r.below(3)); b0.R = randRot(r, r.below(3)); b0.t = r.chance(.3) ? V(0, 0, 0) : randIn(r, 2); V b1 = r.chance(.4) ? b0.t : b0.t + randIn(r, r.pick(std::vector<double>{.1, 1, 4}));
  double tm = r.uni(.05, 1.2); V meet = b0.t + (b1 - b0.t) * tm + randIn(r, r.chance(.6) ? .5 * size : 1.2 * size); a0.t = b0.t + randUnit(r) * size * r.uni(.8, 3); V a1 = a0.t + (meet - a0.t) * (1 / tm);
  int kind = poly ? 0 : r.below(4), kind2 = poly ? 0 : r.chance(.6) ? kind : r.below(4); double spin = r.pick(std::vector<double>{0, .5, 3.1});
  Mot m1 = randMotion(r, 2, kind, spin, &a0, &a1), m2 = randMotion(r, 2, kind2, r.chance(.5) ? 0 : spin, &b0, &b1);
  ContinuousCollisionRequestd req; req.gjk_solver_type = r.chance(.5) ? GST_INDEP : GST_LIBCCD; req.ccd_solver_type = poly ? CCDC_POLYNOMIAL_SOLVER : naive ? CCDC_NAIVE : CCDC_CONSERVATIVE_ADVANCEMENT; req.ccd_motion_type = kind == 0 ? CCDM_TRANS : kind == 1 ? CCDM_LINEAR : kind == 2 ? CCDM_SCREW : CCDM_SPLINE;
  if (naive) { req.num_max_iterations = r.pick(std::vector<int>{1, 2, 3, 10, 10, 17, 50}); req.toc_err = r.pick(std::vector<double>{.3, .1, .03, 1e-3}); }
  bool std_ = kind == kind2 && !m1.spline4 && !m2.spline4 && (kind != 1 || (m1.ref.norm() == 0 && m2.ref.norm() == 0)); int way = std_ ? r.below(4) : r.chance(.3) ? 3 : 0;
  std::string who = poly ? "polynomial" : naive ? "naive" : req.gjk_solver_type == GST_INDEP ? "advancement INDEP" : "advancement LIBCCD"; std::string key = who + "|" + cls(A) + "-" + cls(B);
  std::string info = who + vh::fmt(" entry point %d: ", way) + A.info + " " + m1.info + " / " + B.info + " " + m2.info; vh::Hash hh; hh.add(info); c.observe(hh.h); c.count("queries of " + who); c.count(std::string("motions ") + mkind[kind] + "/" + mkind[kind2]);
  std::vector<E3> va = verts(A.g.get()), vb = verts(B.g.get());
  auto query = [&](int w, ContinuousCollisionResultd& res) -> double {
    switch (w) { case 1: return continuousCollide(A.g.get(), m1.a, m1.b, B.g.get(), m2.a, m2.b, req, res);
      case 2: { CollisionObjectd oa(A.g, m1.a), ob(B.g, m2.a); return continuousCollide(&oa, m1.b, &ob, m2.b, req, res); }
      case 3: { ContinuousCollisionObject<double> oa(A.g, m1.m), ob(B.g, m2.m); return collide(&oa, &ob, req, res); }
      default: return continuousCollide(A.g.get(), m1.m.get(), B.g.get(), m2.m.get(), req, res); } };
  ContinuousCollisionResultd res; c.phase((who + " " + cls(A) + " " + cls(B)).c_str()); double ret = query(way, res); c.phase("judging"); c.count(res.is_collide ? "contacts found" : "no contact found");
  if (ret != res.time_of_contact) c.violation(key + "|returned time", vh::fmt("returned %.12g, reported %.12g ", ret, res.time_of_contact) + info);
  if (verts(A.g.get()) != va || verts(B.g.get()) != vb) c.violation(key + "|model changed", info);
  double toc = res.time_of_contact; if (!(toc >= 0 && toc <= 1)) { c.violation(key + "|time outside [0,1]", vh::fmt("%.12g ", toc) + info); return; }
  if (!res.is_collide && toc != 1) c.violation(key + "|time without contact", vh::fmt("%.12g ", toc) + info);
  if (res.is_collide) { TF x = at(m1, toc), y = at(m2, toc); if ((x.matrix() - res.contact_tf1.matrix()).cwiseAbs().maxCoeff() > 1e-9 || (y.matrix() - res.contact_tf2.matrix()).cwiseAbs().maxCoeff() > 1e-9) c.violation(key + "|contact poses", vh::fmt("not those at %.9g ", toc) + info); }
  if (r.chance(.25)) { int w2 = std_ ? r.below(4) : way; ContinuousCollisionResultd q; query(w2, q); c.count("queries repeated"); if (q.is_collide != res.is_collide || std::fabs(q.time_of_contact - toc) > 1e-9) c.violation(key + "|repeated query", vh::fmt("entry point %d: %d at %.12g, then %d at %.12g ", w2, res.is_collide, toc, q.is_collide, q.time_of_contact) + info); }
  auto pose = [](Mot& m, double t) { return rt<double>(at(m, t)); };
  if (naive) {
    size_t n = std::min((size_t)req.num_max_iterations, (size_t)std::ceil(1 / req.toc_err)); bool hit = false; double when = 1;
    for (size_t i = 0; i < n && !hit; ++i) { double t = n == 1 ? 0 : i / (double)(n - 1); CollisionRequestd cq; CollisionResultd cr; TF x = at(m1, t), y = at(m2, t); if (collide(A.g.get(), x, B.g.get(), y, cq, cr)) { hit = true; when = t; } }
    if (hit != res.is_collide || std::fabs(when - toc) > 1e-12) c.violation("naive|samples", vh::fmt("%d poses: %d at %.12g, collide says %d at %.12g ", (int)n, res.is_collide, toc, hit, when) + info); c.count("naive judged"); return;
  }
  { CollisionRequestd cq; CollisionResultd cr; TF x = at(m1, 0), y = at(m2, 0); bool start = collide(A.g.get(), x, B.g.get(), y, cq, cr) > 0; if (start) { c.count("in contact from the start"); if (!poly && !(res.is_collide && toc == 0)) c.violation(key + "|contact at the start", vh::fmt("reported %d at %.12g ", res.is_collide, toc) + info); return; } }
  double L = speedOf(m1, A) + speedOf(m2, B), slack = 1e-3 + 1e-4 * L * (kind == 3 || kind2 == 3 ? 12 : 3); bool over = false;
  if (gap(A, pose(m1, 0), B, pose(m2, 0), &over) < slack || over) { c.count("starts not judged"); return; }
  double nearT = 2, t = 0; int steps = 0; for (; t <= 1 && steps < 400; ++steps) { double d = gap(A, pose(m1, t), B, pose(m2, t)); if (d < slack) { nearT = t; break; } if (t == 1) { t = 2; break; } t = std::min(1., t + (d - .5 * slack) / L * .999); } if (nearT > 1 && t <= 1) { c.count("motions not judged (too many steps)"); return; }
  if (nearT > 1) { c.count("motions certified apart"); if (res.is_collide) c.violation(key + "|false contact", vh::fmt("at %.12g, gap there %.9g, %.3g apart always ", toc, gap(A, pose(m1, toc), B, pose(m2, toc)), slack) + info); return; }
  if (res.is_collide) { double g = gap(A, pose(m1, toc), B, pose(m2, toc)); c.maxi("gap at the contact", g); c.count("contact times judged"); if (g > slack) { c.violation(key + "|gap at the contact", vh::fmt("%.9g (slack %.3g) at %.12g ", g, slack, toc) + info); return; } }
  double until = res.is_collide ? toc : 1; int N = 24; const double DM = 2e-3;
  for (int k = 0; k <= N; ++k) { double s = nearT + (until - nearT) * k / N; if (s > 1 || s > until) break; if (res.is_collide && s > toc - 1e-6) break;
    if (deep(A, pose(m1, s), B, pose(m2, s), DM)) { c.violation(key + (res.is_collide ? "|late contact" : "|missed contact"), vh::fmt("overlap by more than %.3g at %.12g, reported %d at %.12g ", DM, s, res.is_collide, toc) + info); return; } }
  c.count(res.is_collide ? "no earlier overlap" : "no overlap anywhere");
}

VH_MAIN

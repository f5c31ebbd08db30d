// Bounding volumes: fit / merge / grow / translate / convert never lose a point; overlap and distance are conservative.
#include "bvx.h"
#include <iostream>
#include "fcl/geometry/shape/utility.h"
using namespace fx; using namespace bvx;
struct Quiet { std::ios_base::iostate s; Quiet() : s(std::cerr.rdstate()) { std::cerr.setstate(std::ios_base::failbit); } ~Quiet() { std::cerr.clear(s); } };

// ---------------------------------------------------------------- sampling of volumes
static V axes3(const fcl::Matrix3d& m, const V& q) { return col(m, 0) * q.x + col(m, 1) * q.y + col(m, 2) * q.z; }
static double cc(vh::Rng& r) { return r.chance(.4) ? (r.chance(.5) ? 1 : -1) : r.chance(.1) ? 0 : r.uni(-1, 1); }
static bool sampleIn(vh::Rng& r, const AABB& b, V& p) { for (int i = 0; i < 3; ++i) p[i] = (b.min_[i] + b.max_[i]) / 2 + cc(r) * (b.max_[i] - b.min_[i]) / 2; return true; }
static bool sampleIn(vh::Rng& r, const OBB& b, V& p) { p = fr(b.To) + axes3(b.axis, V(cc(r) * b.extent[0], cc(r) * b.extent[1], cc(r) * b.extent[2])); return true; }
static bool sampleIn(vh::Rng& r, const RSS& b, V& p) { V u = randUnit(r); p = fr(b.To) + axes3(b.axis, V((cc(r) + 1) / 2 * b.l[0], (cc(r) + 1) / 2 * b.l[1], 0) + u * (r.chance(.7) ? b.r : b.r * r.u())); return true; }
static bool sampleIn(vh::Rng& r, const OBBRSS& b, V& p) { for (int k = 0; k < 20; ++k) { if (r.chance(.5)) sampleIn(r, b.obb, p); else sampleIn(r, b.rss, p); if (out(b, p) <= 0) return true; } return false; }
static bool sampleIn(vh::Rng& r, const kIOS& b, V& p) { for (int k = 0; k < 20; ++k) { sampleIn(r, b.obb, p); if (out(b, p) <= 0) return true; } return false; }
template <size_t N> static bool sampleIn(vh::Rng& r, const fcl::KDOP<double, N>& b, V& p) { for (int k = 0; k < 20; ++k) { for (int i = 0; i < 3; ++i) p[i] = (b.dist(i) + b.dist(i + N / 2)) / 2 + cc(r) * (b.dist(i + N / 2) - b.dist(i)) / 2; if (out(b, p) <= 0) return true; } return false; }
// how deep inside the volume a point lies (negative outside)
static double slack(const AABB& b, const V& p) { double m = 1e300; for (int i = 0; i < 3; ++i) m = std::min(m, std::min(p[i] - b.min_[i], b.max_[i] - p[i])); return m; }
static double slack(const OBB& b, const V& p) { V d = p - fr(b.To); double m = 1e300; for (int i = 0; i < 3; ++i) m = std::min(m, b.extent[i] - std::fabs(dot(d, col(b.axis, i)))); return m; }
static double slack(const RSS& b, const V& p) { V d = p - fr(b.To), q(dot(d, col(b.axis, 0)), dot(d, col(b.axis, 1)), dot(d, col(b.axis, 2))); double x = std::max(0., std::min(q.x, b.l[0])), y = std::max(0., std::min(q.y, b.l[1])); return b.r - norm(q - V(x, y, 0)); }
static double slack(const OBBRSS& b, const V& p) { return std::min(slack(b.obb, p), slack(b.rss, p)); }
static double slack(const kIOS& b, const V& p) { double m = slack(b.obb, p); for (unsigned i = 0; i < b.num_spheres; ++i) m = std::min(m, b.spheres[i].r - norm(p - fr(b.spheres[i].o))); return m; }
template <size_t N> static double slack(const fcl::KDOP<double, N>& b, const V& p) { static const std::vector<V> d = kdirs(N); double m = 1e300; for (size_t i = 0; i < N / 2; ++i) { double s = dot(d[i], p); m = std::min(m, std::min(s - b.dist(i), b.dist(i + N / 2) - s) / norm(d[i])); } return m; }

// ---------------------------------------------------------------- V01
struct Pts { std::vector<V> p; std::string kind; double scale = 0; };
static Pts randPts(vh::Rng& r, int n, double size, const V& off) {
  Pts s; int kind = r.below(9); static const char* nm[] = {"cloud", "coplanar", "collinear", "repeated", "all equal", "two clusters", "axis grid", "needle", "nearly collinear"}; s.kind = vh::fmt("%s of %d", nm[kind], n);
  T pose = randPose(r, 0); if (r.chance(.3)) pose.R = M(); V a = randIn(r, 1), b = randIn(r, 1); V e = randIn(r, size);
  for (int i = 0; i < n; ++i) {
    V q;
    switch (kind) {
      case 0: q = randIn(r, size); break; case 1: q = randIn(r, size); q.z = 0; q = pose.R * q; break; case 2: q = e * (r.chance(.2) ? 0. : r.uni(-1, 1)); break;
      case 3: q = i && r.chance(.5) ? s.p[r.below(i)] - off : randIn(r, size); break; case 4: q = e; break; case 5: q = randIn(r, size * .05) + (r.chance(.5) ? e : V()); break;
      case 6: q = V(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)) * (size / 2); break; case 7: q = pose.R * V(r.uni(-1, 1) * size, r.uni(-1, 1) * size * .01, r.uni(-1, 1) * size * .001); break;
      default: q = e * r.uni(-1, 1) + randIn(r, size * std::pow(10, -r.uni(4, 17)));
    }
    s.p.push_back(q + off);
  }
  for (auto& q : s.p) s.scale = std::max(s.scale, norm(q)); s.scale = std::max(s.scale, 1e-300); return s;
}
template <class B> static bool holds(vh::Ctx& c, const B& b, const std::vector<V>& ps, double scale, const char* what, const std::string& info) {
  double w = 0; for (auto& p : ps) { double o = out(b, p); if (!(o <= w)) w = o; } c.count(what); c.count("points checked", ps.size()); c.maxi(std::string(what) + " " + Name<B>::s(), w / scale);
  if (!(w <= 1e-9 * scale)) { c.violation(std::string(Name<B>::s()) + "|" + what, vh::fmt("point outside by %.6g (scale %.3g): ", w, scale) + info); return false; }
  return true;
}
template <class B> static B fitOf(const std::vector<V>& ps) { std::vector<E> e; for (auto& p : ps) e.push_back(fv<double>(p)); B b; fcl::fit(e.data(), (int)e.size(), b); return b; }
template <class B> static std::vector<V> inside(vh::Rng& r, const B& b, int n) { std::vector<V> v; V p; for (int i = 0; i < n; ++i) if (sampleIn(r, b, p) && out(b, p) <= 1e-12 * (1 + norm(p))) v.push_back(p); return v; }
static std::string pstr(const Pts& s) { std::string o = s.kind; if (s.p.size() <= 6) for (auto& p : s.p) o += str(p); return o; }
template <class B1, class B2> static void conv(vh::Ctx& c, const B1& b, const std::vector<V>& ps, double scale, const std::string& info) {
  auto& r = c.rng; T tf = randPose(r, r.logu(.1, 10)); if (r.chance(.15)) tf.R = M(); B2 q; c.phase("V01 convert %s to %s", Name<B1>::s(), Name<B2>::s()); fcl::convertBV(b, ft<double>(tf), q);
  std::vector<V> w; for (auto& p : ps) w.push_back(tf(p)); double sc = scale + norm(tf.t);
  holds(c, q, w, sc, (std::string("converted from ") + Name<B1>::s()).c_str(), info + " tf=" + str(tf));
}
template <class B> struct Convs { static void run(vh::Ctx& c, const B& b, const std::vector<V>& ps, double s, const std::string& i) { conv<B, AABB>(c, b, ps, s, i); conv<B, OBB>(c, b, ps, s, i); } };
template <class B> static void convR(vh::Ctx& c, const B& b, const std::vector<V>& ps, double s, const std::string& i) { conv<B, AABB>(c, b, ps, s, i); conv<B, OBB>(c, b, ps, s, i); conv<B, RSS>(c, b, ps, s, i); }
template <> struct Convs<AABB> { static void run(vh::Ctx& c, const AABB& b, const std::vector<V>& ps, double s, const std::string& i) { convR(c, b, ps, s, i); } };
template <> struct Convs<OBB> { static void run(vh::Ctx& c, const OBB& b, const std::vector<V>& ps, double s, const std::string& i) { convR(c, b, ps, s, i); } };
template <> struct Convs<RSS> { static void run(vh::Ctx& c, const RSS& b, const std::vector<V>& ps, double s, const std::string& i) { convR(c, b, ps, s, i); } };
template <> struct Convs<OBBRSS> { static void run(vh::Ctx& c, const OBBRSS& b, const std::vector<V>& ps, double s, const std::string& i) { convR(c, b, ps, s, i); } };
template <class B> static B moved(const B& b, const E& t) { return fcl::translate(b, t); }
template <class B> static void v01alg(vh::Ctx& c) {
  auto& r = c.rng; double size = r.logu(.01, 100); V off; if (r.chance(.4)) off = randIn(r, r.logu(.1, 1000) * size);
  static const int ns[] = {1, 2, 3, 3, 4, 5, 6, 6, 8, 13, 30}; int n = ns[r.below(11)]; Pts s = randPts(r, n, size, off); std::string nm = Name<B>::s();
  c.phase("V01 fit %s", nm.c_str()); B b = fitOf<B>(s.p); vh::Hash h; h.add(nm); for (auto& p : s.p) h.add(p.x); c.observe(h.h);
  std::string info = nm + " of " + pstr(s); c.sample(info);
  if (!holds(c, b, s.p, s.scale, "fitted", info)) return;
  // a second volume
  V off2 = off + randIn(r, r.chance(.3) ? 20 * size : size); if (r.chance(.1)) off2 = off; Pts s2 = randPts(r, ns[r.below(11)], r.chance(.3) ? size * r.logu(.01, 10) : size, off2); B b2 = fitOf<B>(s2.p); std::string info2 = info + " and " + pstr(s2);
  if (!holds(c, b2, s2.p, s2.scale, "fitted", nm + " of " + pstr(s2))) return;
  std::vector<V> in1 = inside(r, b, 24), in2 = inside(r, b2, 24), all = s.p; double sc = std::max(s.scale, s2.scale); for (auto* v : {&in1, &in2}) for (auto& p : *v) sc = std::max(sc, norm(p));
  all.insert(all.end(), s2.p.begin(), s2.p.end()); all.insert(all.end(), in1.begin(), in1.end()); all.insert(all.end(), in2.begin(), in2.end());
  c.phase("V01 merge %s", nm.c_str()); B m = b + b2; if (!holds(c, m, all, sc, "union", info2)) return;
  B m2 = b; m2 += b2; if (!holds(c, m2, all, sc, "union (+=)", info2)) return;
  // grown by points
  std::vector<V> one = s.p; one.insert(one.end(), in1.begin(), in1.end()); B g = b; int k = r.range(1, 4); c.phase("V01 grow %s", nm.c_str());
  for (int i = 0; i < k; ++i) {
    V q = off + randIn(r, r.chance(.2) ? 10 * size : r.chance(.3) ? .1 * size : size); if (r.chance(.15)) q = one[r.below(one.size())]; if (r.chance(.2)) { q = one[0]; q[r.below(3)] += r.uni(-1, 1) * size; }
    g += fv<double>(q); one.push_back(q); sc = std::max(sc, norm(q)); info += " +" + str(q); if (!holds(c, g, one, sc, "grown by a point", info)) return;
    std::vector<V> in = inside(r, g, 6); one.insert(one.end(), in.begin(), in.end());
  }
  // moved
  V t = randIn(r, r.logu(.1, 10) * size); c.phase("V01 translate %s", nm.c_str()); const B& src = r.chance(.5) ? b : m; const std::vector<V>& sp = &src == &b ? s.p : all; B tr = moved(src, fv<double>(t)); std::vector<V> w; for (auto& p : sp) w.push_back(p + t);
  if (!holds(c, tr, w, sc + norm(t), "translated", info2)) return;
  { std::vector<V> in = inside(r, tr, 12), back; for (auto& p : in) back.push_back(p - t); if (!holds(c, src, back, sc + norm(t), "translated back", info2)) return; }
  // converted
  Convs<B>::run(c, src, sp, sc, info2);
  // the box made from the volume
  { fcl::Boxd box; fcl::Transform3d tf, tv = ft<double>(randPose(r, size)); bool placed = r.chance(.5); c.phase("V01 box of %s", nm.c_str()); if (placed) fcl::constructBox(src, tv, box, tf); else { fcl::constructBox(src, box, tf); tv.setIdentity(); }
    double w2 = 0; for (auto& p : sp) { E l = tf.inverse(Eigen::Isometry) * (tv * fv<double>(p)); double o = outBox(rv(l), rv(box.side) * .5); if (!(o <= w2)) w2 = o; } c.count("box made of a volume");
    if (!(w2 <= 1e-9 * (sc + size))) c.violation(nm + "|box made of a volume", vh::fmt("point outside by %.6g (scale %.3g) placed %d: ", w2, sc, placed) + info2); }
}
// points of a placed shape: supports in random directions, chords between them, and the given vertices
static std::vector<V> shapePts(vh::Rng& r, const Shape& s, const T& t, int n) {
  std::vector<V> v;
  if (!s.bounded()) { V nn = t.R * s.p, o = t(s.p * s.d); V u = unit(std::fabs(nn.x) < .6 ? cross(nn, V(1, 0, 0)) : cross(nn, V(0, 1, 0))), w = cross(nn, u); for (int i = 0; i < n; ++i) { double e = r.logu(.1, 1e4); V q = o + u * r.uni(-e, e) + w * r.uni(-e, e); if (s.k == HALFSPACE && r.chance(.5)) q = q - nn * r.uni(0, e); v.push_back(q); } return v; }
  for (auto& q : s.pts) v.push_back(t(q));
  for (int i = 0; i < n; ++i) { V d = randUnit(r); if (r.chance(.3)) { d = V(); d[r.below(3)] = r.chance(.5) ? 1 : -1; } else if (r.chance(.2)) d = V(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)); if (r.chance(.5)) d = tmul(t.R, d); v.push_back(t(s.sup(d))); }
  return v;
}
template <class B> static bool unboundedOk(const B&) { return true; }
template <class B> static void shapeBV(vh::Ctx& c, const Shape& s, const fcl::CollisionGeometryd* g, const T& t, const std::vector<V>& ps, double sc) {
  using namespace fcl; B b; auto f = ft<double>(t); c.phase("V01 computeBV %s of %s", Name<B>::s(), kname(s.k));
  switch (s.k) {
    case SPHERE: computeBV(*static_cast<const Sphered*>(g), f, b); break; case BOX: computeBV(*static_cast<const Boxd*>(g), f, b); break; case ELLIPSOID: computeBV(*static_cast<const Ellipsoidd*>(g), f, b); break;
    case CAPSULE: computeBV(*static_cast<const Capsuled*>(g), f, b); break; case CONE: computeBV(*static_cast<const Coned*>(g), f, b); break; case CYLINDER: computeBV(*static_cast<const Cylinderd*>(g), f, b); break;
    case CONVEX: computeBV(*static_cast<const Convexd*>(g), f, b); break; case TRI: computeBV(*static_cast<const TrianglePd*>(g), f, b); break; case HALFSPACE: computeBV(*static_cast<const Halfspaced*>(g), f, b); break; default: computeBV(*static_cast<const Planed*>(g), f, b); break;
  }
  holds(c, b, ps, sc, (std::string("volume of ") + kname(s.k)).c_str(), s.str() + " at " + str(t));
}
static void v01shape(vh::Ctx& c) {
  auto& r = c.rng; Kind k = (Kind)r.below(NKIND); Shape s = randShape(r, k, .05, 10); T t = randPose(r, r.logu(.1, 100)); if (r.chance(.25)) t.R = M();
  if (k == TRI && r.chance(.2)) { int u = r.below(3); s.pts[u] = s.pts[(u + 1) % 3] + (s.pts[(u + 2) % 3] - s.pts[(u + 1) % 3]) * (r.chance(.3) ? 0. : r.uni(-1, 2)); }
  if (!s.bounded() && r.chance(.6)) { static const std::vector<V> ds = kdirs(24); V d = r.chance(.2) ? V(r.chance(.5) ? 1 : -1, r.chance(.5) ? 1 : -1, r.chance(.5) ? 1 : -1) : ds[r.below(12)]; s.p = unit(d) * (r.chance(.5) ? 1 : -1); if (r.chance(.7)) t.R = M(); }
  auto g = fg<double>(s); auto ps = shapePts(r, s, t, 40); double sc = 0; for (auto& p : ps) sc = std::max(sc, norm(p)); sc = std::max(sc, norm(t.t));
  vh::Hash h; h.add(s.str()); h.add(t.t.x); c.observe(h.h);
  shapeBV<AABB>(c, s, g.get(), t, ps, sc); shapeBV<OBB>(c, s, g.get(), t, ps, sc); shapeBV<RSS>(c, s, g.get(), t, ps, sc); shapeBV<OBBRSS>(c, s, g.get(), t, ps, sc); shapeBV<kIOS>(c, s, g.get(), t, ps, sc); shapeBV<K16>(c, s, g.get(), t, ps, sc); shapeBV<K18>(c, s, g.get(), t, ps, sc); shapeBV<K24>(c, s, g.get(), t, ps, sc);
}
// the axis-aligned box's own algebra, exact
static void v01aabb(vh::Ctx& c) {
  auto& r = c.rng; double size = r.logu(.01, 100); Pts a = randPts(r, r.range(1, 3), size, randIn(r, size)), b = randPts(r, r.range(2, 8), size, randIn(r, size)); auto e = [&](int i) { return fv<double>(a.p[i]); };
  AABB x = a.p.size() == 1 ? AABB(e(0)) : a.p.size() == 2 ? AABB(e(0), e(1)) : AABB(e(0), e(1), e(2)), y = fitOf<AABB>(b.p); std::string info = pstr(a) + " " + pstr(b); c.count("box algebra");
  auto bad = [&](const char* k) { c.violation(std::string("AABB|") + k, info); };
  for (auto& p : a.p) if (out(x, p) > 0 || !x.contain(fv<double>(p))) return bad("box of given points");
  bool ov = true, ct = true; for (int i = 0; i < 3; ++i) { double lo = std::max(x.min_[i], y.min_[i]), hi = std::min(x.max_[i], y.max_[i]); if (lo > hi) ov = false; if (y.min_[i] < x.min_[i] || y.max_[i] > x.max_[i]) ct = false; if (x.axisOverlap(y, i) != (lo <= hi)) return bad("overlap along an axis"); }
  AABB part; if (x.overlap(y) != ov || y.overlap(x) != ov || x.overlap(y, part) != ov) return bad("overlap"); if (x.contain(y) != ct) return bad("containment of a box");
  if (ov) for (int i = 0; i < 3; ++i) if (part.min_[i] != std::max(x.min_[i], y.min_[i]) || part.max_[i] != std::min(x.max_[i], y.max_[i])) return bad("overlapping part");
  V d(r.u(), r.u(), r.u()); d = d * size; AABB q(y, fv<double>(d)), q2 = y; q2.expand(fv<double>(d)); for (int i = 0; i < 3; ++i) if (q.min_[i] > y.min_[i] - d[i] + 1e-12 * size * 100 || q.max_[i] < y.max_[i] + d[i] - 1e-12 * size * 100 || q2.min_[i] != q.min_[i] || q2.max_[i] != q.max_[i]) return bad("expansion");
  double ratio = r.uni(1, 3); AABB z = x; z.expand(y, ratio);  // scale x about the core y: x = ratio x - y
  AABB cp = y; if (!cp.equal(y)) return bad("equality"); if (std::fabs(y.radius() - (y.max_ - y.min_).norm() / 2) > 1e-12 * size * 100) return bad("radius");
}
VH_PROP(V01) {
  Quiet quiet; int k = c.rng.below(20);
  if (k < 6) return v01shape(c); if (k == 6) return v01aabb(c);
  switch (c.rng.below(8)) { case 0: return v01alg<AABB>(c); case 1: return v01alg<OBB>(c); case 2: return v01alg<RSS>(c); case 3: return v01alg<OBBRSS>(c); case 4: return v01alg<kIOS>(c); case 5: return v01alg<K16>(c); case 6: return v01alg<K18>(c); default: return v01alg<K24>(c); }
}

// ---------------------------------------------------------------- V02
template <class B> struct HasRel { static const bool v = true; };
template <size_t N> struct HasRel<fcl::KDOP<double, N>> { static const bool v = false; };
template <> struct HasRel<AABB> { static const bool v = false; };
template <class B, bool = HasRel<B>::v> struct Rel { static int overlap(const T&, const B&, const B&) { return -1; } static double dist(const T&, const B&, const B&) { return -1; } };
template <class B> struct Rel<B, true> { static int overlap(const T& t, const B& a, const B& b) { fcl::Matrix3d R = ft<double>(t).linear(); E p = fv<double>(t.t); return fcl::overlap(R, p, a, b); } static double dist(const T& t, const B& a, const B& b) { fcl::Matrix3d R = ft<double>(t).linear(); E p = fv<double>(t.t); return fcl::distance(R, p, a, b, (E*)nullptr, (E*)nullptr); } };
template <> struct Rel<OBB, true> { static int overlap(const T& t, const OBB& a, const OBB& b) { fcl::Matrix3d R = ft<double>(t).linear(); E p = fv<double>(t.t); return fcl::overlap(R, p, a, b); } static double dist(const T&, const OBB&, const OBB&) { return -1; } };
template <class B> struct HasDist { static const bool v = true; };
template <> struct HasDist<OBB> { static const bool v = false; };
template <size_t N> struct HasDist<fcl::KDOP<double, N>> { static const bool v = false; };
template <class B, bool = HasDist<B>::v> struct Dst { static double d(const B&, const B&) { return -1; } };
template <class B> struct Dst<B, true> { static double d(const B& a, const B& b) { return a.distance(b, nullptr, nullptr); } };
static OBB xf(const OBB& b, const T& t) { OBB q = b; fcl::Transform3d f = ft<double>(t); q.To = f * b.To; q.axis = f.linear() * b.axis; return q; }
static RSS xf(const RSS& b, const T& t) { RSS q = b; fcl::Transform3d f = ft<double>(t); q.To = f * b.To; q.axis = f.linear() * b.axis; return q; }
static OBBRSS xf(const OBBRSS& b, const T& t) { OBBRSS q; q.obb = xf(b.obb, t); q.rss = xf(b.rss, t); return q; }
static kIOS xf(const kIOS& b, const T& t) { kIOS q = b; fcl::Transform3d f = ft<double>(t); q.obb = xf(b.obb, t); for (unsigned i = 0; i < b.num_spheres; ++i) q.spheres[i].o = f * b.spheres[i].o; return q; }
static AABB xf(const AABB& b, const T& t) { AABB q = b; q.min_ += fv<double>(t.t); q.max_ += fv<double>(t.t); return q; }
template <size_t N> static fcl::KDOP<double, N> xf(const fcl::KDOP<double, N>& b, const T& t) { static const std::vector<V> d = kdirs(N); auto q = b; for (size_t i = 0; i < N / 2; ++i) { q.dist(i) += dot(d[i], t.t); q.dist(i + N / 2) += dot(d[i], t.t); } return q; }
template <class B> struct Rot { static const bool v = HasRel<B>::v; };
// a volume as a convex body of the reference library (boxes and rectangles only), for certified distances
static bool body(const AABB& b, Shape& s, T& t, double& rad) { s.k = BOX; s.p = fr(E(b.max_ - b.min_)); t = T(); t.t = fr(E((b.max_ + b.min_) / 2)); rad = 0; return true; }
static bool body(const OBB& b, Shape& s, T& t, double& rad) { s.k = BOX; s.p = fr(b.extent) * 2; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.R.m[i][j] = b.axis(i, j); t.t = fr(b.To); rad = 0; return true; }
static bool body(const RSS& b, Shape& s, T& t, double& rad) { s.k = BOX; s.p = V(b.l[0], b.l[1], 0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.R.m[i][j] = b.axis(i, j); t.t = fr(b.To) + axes3(b.axis, V(b.l[0] / 2, b.l[1] / 2, 0)); rad = b.r; return true; }
template <class B> static bool body(const B&, Shape&, T&, double&) { return false; }
template <class B> static B randBV(vh::Rng& r, double size) { static const int ns[] = {1, 2, 3, 3, 3, 4, 8, 20}; B b = fitOf<B>(randPts(r, ns[r.below(8)], size, V()).p); if (r.chance(.15)) b = b + fitOf<B>(randPts(r, 3, size, V()).p); return b; }
static void tweak(vh::Rng&, AABB&, double) {} template <size_t N> static void tweak(vh::Rng&, fcl::KDOP<double, N>&, double) {} static void tweak(vh::Rng&, kIOS&, double) {}
static void tweak(vh::Rng& r, OBB& b, double size) { if (r.chance(.5)) { b.axis = ft<double>(randPose(r, 0)).linear(); for (int i = 0; i < 3; ++i) b.extent[i] = r.chance(.15) ? 0 : r.logu(.01, 1) * size; } }
static void tweak(vh::Rng& r, RSS& b, double size) { if (r.chance(.5)) { b.axis = ft<double>(randPose(r, 0)).linear(); b.l[0] = r.chance(.15) ? 0 : r.logu(.01, 1) * size; b.l[1] = r.chance(.15) ? 0 : r.logu(.01, 1) * size; b.r = r.chance(.3) ? 0 : r.logu(.01, 1) * size; } }
static void tweak(vh::Rng& r, OBBRSS& b, double size) { tweak(r, b.obb, size); b.rss.axis = b.obb.axis; b.rss.l[0] = 2 * b.obb.extent[0]; b.rss.l[1] = 2 * b.obb.extent[1]; b.rss.r = b.obb.extent[2]; E c = b.obb.To; b.rss.setToFromCenter(c); }
template <class B> static std::string dump(const B&) { return ""; }
static std::string dump(const OBB& b) { T t; Shape s; double q; body(b, s, t, q); return "box " + str(s.p) + str(t) + " "; }
static std::string dump(const RSS& b) { T t; Shape s; double q; body(b, s, t, q); return vh::fmt("rss r=%.17g ", b.r) + str(s.p) + str(t) + " "; }
template <class B> struct Part { static bool run(const B& a, const B& b, B& p) { return a.overlap(b, p); } };
template <size_t N> struct Part<fcl::KDOP<double, N>> { typedef fcl::KDOP<double, N> B; static bool run(const B& a, const B& b, B&) { return a.overlap(b); } };
template <class B> static void v02(vh::Ctx& c) {
  auto& r = c.rng; double size = r.logu(.05, 20); std::string nm = Name<B>::s(); B a = randBV<B>(r, size), b0 = randBV<B>(r, r.chance(.3) ? size * r.logu(.05, 3) : size); tweak(r, a, size); tweak(r, b0, size);
  if (r.chance(.05)) b0 = a;
  V p, q; if (!sampleIn(r, a, p) || !sampleIn(r, b0, q)) { c.count("volumes not sampled"); return; }
  T t; if (Rot<B>::v) { t.R = randRot(r); if (r.chance(.15)) t.R = M(); }
  // place b so that q lands on p (shared point) or so that it is away
  int mode = r.below(3); V mv = mode == 0 ? V() : mode == 1 ? randUnit(r) * (r.logu(1e-6, 3) * size) : randIn(r, 3 * size); t.t = p - t.R * q + mv; B b = xf(b0, t);
  double sc = std::max(norm(p) + norm(t.t) + norm(q), size); std::string info = nm + vh::fmt(" size %.4g ", size) + dump(a) + dump(b);
  vh::Hash h; h.add(nm); h.add(p.x); h.add(t.t.x); h.add(mode); c.observe(h.h);
  // what is known: a shared point with room to spare in one of the two
  bool shared = false; double best = 0;
  if (mode == 0) { V w = t(q); double s1 = std::min(slack(a, w), slack(b, w) + 1e-11 * sc), s0 = std::max(slack(a, p), slack(b, p)); if (out(a, p) <= 1e-12 * sc && out(b, p) <= 1e-12 * sc && s0 > 1e-7 * sc) { shared = true; best = s0; } (void)s1; }
  if (!shared) for (int k = 0; k < 12 && !shared; ++k) { V w; if (!sampleIn(r, k & 1 ? b : a, w)) continue; w = p + (w - p) * r.u(); double s1 = slack(a, w), s2 = slack(b, w); if (std::min(s1, s2) >= -1e-12 * sc && std::max(s1, s2) > 1e-7 * sc) { shared = true; best = std::max(s1, s2); } }
  // two flat pieces that cross with room to spare
  c.phase("V02 overlap %s", nm.c_str());
  bool o1 = a.overlap(b), o2 = b.overlap(a); int o3 = Rel<B>::overlap(t, a, b0), o4 = Rel<B>::overlap(inverse(t), b0, a); B part; bool o5 = Part<B>::run(a, b, part);
  if (o5 != o1) { c.violation(nm + "|overlap with a part", info); return; }
  Shape sa, sb; T ta, tb; double ra = 0, rb = 0; bool haveRef = body(a, sa, ta, ra) && body(b, sb, tb, rb); Dist d; if (haveRef) { d = distance(sa, ta, sb, tb); d.lo = d.overlap ? 0 : std::max(0., d.lo - ra - rb); d.hi = d.overlap ? 0 : std::max(0., d.hi - ra - rb); }
  if (shared) {
    c.count("shared point"); if (best < 1e-3 * sc) c.count("shared point barely inside");
    if (!o1 || !o2 || !o3 || !o4) { c.violation(nm + "|sharing a point but reported disjoint", vh::fmt("overlap %d, swapped %d, relative %d, relative swapped %d; depth %.3g ", o1, o2, o3, o4, best) + info); return; }
  }
  double gapTol = (std::is_same<B, RSS>::value ? 1e-2 : 1e-5) * (norm(sa.p) + norm(sb.p) + ra + rb) + 1e-9 * sc;
  if (haveRef && !d.overlap && d.lo > gapTol) {
    c.count("clear gap"); if (d.lo < 1e-2 * size) c.count("clear small gap");
    if (o1 || o2 || o3 == 1 || o4 == 1) { c.violation(nm + "|clear gap but reported overlapping", vh::fmt("gap %.6g: overlap %d, swapped %d, relative %d, relative swapped %d ", d.lo, o1, o2, o3, o4) + info); return; }
  }
  if (!HasRel<B>::v && o1 != o2) { c.violation(nm + "|overlap depends on the order", info); return; }
  // distances
  if (!HasDist<B>::v) return;
  c.phase("V02 distance %s", nm.c_str()); double d1 = Dst<B>::d(a, b), d2 = Dst<B>::d(b, a), d3 = HasRel<B>::v ? Rel<B>::dist(t, a, b0) : d1, d4 = HasRel<B>::v ? Rel<B>::dist(inverse(t), b0, a) : d1;
  double up = 1e300; std::vector<V> pa, pb; V w; for (int k = 0; k < 10; ++k) { if (sampleIn(r, a, w)) pa.push_back(w); if (sampleIn(r, b, w)) pb.push_back(w); } for (auto& x : pa) for (auto& y : pb) up = std::min(up, norm(x - y));
  if (mode == 1) up = std::min(up, norm(p - t(q))); if (haveRef) up = std::min(up, d.hi); if (shared) up = 0;
  double dm = std::max(std::max(d1, d2), std::max(d3, d4)); c.count("distances"); if (dm > 0) c.count("positive distances"); c.maxi("distance above bound/scale " + nm, (dm - up) / sc);
  if (!(dm <= up + 1e-7 * sc) || !(std::min(std::min(d1, d2), std::min(d3, d4)) >= 0)) { c.violation(nm + "|distance above the distance of two contained points", vh::fmt("distance %.9g, swapped %.9g, relative %.9g, relative swapped %.9g; bound %.9g ", d1, d2, d3, d4, up) + info); return; }
  if (haveRef) { double dl = std::min(std::min(d1, d2), std::min(d3, d4)); c.maxi("distance below truth/scale " + nm, (d.lo - dl) / sc); c.count("exact distances"); if (d.lo - dl > 1e-2 * sc) { c.violation(nm + "|distance below the true one", vh::fmt("distance %.9g, swapped %.9g, relative %.9g, relative swapped %.9g; true %.9g ", d1, d2, d3, d4, d.lo) + info); return; } }
}
// two flat rectangles crossing transversally
template <class B> static void v02cross(vh::Ctx& c) {
  auto& r = c.rng; double size = r.logu(.05, 20); std::vector<V> A, Bp; V x = randIn(r, size); V n1 = randUnit(r), n2 = randUnit(r); if (norm(cross(n1, n2)) < .05) return; std::string nm = Name<B>::s();
  auto tri = [&](const V& n) { V u = unit(std::fabs(n.x) < .6 ? cross(n, V(1, 0, 0)) : cross(n, V(0, 1, 0))), w = cross(n, u); double a = r.uni(0, 7); std::vector<V> t; for (int i = 0; i < 3; ++i) t.push_back(x + (u * std::cos(a + i * 2.1) + w * std::sin(a + i * 2.1)) * (size * r.uni(.3, 1))); return t; };
  A = tri(n1); Bp = tri(n2); B a = fitOf<B>(A), b0 = fitOf<B>(Bp); if (out(a, x) > 1e-11 * size || out(b0, x) > 1e-11 * size) return;
  T t; if (Rot<B>::v) t = randPose(r, size); B am = xf(a, inverse(t));  // a expressed in another frame; b0 placed there by inverse(t)
  c.count("crossing flats"); vh::Hash h; h.add(nm); h.add(x.x); h.add(1); c.observe(h.h);
  c.phase("V02 crossing %s", nm.c_str()); bool o1 = a.overlap(b0), o2 = b0.overlap(a); int o3 = Rel<B>::overlap(inverse(t), am, b0), o4 = Rel<B>::overlap(t, b0, am);
  if (!o1 || !o2 || !o3 || !o4) { c.violation(nm + "|crossing flats reported disjoint", vh::fmt("overlap %d, swapped %d, relative %d, relative swapped %d ", o1, o2, o3, o4) + dump(a) + dump(b0)); return; }
  if (HasDist<B>::v) { double d1 = Dst<B>::d(a, b0), d2 = Dst<B>::d(b0, a), d3 = HasRel<B>::v ? Rel<B>::dist(t, b0, am) : d1; double dm = std::max(d1, std::max(d2, d3)); c.maxi("distance of crossing flats " + nm, dm / size); if (!(dm <= 1e-9 * size)) c.violation(nm + "|distance of crossing flats", vh::fmt("%.9g %.9g %.9g ", d1, d2, d3) + dump(a) + dump(b0)); }
}
template <class B> static void v02any(vh::Ctx& c) { if (c.rng.chance(.15)) v02cross<B>(c); else v02<B>(c); }
VH_PROP(V02) {
  Quiet quiet;
  switch (c.rng.below(10)) { case 0: return v02any<AABB>(c); case 1: case 2: return v02any<OBB>(c); case 3: case 4: return v02any<RSS>(c); case 5: return v02any<OBBRSS>(c); case 6: return v02any<kIOS>(c); case 7: return v02any<K16>(c); case 8: return v02any<K18>(c); default: return v02any<K24>(c); }
}
VH_MAIN

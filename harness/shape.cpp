// S01-S05: what single geometries say about themselves: boxes, mass properties, tessellations, extreme points, text.
#include "bvx.h"
#include "fcl/narrowphase/collision_object.h"
#include "fcl/geometry/geometric_shape_to_BVH_model.h"
#if FCL_HAVE_OCTOMAP
#include "fcl/geometry/octree/octree.h"
#endif
using namespace bvx;
using vh::Ctx; using vh::fmt;
typedef fcl::CollisionGeometryd G; typedef std::shared_ptr<G> GP;

// A geometry of FCL with its points seen from the reference side.
struct Geo {
  GP g; Shape s; Mesh m; std::vector<V> pts; bool shape = false, tight = false; std::string name;
  V sup(const V& u) const {
    if (shape && s.bounded()) return s.sup(u);
    const V* b = &pts[0]; D x = dot(*b, u); for (auto& q : pts) { D y = dot(q, u); if (y > x) { x = y; b = &q; } } return *b;
  }
  D size() const { if (shape && s.bounded()) return s.radius(); D r = 0; for (auto& q : pts) r = std::max(r, norm(q)); return r; }
};
static void samplePlane(Rng& r, Geo& g) {
  g.pts.clear();
  for (int i = 0; i < 40; ++i) {
    V t = randIn(r, r.logu(.1, 1e3)); t = t - g.s.p * dot(t, g.s.p);
    D deep = g.s.k == HALFSPACE ? (r.chance(.4) ? 0 : r.logu(1e-3, 1e4)) : 0;
    g.pts.push_back(t + g.s.p * (g.s.d - deep));
  }
}
static Geo randGeo(Rng& r) {
  Geo g; double u = r.u();
  if (u < .66) {
    Kind k = (Kind)r.below(NKIND); g.shape = true; g.s = randShape(r, k, .05, 20);
    if (!g.s.bounded()) {  // axis-aligned normals have their own box
      if (r.chance(.5)) { int a = r.below(3); g.s.p = V(); g.s.p[a] = r.chance(.5) ? 1 : -1; }
      samplePlane(r, g);
    }
    g.g = fx::fg<double>(g.s); g.tight = g.s.bounded(); g.name = kname(k);
  } else if (u < .9) {
    g.m = randMesh(r, r.below(7), 40); V o = r.chance(.5) ? V() : randIn(r, 5); for (auto& v : g.m.v) v = v + o;
    int t = r.below(8); g.g = buildAny(r, g.m, t); g.pts.clear();
    for (auto& x : g.m.t) for (int i : x) g.pts.push_back(g.m.v[i]);
    g.name = std::string("mesh ") + tname(t);
  } else {
#if FCL_HAVE_OCTOMAP
    double res = r.logu(.02, 2); auto tr = std::make_shared<octomap::OcTree>(res); int n = r.range(1, 40);
    V o = r.chance(.5) ? V() : randIn(r, 30);
    for (int i = 0; i < n; ++i) { V p = o + randIn(r, 8 * res); tr->updateNode(octomap::point3d(p.x, p.y, p.z), r.chance(.7)); }
    if (r.chance(.5)) tr->prune();
    for (auto it = tr->begin_leafs(); it != tr->end_leafs(); ++it) for (int k = 0; k < 8; ++k) {
      D h = it.getSize() / 2; g.pts.push_back(V(it.getX() + (k & 1 ? h : -h), it.getY() + (k & 2 ? h : -h), it.getZ() + (k & 4 ? h : -h)));
    }
    g.g = std::make_shared<fcl::OcTreed>(tr); g.name = "octree";
#else
    g.shape = true; g.s = randShape(r, SPHERE, .05, 20); g.g = fx::fg<double>(g.s); g.tight = true; g.name = "Sphere";
#endif
  }
  return g;
}
static void resize(Rng& r, Geo& g) {
  using namespace fcl; Shape& s = g.s; D f = r.logu(.3, 3);
  switch (s.k) {
    case SPHERE: s.p.x *= f; static_cast<Sphered&>(*g.g).radius = s.p.x; break;
    case BOX: s.p = V(s.p.x * f, s.p.y, s.p.z * r.logu(.3, 3)); static_cast<Boxd&>(*g.g).side = fx::fv<double>(s.p); break;
    case ELLIPSOID: s.p = V(s.p.x * f, s.p.y, s.p.z * r.logu(.3, 3)); static_cast<Ellipsoidd&>(*g.g).radii = fx::fv<double>(s.p); break;
    case CAPSULE: s.p.x *= f; s.p.y *= r.logu(.3, 3); static_cast<Capsuled&>(*g.g).radius = s.p.x; static_cast<Capsuled&>(*g.g).lz = s.p.y; break;
    case CONE: s.p.x *= f; s.p.y *= r.logu(.3, 3); static_cast<Coned&>(*g.g).radius = s.p.x; static_cast<Coned&>(*g.g).lz = s.p.y; break;
    case CYLINDER: s.p.x *= f; s.p.y *= r.logu(.3, 3); static_cast<Cylinderd&>(*g.g).radius = s.p.x; static_cast<Cylinderd&>(*g.g).lz = s.p.y; break;
    case TRI: s.pts[1] = s.pts[1] * f; static_cast<TrianglePd&>(*g.g).b = fx::fv<double>(s.pts[1]); break;
    case HALFSPACE: s.d += f; static_cast<Halfspaced&>(*g.g).d = s.d; samplePlane(r, g); break;
    case PLANE: s.d += f; static_cast<Planed&>(*g.g).d = s.d; samplePlane(r, g); break;
    default: break;
  }
  g.g->computeLocalAABB();
}
static std::vector<V> boundVertices(const Geo& g, const fcl::Transform3d& tf) {
  using namespace fcl; std::vector<E> e;
  switch (g.s.k) {
    case SPHERE: e = static_cast<Sphered&>(*g.g).getBoundVertices(tf); break;
    case BOX: e = static_cast<Boxd&>(*g.g).getBoundVertices(tf); break;
    case ELLIPSOID: e = static_cast<Ellipsoidd&>(*g.g).getBoundVertices(tf); break;
    case CAPSULE: e = static_cast<Capsuled&>(*g.g).getBoundVertices(tf); break;
    case CONE: e = static_cast<Coned&>(*g.g).getBoundVertices(tf); break;
    case CYLINDER: e = static_cast<Cylinderd&>(*g.g).getBoundVertices(tf); break;
    case CONVEX: e = static_cast<Convexd&>(*g.g).getBoundVertices(tf); break;
    case TRI: e = static_cast<TrianglePd&>(*g.g).getBoundVertices(tf); break;
    default: break;
  }
  std::vector<V> v; for (auto& x : e) v.push_back(fr(x)); return v;
}
static void checkLocal(Ctx& c, Geo& g) {
  Rng& r = c.rng; const auto& bx = g.g->aabb_local; D tol = 1e-12 * (1 + g.size()); V ctr = fr(g.g->aabb_center); D rad = g.g->aabb_radius;
  std::string w = "local|" + g.name;
  if (g.shape && !g.s.bounded()) {
    for (auto& p : g.pts) { if (!(out(bx, p) <= 1e-9 * (1 + norm(p)))) return c.violation(w + "|box", g.s.str() + " point " + str(p) + " outside the local box"); }
    c.count("unbounded local boxes"); return;
  }
  for (int i = 0; i < 3; ++i) for (int sgn = -1; sgn <= 1; sgn += 2) {
    V u; u[i] = sgn; D e = g.sup(u)[i], b = sgn > 0 ? bx.max_[i] : bx.min_[i]; D o = sgn * (e - b);
    if (!(o <= tol)) return c.violation(w + "|box", fmt("%s axis %d extent %.17g box %.17g", g.s.str().c_str(), i * sgn, e, b));
    if (g.tight && !(o >= -tol)) return c.violation(w + "|loose", fmt("%s axis %d extent %.17g box %.17g", g.s.str().c_str(), i * sgn, e, b));
  }
  for (int i = 0; i < 12; ++i) {
    V p = g.sup(i < 6 ? randUnit(r) : randUnit(r) * 1.0); if (i > 8 && !g.pts.empty()) p = r.pick(g.pts);
    if (!(norm(p - ctr) <= rad + tol)) return c.violation(w + "|sphere", fmt("%s point %s is %.17g from the centre, radius %.17g", g.s.str().c_str(), str(p).c_str(), norm(p - ctr), rad));
  }
  c.count("local boxes");
}
static void checkWorld(Ctx& c, const Geo& g, const fcl::CollisionObjectd& o, const T& t, const std::string& how) {
  Rng& r = c.rng; const auto& bx = o.getAABB(); D sc = 1 + g.size() + norm(t.t);
  std::vector<V> q;
  if (g.shape && !g.s.bounded()) { for (auto& p : g.pts) q.push_back(t(p)); }
  else {
    for (int i = 0; i < 6; ++i) { V u; u[i % 3] = i < 3 ? 1 : -1; q.push_back(t(g.sup(tmul(t.R, u)))); }
    for (int i = 0; i < 6; ++i) q.push_back(t(g.sup(randUnit(r))));
  }
  for (auto& p : q) if (!(out(bx, p) <= 1e-9 * (sc + norm(p))))
    return c.violation("world|" + g.name, fmt("after %s: %s at %s: point %s outside the world box by %.3g", how.c_str(), g.s.str().c_str(), str(t).c_str(), str(p).c_str(), out(bx, p)));
  c.count("world boxes");
}
VH_PROP(S01) {
  Rng& r = c.rng; Geo g = randGeo(r); c.phase("S01 %s", g.name.c_str());
  g.g->computeLocalAABB(); checkLocal(c, g);
  if (g.shape && g.s.bounded()) {
    T t = randPose(r, 5); auto v = boundVertices(g, fx::ft<double>(t));
    for (int i = 0; i < 20; ++i) {
      V u = i < 6 ? t.R * V(i == 0 ? 1 : i == 1 ? -1 : 0, i == 2 ? 1 : i == 3 ? -1 : 0, i == 4 ? 1 : i == 5 ? -1 : 0) : randUnit(r);
      D h = dot(t(g.s.sup(tmul(t.R, u))), u), b = -1e300; for (auto& p : v) b = std::max(b, dot(p, u));
      if (!(b >= h - 1e-9 * (1 + g.size() + norm(t.t)))) { c.violation("boundVertices|" + g.name, fmt("%s along %s: bound vertices reach %.17g, shape %.17g", g.s.str().c_str(), str(u).c_str(), b, h)); break; }
    }
    c.count("bound vertex sets");
  }
  // an object and its pose history
  T t; fcl::CollisionObjectd* o; int ctor = r.below(3); std::string how = "construction";
  if (ctor == 0) o = new fcl::CollisionObjectd(g.g);
  else { t = randPose(r, r.chance(.2) ? 1e4 : 10); if (ctor == 1) o = new fcl::CollisionObjectd(g.g, fx::ft<double>(t)); else { auto f = fx::ft<double>(t); o = new fcl::CollisionObjectd(g.g, f.linear(), f.translation()); } }
  std::unique_ptr<fcl::CollisionObjectd> hold(o); checkWorld(c, g, *o, t, how);
  int n = r.range(1, 12); uint64_t h = vh::hstr(g.name.c_str());
  for (int k = 0; k < n; ++k) {
    T x = randPose(r, r.chance(.1) ? 1e4 : 10); auto f = fx::ft<double>(x); fcl::Quaterniond qq(f.linear()); int op = r.below(10);
    if (op == 9 && !(g.shape && g.s.k != CONVEX)) op = 0;
    switch (op) {
      case 0: o->setTransform(f); t = x; how = "setTransform(tf)"; break;
      case 1: o->setTransform(f.linear(), f.translation()); t = x; how = "setTransform(R,T)"; break;
      case 2: o->setTransform(qq, f.translation()); t = x; how = "setTransform(q,T)"; break;
      case 3: o->setRotation(f.linear()); t.R = x.R; how = "setRotation"; break;
      case 4: o->setQuatRotation(qq); t.R = x.R; how = "setQuatRotation"; break;
      case 5: case 6: o->setTranslation(f.translation()); t.t = x.t; how = "setTranslation"; break;
      case 7: o->setIdentityTransform(); t = T(); how = "setIdentityTransform"; break;
      case 8: { V d = randIn(r, 1); o->setTransform(o->getRotation(), o->getTranslation() + fx::fv<double>(d)); t.t = t.t + d; how = "moving by its own getters"; break; }
      case 9: resize(r, g); checkLocal(c, g); how = "resizing"; break;
    }
    T got = fx::rt<double>(o->getTransform()); fcl::Transform3d f2 = fcl::Transform3d::Identity(); f2.linear() = o->getRotation(); f2.translation() = o->getTranslation(); T got2 = fx::rt<double>(f2);
    fcl::Matrix3d qm = o->getQuatRotation().toRotationMatrix(); D e = 0;
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { e = std::max(e, std::fabs(got.R.m[i][j] - t.R.m[i][j])); e = std::max(e, std::fabs(got2.R.m[i][j] - t.R.m[i][j])); e = std::max(e, std::fabs(qm(i, j) - t.R.m[i][j])); } e = std::max(e, std::fabs(got.t[i] - t.t[i]) / (1 + norm(t.t))); e = std::max(e, std::fabs(got2.t[i] - t.t[i]) / (1 + norm(t.t))); }
    if (!(e < 1e-11)) { c.violation("getters|" + how, "pose read back differs from " + str(t)); break; }
    if (o->isIdentityTransform() != (norm(t.t) < 1e-12 && std::fabs(t.R.m[0][0] - 1) + std::fabs(t.R.m[1][1] - 1) + std::fabs(t.R.m[2][2] - 1) + std::fabs(t.R.m[0][1]) + std::fabs(t.R.m[0][2]) + std::fabs(t.R.m[1][2]) < 1e-12) && norm(t.t) > 1e-9) { c.violation("getters|isIdentityTransform", str(t)); break; }
    o->computeAABB(); checkWorld(c, g, *o, t, how); h = vh::mix(h, op);
  }
  c.observe(vh::mix(h, (uint64_t)(1e6 * g.size())));
  if (c.caseno < 3) c.sample(fmt("%s, %d pose changes", g.name.c_str(), n));
}

// ---------------------------------------------------------------- S02
struct Mass { D vol = 0; V com; M in; };   // inertia about the frame origin, unit density
static M inertiaOf(D xx, D yy, D zz, D xy, D xz, D yz) { M m; m.m[0][0] = yy + zz; m.m[1][1] = xx + zz; m.m[2][2] = xx + yy; m.m[0][1] = m.m[1][0] = -xy; m.m[0][2] = m.m[2][0] = -xz; m.m[1][2] = m.m[2][1] = -yz; return m; }
static Mass polyMass(const std::vector<V>& v, const std::vector<std::vector<int>>& faces) {
  V o; for (auto& p : v) o = o + p; o = o * (1. / v.size()); Mass r; D s[3][3] = {}; V first;
  for (auto& f : faces) for (size_t k = 1; k + 1 < f.size(); ++k) {
    V a = v[f[0]] - o, b = v[f[k]] - o, d = v[f[k + 1]] - o; D vol = dot(a, cross(b, d)) / 6; r.vol += vol; V q = a + b + d; first = first + q * (vol / 4);
    // integral of x_i x_j over a tetrahedron with a vertex at the origin
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s[i][j] += vol / 20 * (q[i] * q[j] + a[i] * a[j] + b[i] * b[j] + d[i] * d[j]);
  }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s[i][j] += o[i] * first[j] + first[i] * o[j] + r.vol * o[i] * o[j];
  r.com = first * (1 / r.vol) + o; r.in = inertiaOf(s[0][0], s[1][1], s[2][2], s[0][1], s[0][2], s[1][2]); return r;
}
static Mass sliceMass(const Shape& s) {  // elliptic cross-sections perpendicular to z, Gauss-Legendre (exact for these)
  static const D gx[4] = {.1834346424956498, .5255324099163290, .7966664774136267, .9602898564975363}, gw[4] = {.3626837833783620, .3137066458778873, .2223810344533745, .1012285362903763};
  std::vector<std::pair<D, D>> seg; auto ab = [&](D z, D& a, D& b, int piece) {
    switch (s.k) {
      case SPHERE: a = b = std::sqrt(std::max(0., s.p.x * s.p.x - z * z)); break;
      case ELLIPSOID: { D f = std::sqrt(std::max(0., 1 - z * z / s.p.z / s.p.z)); a = s.p.x * f; b = s.p.y * f; break; }
      case CYLINDER: a = b = s.p.x; break;
      case CONE: a = b = s.p.x * (.5 - z / s.p.y); break;
      case CAPSULE: { D q = std::max(0., std::fabs(z) - s.p.y / 2); a = b = std::sqrt(std::max(0., s.p.x * s.p.x - q * q)); break; }
      default: a = b = 0;
    } };
  switch (s.k) {
    case SPHERE: seg = {{-s.p.x, s.p.x}}; break; case ELLIPSOID: seg = {{-s.p.z, s.p.z}}; break; case CYLINDER: case CONE: seg = {{-s.p.y / 2, s.p.y / 2}}; break;
    default: seg = {{-s.p.y / 2 - s.p.x, -s.p.y / 2}, {-s.p.y / 2, s.p.y / 2}, {s.p.y / 2, s.p.y / 2 + s.p.x}}; break;
  }
  Mass r; D xx = 0, yy = 0, zz = 0, z1 = 0;
  for (auto& g : seg) for (int i = 0; i < 8; ++i) {
    D x = i < 4 ? gx[i] : -gx[i - 4], w = gw[i % 4] * (g.second - g.first) / 2, z = (g.first + g.second) / 2 + x * (g.second - g.first) / 2, a, b; ab(z, a, b, 0);
    D A = M_PI * a * b * w; r.vol += A; z1 += A * z; zz += A * z * z; xx += A * a * a / 4; yy += A * b * b / 4;
  }
  r.com = V(0, 0, z1 / r.vol); r.in = inertiaOf(xx, yy, zz, 0, 0, 0); return r;
}
static D diff(const M& a, const fcl::Matrix3d& b) { D e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D x = std::fabs(a.m[i][j] - b(i, j)); if (!(x <= e)) e = x; } return e; }
static M aboutCom(const Mass& m, D mass) {
  M r = m.in; V c = m.com; D q = dot(c, c); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] -= mass * ((i == j ? q : 0) - c[i] * c[j]); return r;
}
static void checkMass(Ctx& c, const G& g, Mass ref, bool unitMass, const std::string& name, const std::string& what, D rel) {
  // size of the terms that cancel: second moment about the origin
  D big = 0; for (auto& row : ref.in.m) for (D e : row) big = std::max(big, std::fabs(e));
  D v = g.computeVolume(); if (!(std::fabs(v - ref.vol) <= rel * ref.vol)) return c.violation("volume|" + name, fmt("%s: volume %.17g, expected %.17g", what.c_str(), v, ref.vol));
  V q = fr(g.computeCOM()); D lc = std::sqrt(big / ref.vol); if (!(norm(q - ref.com) <= rel * lc)) return c.violation("com|" + name, fmt("%s: centre of mass %s, expected %s", what.c_str(), str(q).c_str(), str(ref.com).c_str()));
  D mass = ref.vol; if (unitMass) { for (auto& row : ref.in.m) for (D& e : row) e /= ref.vol; big /= ref.vol; mass = 1; }
  fcl::Matrix3d I = g.computeMomentofInertia(); if (!(diff(ref.in, I) <= rel * big)) return c.violation("inertia|" + name, fmt("%s: inertia off by %.3g of %.3g", what.c_str(), diff(ref.in, I), big));
  fcl::Matrix3d J = g.computeMomentofInertiaRelatedToCOM(); M jr = aboutCom(ref, mass); if (!(diff(jr, J) <= rel * big)) return c.violation("inertia about com|" + name, fmt("%s: off by %.3g of %.3g", what.c_str(), diff(jr, J), big));
  if (!((I - I.transpose()).cwiseAbs().maxCoeff() <= rel * big)) return c.violation("symmetry|" + name, what);
  D ev = Eigen::SelfAdjointEigenSolver<fcl::Matrix3d>(J).eigenvalues()[0]; if (!(ev > -rel * big)) return c.violation("positive|" + name, what);
  c.count("bodies checked"); c.count(name); c.observe(vh::mix(vh::hstr(name.c_str()), (uint64_t)(1e9 * ref.vol)));
}
// a convex polyhedron with polygonal faces; coplanar = adds faces split into pieces, some with vertices inside a flat face
struct Poly { std::vector<V> v; std::vector<std::vector<int>> f; std::string kind; };
static Poly randPoly(Rng& r, bool noFlat = false) {
  Poly p; int k = r.below(noFlat ? 4 : 6); D sz = r.logu(.2, 5);
  if (k == 0 || k == 1) { Shape s = randConvex(r, sz, k == 0 ? r.range(4, 40) : r.range(40, 150)); p.v = s.pts; for (auto& t : s.tris) p.f.push_back({t[0], t[1], t[2]}); p.kind = "hull"; }
  else if (k == 2) {  // prism or frustum
    int n = r.range(3, 40); D q = r.chance(.5) ? 1 : r.uni(.3, 1.5), h = r.logu(.2, 3) * sz, ph = r.uni(0, 6); std::vector<int> a, b;
    for (int i = 0; i < n; ++i) { D t = ph + 2 * M_PI * i / n; p.v.push_back(V(sz * cos(t), sz * sin(t), -h)); p.v.push_back(V(q * sz * cos(t), q * sz * sin(t), h)); }
    for (int i = 0; i < n; ++i) { int j = (i + 1) % n; a.push_back(2 * (n - 1 - i)); b.push_back(2 * i + 1); p.f.push_back({2 * i, 2 * j, 2 * j + 1, 2 * i + 1}); }
    p.f.push_back(a); p.f.push_back(b); p.kind = "prism";
  } else if (k == 3) {  // UV sphere
    int n = r.range(3, 14), m = r.range(1, 12); for (int i = 1; i <= m; ++i) for (int j = 0; j < n; ++j) { D a = M_PI * i / (m + 1), b = 2 * M_PI * j / n; p.v.push_back(V(sin(a) * cos(b), sin(a) * sin(b), cos(a)) * sz); }
    int top = n * m, bot = top + 1; p.v.push_back(V(0, 0, sz)); p.v.push_back(V(0, 0, -sz));
    for (int j = 0; j < n; ++j) { int q = (j + 1) % n; p.f.push_back({top, j, q}); p.f.push_back({bot, (m - 1) * n + q, (m - 1) * n + j}); for (int i = 0; i + 1 < m; ++i) p.f.push_back({i * n + j, (i + 1) * n + j, (i + 1) * n + q, i * n + q}); }
    p.kind = "uv sphere";
  } else if (k == 4) {  // box with faces cut in a grid
    int n = r.range(1, 5); V h(r.logu(.3, 2), r.logu(.3, 2), r.logu(.3, 2)); h = h * sz; std::map<std::array<int, 3>, int> id;
    auto at = [&](std::array<int, 3> q) { auto it = id.find(q); if (it != id.end()) return it->second; int x = p.v.size(); id[q] = x; p.v.push_back(V((2. * q[0] / n - 1) * h.x, (2. * q[1] / n - 1) * h.y, (2. * q[2] / n - 1) * h.z)); return x; };
    bool tri = r.chance(.5);
    for (int ax = 0; ax < 3; ++ax) for (int side = 0; side < 2; ++side) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      std::array<int, 3> q; int b = (ax + 1) % 3, d = (ax + 2) % 3; int c4[4]; int I[4] = {i, i + 1, i + 1, i}, J[4] = {j, j, j + 1, j + 1};
      for (int k2 = 0; k2 < 4; ++k2) { q[ax] = side * n; q[b] = I[k2]; q[d] = J[k2]; c4[k2] = at(q); }
      std::vector<int> f = {c4[0], c4[1], c4[2], c4[3]}; if (!side) std::reverse(f.begin(), f.end());
      if (tri) { p.f.push_back({f[0], f[1], f[2]}); p.f.push_back({f[0], f[2], f[3]}); } else p.f.push_back(f);
    }
    p.kind = "grid box";
  } else {  // box whose faces got extra vertices inside, splitting triangles in three again and again
    Mesh b = boxMesh(V(r.logu(.3, 2), r.logu(.3, 2), r.logu(.3, 2)) * sz); p.v = b.v; for (auto& t : b.t) p.f.push_back({t[0], t[1], t[2]});
    D vol = 0; for (auto& f : p.f) vol += dot(p.v[f[0]], cross(p.v[f[1]], p.v[f[2]])); if (vol < 0) for (auto& f : p.f) std::swap(f[1], f[2]);
    int n = r.range(1, 60);
    for (int i = 0; i < n; ++i) {
      int k2 = r.below(p.f.size()); auto f = p.f[k2]; V a = p.v[f[0]], b2 = p.v[f[1]], d = p.v[f[2]]; if (norm(cross(b2 - a, d - a)) < 1e-4 * sz * sz) continue;
      D x = r.chance(.5) ? .25 : r.uni(.2, .4), y = r.chance(.5) ? .25 : r.uni(.2, .4); V q = a * (1 - x - y) + b2 * x + d * y;
      for (int z = 0; z < 3; ++z) if (a[z] == b2[z] && a[z] == d[z]) q[z] = a[z];
      int id = p.v.size(); p.v.push_back(q); p.f[k2] = {f[0], f[1], id}; p.f.push_back({f[1], f[2], id}); p.f.push_back({f[2], f[0], id});
    }
    p.kind = "split box";
  }
  // shuffle vertex numbers, face order and face starts
  int n = p.v.size(); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
  std::vector<V> w(n); for (int i = 0; i < n; ++i) w[perm[i]] = p.v[i]; p.v = w;
  for (auto& f : p.f) { for (int& i : f) i = perm[i]; std::rotate(f.begin(), f.begin() + r.below(f.size()), f.end()); }
  for (int i = (int)p.f.size() - 1; i > 0; --i) std::swap(p.f[i], p.f[r.below(i + 1)]);
  return p;
}
static std::shared_ptr<fcl::Convexd> mkConvex(const Poly& p, bool thr) {
  auto v = std::make_shared<std::vector<E>>(); for (auto& q : p.v) v->push_back(fx::fv<double>(q));
  auto f = std::make_shared<std::vector<int>>(); for (auto& t : p.f) { f->push_back(t.size()); for (int i : t) f->push_back(i); }
  return std::make_shared<fcl::Convexd>(v, (int)p.f.size(), f, thr);
}
VH_PROP(S02) {
  Rng& r = c.rng; int which = r.below(8); std::string nm;
  if (which < 5) {
    static const Kind K[6] = {SPHERE, BOX, ELLIPSOID, CAPSULE, CONE, CYLINDER}; Kind k = K[r.below(6)]; Shape s = randShape(r, k, .01, 100); auto g = fx::fg<double>(s); c.phase("S02 %s", kname(k));
    Mass m;
    if (k == BOX) { D v = s.p.x * s.p.y * s.p.z; m.vol = v; m.in = inertiaOf(v * s.p.x * s.p.x / 12, v * s.p.y * s.p.y / 12, v * s.p.z * s.p.z / 12, 0, 0, 0); } else m = sliceMass(s);
    checkMass(c, *g, m, false, kname(k), s.str(), 1e-11);
  } else {
    Poly p = randPoly(r); T t = randPose(r, r.chance(.3) ? 0 : r.logu(.1, 20)); for (auto& v : p.v) v = t(v); D big = 0, vol0; for (auto& v : p.v) big = std::max(big, norm(v));
    Mass m = polyMass(p.v, p.f); vol0 = m.vol; D rel = 1e-12 * (1 + big * big * big / vol0);
    if (which < 7) { c.phase("S02 Convex"); checkMass(c, *mkConvex(p, true), m, true, "Convex", p.kind, rel); }
    else {
      Mesh q; q.v = p.v; for (auto& f : p.f) for (size_t k = 1; k + 1 < f.size(); ++k) q.t.push_back({f[0], f[k], f[k + 1]});
      if (r.chance(.3)) {  // a second body
        Poly p2 = randPoly(r); T t2 = randPose(r, 30); Mesh q2; for (auto& v : p2.v) v = t2(v); for (auto& v : p2.v) big = std::max(big, norm(v)); int o = q.v.size(); Mass m2 = polyMass(p2.v, p2.f); rel = std::max(rel, 1e-12 * (1 + big * big * big / std::min(vol0, m2.vol)));
        for (auto& v : p2.v) q.v.push_back(v); for (auto& f : p2.f) for (size_t k = 1; k + 1 < f.size(); ++k) q.t.push_back({f[0] + o, f[k] + o, f[k + 1] + o});
        D s = m.vol + m2.vol; m.com = (m.com * m.vol + m2.com * m2.vol) * (1 / s); m.vol = s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.in.m[i][j] += m2.in.m[i][j];
      }
      int ty = r.below(8); c.phase("S02 mesh %s", tname(ty)); checkMass(c, *buildAny(r, q, ty), m, false, "mesh", p.kind, rel);
    }
  }
}

// ---------------------------------------------------------------- S03
struct Gen { int rc; std::vector<V> v; std::vector<std::array<int, 3>> t; };
template <class B> static void take(const fcl::BVHModel<B>& m, Gen& g) {
  for (int i = 0; i < m.num_vertices; ++i) g.v.push_back(fr(m.vertices[i]));
  for (int i = 0; i < m.num_tris; ++i) g.t.push_back({(int)m.tri_indices[i][0], (int)m.tri_indices[i][1], (int)m.tri_indices[i][2]});
}
template <class B> static Gen generate(Rng& r, const Shape& s, const T& pose, int a, int b, bool unit) {
  using namespace fcl; BVHModel<B> m; Transform3d tf = fx::ft<double>(pose); Gen g;
  bool split = r.chance(.3); auto F = split ? FinalizeModel::DONT : FinalizeModel::DO;
  switch (s.k) {
    case BOX: g.rc = generateBVHModel(m, Boxd(s.p.x, s.p.y, s.p.z), tf, F); break;
    case SPHERE: g.rc = unit ? generateBVHModel(m, Sphered(s.p.x), tf, a, F) : generateBVHModel(m, Sphered(s.p.x), tf, a, b, F); break;
    case ELLIPSOID: g.rc = unit ? generateBVHModel(m, Ellipsoidd(s.p.x, s.p.y, s.p.z), tf, a, F) : generateBVHModel(m, Ellipsoidd(s.p.x, s.p.y, s.p.z), tf, a, b, F); break;
    case CYLINDER: g.rc = unit ? generateBVHModel(m, Cylinderd(s.p.x, s.p.y), tf, a, F) : generateBVHModel(m, Cylinderd(s.p.x, s.p.y), tf, a, b, F); break;
    default: g.rc = unit ? generateBVHModel(m, Coned(s.p.x, s.p.y), tf, a, F) : generateBVHModel(m, Coned(s.p.x, s.p.y), tf, a, b, F); break;
  }
  if (split) { if (g.rc == BVH_OK) g.rc = m.endModel(); m.computeLocalAABB(); }
  take(m, g); return g;
}
VH_PROP(S03) {
  Rng& r = c.rng; static const Kind K[5] = {SPHERE, BOX, ELLIPSOID, CONE, CYLINDER}; Kind k = K[r.below(5)]; Shape s = randShape(r, k, .1, 6);
  T t = randPose(r, 5); bool unit = k != BOX && r.chance(.4); int a, b; int ty = r.below(8);
  if (unit) { a = r.chance(.3) ? r.range(1, 12) : r.range(8, k == SPHERE || k == ELLIPSOID ? 600 : 40); b = 0; D lim = k == SPHERE ? s.p.x : k == ELLIPSOID ? std::max(s.p.x, std::max(s.p.y, s.p.z)) : 1; if (lim > 3) a = std::min(a, 100); if (k == CYLINDER || k == CONE) s.p.y = std::min(s.p.y, 30 * s.p.x); }
  else { a = r.range(3, 40); b = r.range(1, 20); }
  std::string nm = fmt("%s%s", kname(k), unit ? " by density" : ""); c.phase("S03 %s", nm.c_str());
  std::string what = fmt("%s (%d,%d) in %s", s.str().c_str(), a, b, tname(ty));
  Gen g; switch (ty) { case 0: g = generate<AABB>(r, s, t, a, b, unit); break; case 1: g = generate<OBB>(r, s, t, a, b, unit); break; case 2: g = generate<RSS>(r, s, t, a, b, unit); break; case 3: g = generate<OBBRSS>(r, s, t, a, b, unit); break; case 4: g = generate<kIOS>(r, s, t, a, b, unit); break; case 5: g = generate<K16>(r, s, t, a, b, unit); break; case 6: g = generate<K18>(r, s, t, a, b, unit); break; default: g = generate<K24>(r, s, t, a, b, unit); }
  if (g.rc != fcl::BVH_OK) return c.violation("rc|" + nm, fmt("%s: return code %d", what.c_str(), g.rc));
  // closed and consistently oriented
  std::map<std::pair<int, int>, int> ed; int nv = g.v.size(); D area = 0;
  for (auto& x : g.t) for (int i = 0; i < 3; ++i) { if (x[i] < 0 || x[i] >= nv) return c.violation("index|" + nm, what); if (x[i] == x[(i + 1) % 3]) return c.violation("degenerate|" + nm, what); ed[{x[i], x[(i + 1) % 3]}]++; }
  for (auto& e : ed) { if (e.second != 1) return c.violation("orientation|" + nm, what + ": an edge is used twice in one direction"); if (!ed.count({e.first.second, e.first.first})) return c.violation("open|" + nm, what + ": an edge has no opposite"); }
  if (g.t.empty() || (int)(g.v.size() - ed.size() / 2 + g.t.size()) != 2) return c.violation("genus|" + nm, fmt("%s: %d vertices %d edges %d triangles", what.c_str(), nv, (int)ed.size() / 2, (int)g.t.size()));
  // vertices on the surface, outward orientation, deviation
  D sc = s.radius() + norm(t.t); std::vector<V> l; for (auto& v : g.v) l.push_back(t.inv(v));
  for (auto& q : l) {
    D e; switch (k) {
      case SPHERE: e = norm(q) - s.p.x; break;
      case ELLIPSOID: e = std::sqrt(q.x * q.x / s.p.x / s.p.x + q.y * q.y / s.p.y / s.p.y + q.z * q.z / s.p.z / s.p.z) - 1; break;
      case BOX: { D o = -1e300; for (int i = 0; i < 3; ++i) o = std::max(o, std::fabs(q[i]) - s.p[i] / 2); e = o; break; }
      case CYLINDER: e = std::max(std::hypot(q.x, q.y) - s.p.x, std::fabs(q.z) - s.p.y / 2); break;
      default: e = std::max(std::hypot(q.x, q.y) - s.p.x * (.5 - q.z / s.p.y), -q.z - s.p.y / 2); break;
    }
    if (!(std::fabs(e) <= 1e-10 * sc + (k == ELLIPSOID ? 1e-10 * sc / s.minDim() : 0))) return c.violation("surface|" + nm, fmt("%s: vertex %s is off the surface by %.3g", what.c_str(), str(q).c_str(), e));
  }
  std::vector<std::vector<int>> fs; for (auto& x : g.t) fs.push_back({x[0], x[1], x[2]}); D vol = polyMass(l, fs).vol;
  Mass full; if (k == BOX) full.vol = s.p.x * s.p.y * s.p.z; else full = sliceMass(s);
  if (!(vol > 0)) return c.violation("inside out|" + nm, what);
  if (!(vol <= full.vol * (1 + 1e-10))) return c.violation("volume|" + nm, what);
  // tessellation as asked
  int seg = a, ring = b, nt = g.t.size(), want = 0; bool round = k == SPHERE || k == ELLIPSOID;
  if (k == BOX) want = 12;
  else if (!unit) want = round ? 2 * seg * ring : k == CYLINDER ? 2 * seg + 2 * seg * ring : 2 * seg * ring;
  if (want && nt != want) return c.violation("count|" + nm, fmt("%s: %d triangles, asked for %d", what.c_str(), nt, want));
  if (unit) {
    if (round) {  // documented: N times the area ratio; rounded up per direction, at least a closed surface
      const D p = 1.6075; D ratio = k == SPHERE ? s.p.x * s.p.x : std::pow((std::pow(s.p.x * s.p.y, p) + std::pow(s.p.y * s.p.z, p) + std::pow(s.p.z * s.p.x, p)) / 3, 1 / p);
      D n = a * ratio, q = std::sqrt(n / 2); D lo = n * (1 - 1e-6), hi = 2 * std::max(3., q + 1.001) * std::max(1., q + 1.001);
      if (!(nt >= lo && nt <= hi)) return c.violation("count|" + nm, fmt("%s: %d triangles, documented about %.1f", what.c_str(), nt, n));
      seg = ring = std::max(3, (int)q);
    } else {
      D n = a * s.p.x; // segments on the circle
      std::set<std::pair<long, long>> base; for (auto& q : l) if (q.z < -s.p.y / 2 + 1e-9 * sc && std::hypot(q.x, q.y) > .5 * s.p.x) base.insert({lround(q.x * 1e7), lround(q.y * 1e7)});
      int got = base.size(); if (!(got >= std::max(3., n - 1.001) && got <= std::max(3., n + 1.001))) return c.violation("count|" + nm, fmt("%s: %d segments, documented %.2f", what.c_str(), got, n));
      seg = got; ring = 1;
    }
  }
  // deviation bound along random directions
  D R = k == BOX ? 0 : round ? s.radius() : s.p.x; D dev = R * (1 - std::cos(M_PI / std::max(3, seg))) + (round ? R * (1 - std::cos(M_PI / (ring + 1))) : 0); if (unit && round) dev = 1.05 * R * (2 - std::cos(M_PI / std::max(3, seg)) - std::cos(M_PI / (std::max(1, ring) + 1)));
  D worst = 0;
  for (int i = 0; i < 30; ++i) { V u = randUnit(r); D h = dot(s.sup(u), u), m = -1e300; for (auto& q : l) m = std::max(m, dot(q, u)); if (m > h + 1e-9 * sc) return c.violation("outside|" + nm, what); worst = std::max(worst, h - m); }
  if (!(worst <= dev * 1.01 + 1e-9 * sc)) return c.violation("deviation|" + nm, fmt("%s: %d segments deviate by %.3g, bound %.3g", what.c_str(), seg, worst, dev));
  c.count("meshes checked"); c.count(nm); c.count("triangles", nt); c.observe(vh::mix(vh::hstr(what.c_str()), nt));
}

// ---------------------------------------------------------------- S04
static bool closedManifold(const Poly& p) {
  std::map<std::pair<int, int>, int> e; std::vector<char> used(p.v.size(), 0);
  for (auto& f : p.f) for (size_t i = 0; i < f.size(); ++i) { int a = f[i], b = f[(i + 1) % f.size()]; used[a] = 1; e[{std::min(a, b), std::max(a, b)}]++; }
  for (char u : used) if (!u) return false;
  for (auto& x : e) if (x.second != 2) return false;
  return true;
}
static void extremes(Ctx& c, const fcl::Convexd& g, const Poly& p, const std::string& nm, int n) {
  Rng& r = c.rng; D sc = 0; for (auto& v : p.v) sc = std::max(sc, norm(v)); const E* base = g.getVertices().data();
  for (int i = 0; i < n; ++i) {
    V u; double q = r.u(); int kind = 0;
    if (i < 6) { u[i / 2] = i & 1 ? -1 : 1; }
    else if (q < .25) { auto& f = r.pick(p.f); u = cross(p.v[f[1]] - p.v[f[0]], p.v[f[2]] - p.v[f[0]]); if (norm(u) > 0) u = unit(u); if (r.chance(.6)) u = -u; kind = 1; }
    else if (q < .35) { u = p.v[r.below(p.v.size())] - p.v[r.below(p.v.size())]; kind = 2; }
    else if (q < .45) { u = randUnit(r); u[r.below(3)] = 0; kind = 3; }
    else if (q < .5) { u = cross(randUnit(r), p.v[r.below(p.v.size())]); kind = 4; }
    else u = randUnit(r);
    if (r.chance(.3)) u = u * r.logu(1e-6, 1e6);
    if (norm(u) < 1e-12) continue;
    const E& e = g.findExtremeVertex(fx::fv<double>(u)); D best = -1e300; for (auto& v : p.v) best = std::max(best, dot(v, u));
    D got = dot(fr(e), u); if (!(got >= best - 1e-12 * sc * norm(u))) return c.violation("extreme|" + nm, fmt("%s with %d vertices, direction %s: vertex at %.17g, farthest at %.17g", p.kind.c_str(), (int)p.v.size(), str(u).c_str(), got, best));
    if (&e < base || &e >= base + p.v.size()) return c.violation("extreme|not a vertex", p.kind);
    c.count("extreme points");
  }
}
VH_PROP(S04) {
  Rng& r = c.rng; Poly p = randPoly(r); T t = r.chance(.5) ? T() : randPose(r, 3); for (auto& v : p.v) v = t(v); c.phase("S04 %s", p.kind.c_str());
  std::string nm = p.v.size() > 32 ? "large" : "small";
  if (!closedManifold(p)) { c.count("generator skipped"); return; }
  std::shared_ptr<fcl::Convexd> g; try { g = mkConvex(p, true); } catch (const std::exception& e) { return c.violation("rejected|" + p.kind, e.what()); }
  extremes(c, *g, p, nm, 40); c.count("meshes"); c.count(p.kind); c.count(nm + " meshes");
  { Shape s; V q = fr(g->getInteriorPoint()); D sc = 0; for (auto& v : p.v) sc = std::max(sc, norm(v - q)); for (auto& f : p.f) { V n = unit(cross(p.v[f[1]] - p.v[f[0]], p.v[f[2]] - p.v[f[0]])); if (!(dot(n, q - p.v[f[0]]) <= 1e-9 * sc)) { c.violation("interior|" + p.kind, "interior point outside a face"); break; } } }
  if (g->getFaceCount() != (int)p.f.size() || g->getVertices().size() != p.v.size()) c.violation("accessors", p.kind);
  if (r.chance(.3)) { fcl::Convexd copy(*g); extremes(c, copy, p, "copy", 6); }
  if (r.chance(.3)) { auto l = mkConvex(p, false); extremes(c, *l, p, nm, 6); }
  c.observe(vh::mix(vh::hstr(p.kind.c_str()), (uint64_t)(1e9 * norm(p.v[0]))));
  // corruptions
  for (int k = 0; k < 2; ++k) {
    Poly q = p; int op = r.below(5); std::string how;
    if (op == 0) { q.f.erase(q.f.begin() + r.below(q.f.size())); how = "face dropped"; }
    else if (op == 1) { q.f.push_back(r.pick(q.f)); how = "face repeated"; }
    else if (op == 2) { q.v.push_back(q.v[0] * r.u()); how = "unused vertex"; if (r.chance(.5) && q.v.size() > 1) { std::swap(q.v.back(), q.v[0]); for (auto& f : q.f) for (int& i : f) if (i == 0) i = (int)q.v.size() - 1; } }
    else if (op == 3) { auto& f = q.f[r.below(q.f.size())]; int i = r.below(f.size()), n = r.below(q.v.size()); if (std::count(f.begin(), f.end(), n)) continue; f[i] = n; how = "index changed"; }
    else { auto& f = q.f[r.below(q.f.size())]; if (f.size() < 4) continue; f.erase(f.begin() + r.below(f.size())); how = "corner cut off a face"; }
    if (closedManifold(q)) continue;
    bool threw = false; c.phase("S04 %s", how.c_str());
    try { mkConvex(q, true); } catch (const std::exception&) { threw = true; }
    if (!threw) { c.violation("accepted|" + how, fmt("%s with %d vertices", q.kind.c_str(), (int)q.v.size())); continue; }
    try { auto g2 = mkConvex(q, false); extremes(c, *g2, q, "invalid mesh", 8); } catch (const std::exception& e) { c.violation("threw without validation|" + how, e.what()); }
    c.count("corrupt meshes"); c.count(how);
  }
}

// ---------------------------------------------------------------- S05
template <class S> static const char* sname(); template <> const char* sname<double>() { return "double"; } template <> const char* sname<float>() { return "float"; }
// splits a text into numbers and the text around them ("#" for each number)
static void lexNumbers(const std::string& s, std::string& skel, std::vector<double>& num, std::vector<std::string>& raw) {
  for (size_t i = 0; i < s.size();) {
    char ch = s[i]; bool id = i > 0 && (isalnum(s[i - 1]) || s[i - 1] == '_');
    if (!id && (isdigit(ch) || ((ch == '-' || ch == '.') && i + 1 < s.size() && (isdigit(s[i + 1]) || s[i + 1] == '.')))) { char* e; num.push_back(strtod(s.c_str() + i, &e)); size_t n = e - (s.c_str() + i); raw.push_back(s.substr(i, n)); skel += "#"; i += n; }
    else { if (!isspace((unsigned char)ch)) skel += ch; ++i; }
  }
}
static bool close(double printed, double val, int prec) { double a = std::fabs(val); if (a == 0) return printed == 0; if (prec > 17) prec = 17; return std::fabs(printed - val) <= .501 * std::pow(10., std::floor(std::log10(a)) + 1 - prec) + a * 2.3e-16; }
template <class S> static void repr(Ctx& c) {
  using namespace fcl; Rng& r = c.rng; Kind k = (Kind)r.below(NKIND); if (k == TRI) k = CONVEX; int prec = r.chance(.3) ? 20 : r.range(1, 20); std::string tn = sname<S>(); std::string txt; std::vector<double> want; std::string ty;
  auto mag = [&]() -> S { double u = r.u(); S x = (S)(u < .2 ? r.range(1, 20) : u < .3 ? std::pow(10., r.range(-6, 8)) : r.logu(1e-5, 1e6)); return x; };
  auto add = [&](S x) { want.push_back((double)x); };
  c.phase("S05 %s", kname(k));
  bool def = r.chance(.15); if (def) prec = 20;
#define REP(g) (def ? (g).representation() : (g).representation(prec))
  std::string skel;
  switch (k) {
    case SPHERE: { S a = mag(); Sphere<S> g(a); add(a); txt = REP(g); skel = "Sphere<" + tn + ">(#);"; break; }
    case BOX: { S a = mag(), b = mag(), d = mag(); Box<S> g(a, b, d); add(a); add(b); add(d); txt = REP(g); skel = "Box<" + tn + ">(#,#,#);"; break; }
    case ELLIPSOID: { S a = mag(), b = mag(), d = mag(); Ellipsoid<S> g(a, b, d); add(a); add(b); add(d); txt = REP(g); skel = "Ellipsoid<" + tn + ">(#,#,#);"; break; }
    case CAPSULE: { S a = mag(), b = mag(); Capsule<S> g(a, b); add(a); add(b); txt = REP(g); skel = "Capsule<" + tn + ">(#,#);"; break; }
    case CONE: { S a = mag(), b = mag(); Cone<S> g(a, b); add(a); add(b); txt = REP(g); skel = "Cone<" + tn + ">(#,#);"; break; }
    case CYLINDER: { S a = mag(), b = mag(); Cylinder<S> g(a, b); add(a); add(b); txt = REP(g); skel = "Cylinder<" + tn + ">(#,#);"; break; }
    case HALFSPACE: case PLANE: {
      V n = randUnit(r); S d = (S)((r.chance(.5) ? 1 : -1) * mag()); if (r.chance(.3)) { n = V(); n[r.below(3)] = r.chance(.5) ? 1 : -1; }
      if (k == PLANE) { Plane<S> g(fx::fv<S>(n), d); for (int i = 0; i < 3; ++i) add(g.n[i]); add(g.d); txt = REP(g); } else { Halfspace<S> g(fx::fv<S>(n), d); for (int i = 0; i < 3; ++i) add(g.n[i]); add(g.d); txt = REP(g); }
      skel = std::string(kname(k)) + "<" + tn + ">(#,#,#,#);"; break;
    }
    default: {
      Poly p = randPoly(r); bool thr = r.chance(.5); auto v = std::make_shared<std::vector<Vector3<S>>>(); for (auto& q : p.v) v->push_back(fx::fv<S>(q));
      auto f = std::make_shared<std::vector<int>>(); for (auto& t : p.f) { f->push_back(t.size()); for (int i : t) f->push_back(i); }
      Convex<S> g(v, (int)p.f.size(), f, thr); txt = REP(g);
      std::string V3 = "Vector3<" + tn + ">"; skel = "Convex<" + tn + ">(std::make_shared<std::vector<" + V3 + ">>(std::initializer_list<" + V3 + ">{";
      for (auto& q : *v) { skel += V3 + "(#,#,#),"; for (int i = 0; i < 3; ++i) add(q[i]); }
      skel += "}),#,std::make_shared<std::vector<int>>(std::initializer_list<int>{"; want.push_back(p.f.size()); for (int i : *f) { skel += "#,"; want.push_back(i); }
      skel += std::string("}),") + (thr ? "true" : "false") + ");";
    }
  }
  std::string got; std::vector<double> num; std::vector<std::string> raw; lexNumbers(txt, got, num, raw); std::string key = kname(k);
  if (got != skel) return c.violation("form|" + key, fmt("text \"%s\" does not construct a %s", txt.substr(0, 300).c_str(), key.c_str()));
  if (num.size() != want.size()) return c.violation("numbers|" + key, txt.substr(0, 300));
  int nf = 0;
  for (size_t i = 0; i < num.size(); ++i) {
    bool integer = k == CONVEX && want[i] == std::floor(want[i]) && raw[i].find_first_of(".e") == std::string::npos;
    bool ok = close(num[i], want[i], prec) || (want[i] == 0 && num[i] == 0) || (prec >= 17 && num[i] == want[i]);
    if (integer && raw[i].size() < 9 && num[i] == want[i]) ok = true;
    if (prec >= (sizeof(S) == 8 ? 17 : 9) && (S)num[i] != (S)want[i]) ok = false;
    if (!ok) return c.violation("value|" + key, fmt("precision %d: printed %s for %.17g", prec, raw[i].c_str(), want[i]));
    ++nf;
  }
  c.count("texts parsed"); c.count("numbers", nf); c.observe(vh::hstr(txt.c_str()));
  if (c.caseno < 3) c.sample(txt.substr(0, 120));
}
VH_PROP(S05) { if (c.rng.chance(.7)) repr<double>(c); else repr<float>(c); }
VH_MAIN

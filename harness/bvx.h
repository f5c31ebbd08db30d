// Bounding volumes seen from outside: membership and sampling through their public fields, and mesh generators.
#pragma once
#include "scene.h"
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/math/bv/utility.h"
namespace bvx {
using namespace ref;
typedef fcl::Vector3d E;
template <class B> struct Name;
#define BVNAME(T, N) template <> struct Name<T> { static const char* s() { return N; } };
BVNAME(fcl::AABB<double>, "AABB") BVNAME(fcl::OBB<double>, "OBB") BVNAME(fcl::RSS<double>, "RSS") BVNAME(fcl::OBBRSS<double>, "OBBRSS") BVNAME(fcl::kIOS<double>, "kIOS")
typedef fcl::KDOP<double, 16> K16; typedef fcl::KDOP<double, 18> K18; typedef fcl::KDOP<double, 24> K24;
BVNAME(K16, "KDOP16") BVNAME(K18, "KDOP18") BVNAME(K24, "KDOP24")
typedef fcl::AABB<double> AABB; typedef fcl::OBB<double> OBB; typedef fcl::RSS<double> RSS; typedef fcl::OBBRSS<double> OBBRSS; typedef fcl::kIOS<double> kIOS;
inline const char* tname(int t) { static const char* n[] = {"AABB", "OBB", "RSS", "OBBRSS", "kIOS", "KDOP16", "KDOP18", "KDOP24"}; return n[t]; }

inline V col(const fcl::Matrix3d& m, int i) { return V(m(0, i), m(1, i), m(2, i)); }
inline V fr(const E& e) { return V(e[0], e[1], e[2]); }
// how far outside the volume a point is; 0 inside. NaN-safe: anything not comparable counts as outside.
inline D outBox(const V& q, const V& ext) { D m = 0; for (int i = 0; i < 3; ++i) { D x = std::fabs(q[i]) - ext[i]; if (!(x <= m)) m = x; } return m; }
inline D out(const AABB& b, const V& p) { D m = 0; for (int i = 0; i < 3; ++i) { D x = std::max(b.min_[i] - p[i], p[i] - b.max_[i]); if (!(x <= m)) m = x; } return m; }
inline D out(const OBB& b, const V& p) { V d = p - fr(b.To); return outBox(V(dot(d, col(b.axis, 0)), dot(d, col(b.axis, 1)), dot(d, col(b.axis, 2))), fr(b.extent)); }
inline D out(const RSS& b, const V& p) {
  V d = p - fr(b.To), q(dot(d, col(b.axis, 0)), dot(d, col(b.axis, 1)), dot(d, col(b.axis, 2)));
  D x = std::max(0., std::min(q.x, b.l[0])), y = std::max(0., std::min(q.y, b.l[1])); D m = norm(q - V(x, y, 0)) - b.r; return m <= 0 ? 0 : m;
}
inline D out(const OBBRSS& b, const V& p) { D x = out(b.obb, p), y = out(b.rss, p); return !(x <= y) ? x : y; }
inline D out(const kIOS& b, const V& p) { D m = out(b.obb, p); for (unsigned i = 0; i < b.num_spheres; ++i) { D x = norm(p - fr(b.spheres[i].o)) - b.spheres[i].r; if (!(x <= m)) m = x; } return m; }
inline std::vector<V> kdirs(int n) {
  std::vector<V> d{V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 0), V(1, 0, 1), V(0, 1, 1), V(1, -1, 0), V(1, 0, -1)};
  if (n >= 18) d.push_back(V(0, 1, -1));
  if (n == 24) { d.push_back(V(1, 1, -1)); d.push_back(V(1, -1, 1)); d.push_back(V(-1, 1, 1)); }
  return d;
}
template <std::size_t N> inline D out(const fcl::KDOP<double, N>& b, const V& p) {
  static const std::vector<V> d = kdirs(N); D m = 0;
  for (size_t i = 0; i < N / 2; ++i) { D s = dot(d[i], p), x = std::max(b.dist(i) - s, s - b.dist(i + N / 2)); if (!(x <= m)) m = x; }
  return m;
}
template <class B> inline bool in(const B& b, const V& p, D tol) { return out(b, p) <= tol; }
inline bool selfContain(const AABB& b, const E& p) { return b.contain(p); }
inline bool selfContain(const OBB& b, const E& p) { return b.contain(p); }
inline bool selfContain(const RSS& b, const E& p) { return b.contain(p); }
inline bool selfContain(const OBBRSS& b, const E& p) { return b.contain(p); }
inline bool selfContain(const kIOS& b, const E& p) { return b.contain(p); }
template <std::size_t N> inline bool selfContain(const fcl::KDOP<double, N>& b, const E& p) { return b.inside(p); }

// --------------------------------------------------------------- meshes
struct Mesh { std::vector<V> v; std::vector<std::array<int, 3>> t; std::string kind; };
inline void addTri(Mesh& m, const V& a, const V& b, const V& c) { int o = m.v.size(); m.v.push_back(a); m.v.push_back(b); m.v.push_back(c); m.t.push_back({o, o + 1, o + 2}); }
inline Mesh boxMesh(const V& h) {
  Mesh m; m.kind = "box"; for (int i = 0; i < 8; ++i) m.v.push_back(V(i & 1 ? h.x : -h.x, i & 2 ? h.y : -h.y, i & 4 ? h.z : -h.z));
  int f[12][3] = {{0, 2, 3}, {0, 3, 1}, {4, 5, 7}, {4, 7, 6}, {0, 1, 5}, {0, 5, 4}, {2, 6, 7}, {2, 7, 3}, {0, 4, 6}, {0, 6, 2}, {1, 3, 7}, {1, 7, 5}};
  for (auto& x : f) m.t.push_back({x[0], x[1], x[2]}); return m;
}
// kind: 0 soup, 1 hull, 2 height field, 3 flat soup, 4 soup with degenerate and repeated triangles, 5 box, 6 strip
inline Mesh randMesh(Rng& r, int kind, int nmax, D size = 1.5) {
  Mesh m; int n = r.range(1, nmax);
  if (kind == 1) { Shape s = randConvex(r, size, r.range(4, std::max(4, nmax / 2 + 2))); m.v = s.pts; m.t = s.tris; m.kind = "hull"; return m; }
  if (kind == 5) return boxMesh(V(r.uni(.1, size), r.uni(.1, size), r.uni(.1, size)));
  if (kind == 2) {
    int a = r.range(1, std::max(1, (int)std::sqrt(nmax / 2.))), b = r.range(1, std::max(1, (int)std::sqrt(nmax / 2.))); D amp = r.chance(.3) ? 0 : r.u() * size * .4; m.kind = "height field";
    for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) m.v.push_back(V((2. * i / a - 1) * size, (2. * j / b - 1) * size, r.uni(-amp, amp)));
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { int p = i * (b + 1) + j; m.t.push_back({p, p + 1, p + b + 2}); m.t.push_back({p, p + b + 2, p + b + 1}); }
    return m;
  }
  if (kind == 6) { m.kind = "strip"; D z = 0; for (int i = 0; i < n + 2; ++i) m.v.push_back(V((i - n / 2.) * size / (n + 2) * 2, (i & 1 ? 1 : -1) * size * .2, z += r.uni(-.1, .1))); for (int i = 0; i < n; ++i) m.t.push_back({i, i + 1, i + 2}); return m; }
  m.kind = kind == 3 ? "flat soup" : kind == 4 ? "degenerate soup" : "soup";
  D s = r.logu(.1, 1) * size;
  for (int i = 0; i < n; ++i) {
    V c = randIn(r, size), a = c + randIn(r, s), b = c + randIn(r, s), d = c + randIn(r, s);
    if (kind == 4) { double u = r.u(); if (u < .15) d = a + (b - a) * r.uni(-1, 2); else if (u < .25) b = d = a; else if (u < .35) d = b; else if (u < .5 && !m.t.empty()) { auto& t = m.t[r.below(m.t.size())]; a = m.v[t[0]]; b = m.v[t[1]]; d = m.v[t[2]]; } else if (u < .6 && !m.t.empty()) { m.t.push_back(m.t[r.below(m.t.size())]); continue; } }
    if (kind == 3) a.z = b.z = d.z = 0;
    else if (norm(cross(b - a, d - a)) < 1e-4 && kind == 0) { --i; continue; }
    if (kind == 3 && norm(cross(b - a, d - a)) < 1e-4) { --i; continue; }
    addTri(m, a, b, d);
  }
  return m;
}
template <class B> std::shared_ptr<fcl::BVHModel<B>> build(Rng& r, const Mesh& m, bool randomWay = true) {
  auto g = std::make_shared<fcl::BVHModel<B>>(); using namespace fcl;
  if (randomWay) { int sm = r.below(4); if (sm) g->bv_splitter.reset(new detail::BVSplitter<B>(sm == 1 ? detail::SPLIT_METHOD_MEAN : sm == 2 ? detail::SPLIT_METHOD_MEDIAN : detail::SPLIT_METHOD_BV_CENTER)); }
  std::vector<E> v; for (auto& x : m.v) v.push_back(fx::fv<double>(x));
  int way = randomWay ? r.below(3) : 0;
  if (way == 2) g->beginModel(r.range(0, 4), r.range(0, 4)); else if (way) g->beginModel(m.t.size(), m.v.size()); else g->beginModel();
  if (way == 1) for (auto& t : m.t) g->addTriangle(v[t[0]], v[t[1]], v[t[2]]);
  else { std::vector<Triangle> t; for (auto& x : m.t) t.emplace_back(x[0], x[1], x[2]); g->addSubModel(v, t); }
  g->endModel(); return g;
}
inline std::shared_ptr<fcl::CollisionGeometryd> buildAny(Rng& r, const Mesh& m, int t) {
  switch (t) { case 0: return build<AABB>(r, m); case 1: return build<OBB>(r, m); case 2: return build<RSS>(r, m); case 3: return build<OBBRSS>(r, m); case 4: return build<kIOS>(r, m); case 5: return build<K16>(r, m); case 6: return build<K18>(r, m); default: return build<K24>(r, m); }
}
inline std::string mstr(const Mesh& m) { return vh::fmt("%s (%d triangles)", m.kind.c_str(), (int)m.t.size()); }
}  // namespace bvx

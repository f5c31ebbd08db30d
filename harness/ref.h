// Reference geometry, independent of FCL: convex shapes by support function, certified
// distance (duality gap), certified penetration depth, triangle/segment closed forms.
#pragma once
#include "vh.h"
#include <array>
#include <limits>

namespace ref {
using vh::Rng;
typedef double D;
struct V { D x = 0, y = 0, z = 0; V() {} V(D a, D b, D c) : x(a), y(b), z(c) {} D& operator[](int i) { return (&x)[i]; } D operator[](int i) const { return (&x)[i]; } };
inline V operator+(const V& a, const V& b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V operator-(const V& a, const V& b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V operator-(const V& a) { return V(-a.x, -a.y, -a.z); }
inline V operator*(const V& a, D s) { return V(a.x * s, a.y * s, a.z * s); }
inline V operator*(D s, const V& a) { return a * s; }
inline D dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(const V& a, const V& b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline D norm(const V& a) { return std::sqrt(dot(a, a)); }
inline V unit(const V& a) { D n = norm(a); return n > 0 ? a * (1 / n) : V(1, 0, 0); }

struct M { D m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; };
inline V operator*(const M& a, const V& v) { return V(a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z); }
inline V tmul(const M& a, const V& v) { return V(a.m[0][0] * v.x + a.m[1][0] * v.y + a.m[2][0] * v.z, a.m[0][1] * v.x + a.m[1][1] * v.y + a.m[2][1] * v.z, a.m[0][2] * v.x + a.m[1][2] * v.y + a.m[2][2] * v.z); }
inline M operator*(const M& a, const M& b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
inline M transpose(const M& a) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
inline M quat(D w, D x, D y, D z) {
  D n = std::sqrt(w * w + x * x + y * y + z * z); w /= n; x /= n; y /= n; z /= n;
  M r; r.m[0][0] = 1 - 2 * (y * y + z * z); r.m[0][1] = 2 * (x * y - w * z); r.m[0][2] = 2 * (x * z + w * y);
  r.m[1][0] = 2 * (x * y + w * z); r.m[1][1] = 1 - 2 * (x * x + z * z); r.m[1][2] = 2 * (y * z - w * x);
  r.m[2][0] = 2 * (x * z - w * y); r.m[2][1] = 2 * (y * z + w * x); r.m[2][2] = 1 - 2 * (x * x + y * y);
  return r;
}
inline M axisAngle(V a, D t) { a = unit(a); D s = std::sin(t / 2); return quat(std::cos(t / 2), a.x * s, a.y * s, a.z * s); }
struct T { M R; V t; V operator()(const V& p) const { return R * p + t; } V inv(const V& p) const { return tmul(R, p - t); } };
inline T operator*(const T& a, const T& b) { T r; r.R = a.R * b.R; r.t = a.R * b.t + a.t; return r; }
inline T inverse(const T& a) { T r; r.R = transpose(a.R); r.t = -(r.R * a.t); return r; }

inline V randUnit(Rng& r) { V v; do { v = V(r.normal(), r.normal(), r.normal()); } while (norm(v) < 1e-6); return unit(v); }
inline V randIn(Rng& r, D e) { return V(r.uni(-e, e), r.uni(-e, e), r.uni(-e, e)); }
// general, identity, axis-aligned quarter turns, near-identity
inline M randRot(Rng& r, int kind = -1) {
  if (kind < 0) { D u = r.u(); kind = u < 0.7 ? 0 : u < 0.8 ? 1 : u < 0.93 ? 2 : 3; }
  if (kind == 0) return quat(r.normal(), r.normal(), r.normal(), r.normal());
  if (kind == 1) return M();
  if (kind == 2) {
    static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
    int p = r.below(6); M m; for (auto& row : m.m) for (D& e : row) e = 0;
    int sg[3] = {r.chance(.5) ? 1 : -1, r.chance(.5) ? 1 : -1, 1};
    int par = (p < 3 ? 1 : -1); sg[2] = par * sg[0] * sg[1];
    for (int i = 0; i < 3; ++i) m.m[i][P[p][i]] = sg[i];
    return m;
  }
  return axisAngle(randUnit(r), r.logu(1e-9, 1e-2));
}
inline T randPose(Rng& r, D e, int kind = -1) { T t; t.R = randRot(r, kind); t.t = randIn(r, e); return t; }

enum Kind { SPHERE, BOX, ELLIPSOID, CAPSULE, CONE, CYLINDER, CONVEX, TRI, HALFSPACE, PLANE, NKIND };
inline const char* kname(int k) { static const char* n[] = {"Sphere", "Box", "Ellipsoid", "Capsule", "Cone", "Cylinder", "Convex", "Triangle", "Halfspace", "Plane"}; return n[k]; }

struct Shape {
  Kind k = SPHERE;
  V p;                   // box: full sides; ellipsoid: radii; sphere: x=r; capsule/cone/cylinder: x=r, y=length; half/plane: normal
  D d = 0;               // half/plane offset
  std::vector<V> pts;    // convex/triangle vertices
  std::vector<std::array<int, 3>> tris;  // convex: triangulated boundary, outward ccw
  bool bounded() const { return k != HALFSPACE && k != PLANE; }
  // support point in direction dir (any length), local frame, of the full shape
  V sup(const V& u) const { D r; V c = core(u, r); D n = norm(u); return (r > 0 && n > 0) ? c + u * (r / n) : c; }
  // support point of the core and the radius the core is inflated by
  V core(const V& u, D& rad) const {
    rad = 0;
    switch (k) {
      case SPHERE: rad = p.x; return V(0, 0, 0);
      case CAPSULE: rad = p.x; return V(0, 0, u.z >= 0 ? p.y / 2 : -p.y / 2);
      case BOX: return V(u.x >= 0 ? p.x / 2 : -p.x / 2, u.y >= 0 ? p.y / 2 : -p.y / 2, u.z >= 0 ? p.z / 2 : -p.z / 2);
      case ELLIPSOID: { V w(p.x * u.x, p.y * u.y, p.z * u.z); D n = norm(w); if (n < 1e-300) return V(p.x, 0, 0); return V(p.x * w.x / n, p.y * w.y / n, p.z * w.z / n); }
      case CYLINDER: { D n = std::hypot(u.x, u.y); D z = u.z >= 0 ? p.y / 2 : -p.y / 2; if (n < 1e-300) return V(p.x, 0, z); return V(p.x * u.x / n, p.x * u.y / n, z); }
      case CONE: { D n = std::hypot(u.x, u.y); V apex(0, 0, p.y / 2); V base = n < 1e-300 ? V(p.x, 0, -p.y / 2) : V(p.x * u.x / n, p.x * u.y / n, -p.y / 2); return dot(apex, u) >= dot(base, u) ? apex : base; }
      default: { const V* b = &pts[0]; D m = dot(*b, u); for (auto& q : pts) { D s = dot(q, u); if (s > m) { m = s; b = &q; } } return *b; }
    }
  }
  D radius() const {  // bounding radius about the local origin
    switch (k) {
      case SPHERE: return p.x; case CAPSULE: return p.x + p.y / 2; case BOX: return norm(p) / 2;
      case ELLIPSOID: return std::max(p.x, std::max(p.y, p.z)); case CYLINDER: case CONE: return std::hypot(p.x, p.y / 2);
      case HALFSPACE: case PLANE: return 1e30;
      default: { D m = 0; for (auto& q : pts) m = std::max(m, norm(q)); return m; }
    }
  }
  D minDim() const {
    switch (k) {
      case SPHERE: return p.x; case CAPSULE: return p.x; case BOX: return std::min(p.x, std::min(p.y, p.z)) / 2;
      case ELLIPSOID: return std::min(p.x, std::min(p.y, p.z)); case CYLINDER: case CONE: return std::min(p.x, p.y / 2);
      default: { return 0; }
    }
  }
  // > 0 outside, < 0 inside: not a metric distance, only the sign and the zero set are exact (local frame); bounded shapes
  D excess(const V& q) const {   // how far outside q is (0 if inside), metric up to the gap of dist()
    return 0;
  }
  std::string str() const {
    std::string s = vh::fmt("%s(%.17g,%.17g,%.17g)", kname(k), p.x, p.y, p.z);
    if (!bounded()) s += vh::fmt("d=%.17g", d);
    if (k == CONVEX || k == TRI) { s += "["; for (auto& q : pts) s += vh::fmt("(%.17g,%.17g,%.17g)", q.x, q.y, q.z); s += "]"; }
    return s;
  }
};
inline std::string str(const T& t) { std::string s = "R["; for (auto& r : t.R.m) for (D e : r) s += vh::fmt("%.17g,", e); return s + vh::fmt("]t(%.17g,%.17g,%.17g)", t.t.x, t.t.y, t.t.z); }
inline std::string str(const V& t) { return vh::fmt("(%.17g,%.17g,%.17g)", t.x, t.y, t.z); }

// ---- closest point of a simplex to the origin (brute force over faces; robust, slow is fine)
struct Bary { int n; int idx[4]; D w[4]; V p; D d2; };
inline bool affMin(const V* s, const int* id, int n, Bary& b) {
  b.n = n; for (int i = 0; i < n; ++i) b.idx[i] = id[i];
  if (n == 1) { b.w[0] = 1; b.p = s[id[0]]; b.d2 = dot(b.p, b.p); return true; }
  V o = s[id[0]];
  if (n == 2) { V e = s[id[1]] - o; D ee = dot(e, e); if (ee <= 0) return false; D t = -dot(o, e) / ee; if (t < 0 || t > 1) return false; b.w[0] = 1 - t; b.w[1] = t; b.p = o + e * t; b.d2 = dot(b.p, b.p); return true; }
  if (n == 3) {
    V e = s[id[1]] - o, f = s[id[2]] - o; V nn = cross(e, f); D n2 = dot(nn, nn); if (n2 <= 1e-28 * dot(e, e) * dot(f, f)) return false;
    // projection of the origin on the plane
    V q = -o; D u = dot(cross(q, f), nn) / n2, v = dot(cross(e, q), nn) / n2; D w = 1 - u - v;
    if (u < 0 || v < 0 || w < 0) return false;
    b.w[0] = w; b.w[1] = u; b.w[2] = v; b.p = nn * (dot(o, nn) / n2); b.d2 = dot(b.p, b.p); return true;
  }
  V e = s[id[1]] - o, f = s[id[2]] - o, g = s[id[3]] - o; D det = dot(e, cross(f, g));
  if (std::fabs(det) <= 1e-14 * norm(e) * norm(f) * norm(g)) return false;
  V q = -o; D u = dot(q, cross(f, g)) / det, v = dot(e, cross(q, g)) / det, w = dot(e, cross(f, q)) / det; D r = 1 - u - v - w;
  if (u < 0 || v < 0 || w < 0 || r < 0) return false;
  b.w[0] = r; b.w[1] = u; b.w[2] = v; b.w[3] = w; b.p = V(0, 0, 0); b.d2 = 0; return true;
}
inline Bary simplexMin(const V* s, int n) {
  Bary best; best.d2 = 1e300; best.n = 0;
  for (int m = 1; m < (1 << n); ++m) {
    int id[4], k = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) id[k++] = i;
    Bary b; if (affMin(s, id, k, b) && b.d2 < best.d2) best = b;
  }
  return best;
}

// ---- distance between two placed convex shapes with a certificate
struct Dist {
  bool overlap = false;   // cores+radii intersect (certified: origin in a simplex of the difference, or core distance < radii)
  D lo = 0, hi = 0;       // certified bounds of the distance between the full shapes (lo may be <0 -> see depth)
  V p1, p2;               // witnesses of hi on the full shapes (world)
  V n;                    // unit direction from 1 to 2 that proves lo
  D coreGapLo = 0; D rsum = 0; bool coreOverlap = false;
  int iters = 0;
};
inline Dist distance(const Shape& A, const T& ta, const Shape& B, const T& tb, int maxit = 300) {
  Dist r; V W[4], PA[4], PB[4]; int n = 0;
  D ra, rb; A.core(V(1, 0, 0), ra); B.core(V(1, 0, 0), rb); r.rsum = ra + rb;
  // Minkowski difference  A - B ; v = closest point to origin
  auto sup = [&](const V& u, V& a, V& b) { D q; a = ta(A.core(tmul(ta.R, u), q)); b = tb(B.core(tmul(tb.R, -u), q)); return a - b; };
  V a, b; V v = sup(ta.t - tb.t + V(1e-3, 2e-3, 3e-3), a, b); W[0] = v; PA[0] = a; PB[0] = b; n = 1;
  V pa = a, pb = b; D lo = -1e300; V bestn(1, 0, 0); bool over = false;
  D scale = norm(v) + 1e-30;
  for (int it = 0; it < maxit; ++it) {
    r.iters = it; D nv = norm(v);
    if (nv < 1e-14 * scale) { over = true; break; }
    V w = sup(-v, a, b); D l = dot(v, w) / nv;   // all of A-B satisfies dot(x, v/|v|) >= l
    if (l > lo) { lo = l; bestn = v * (-1 / nv); }
    if (nv - lo <= 1e-13 * scale || nv - l <= 1e-14 * scale) break;
    bool dup = false; for (int i = 0; i < n; ++i) if (norm(W[i] - w) <= 1e-15 * scale) dup = true;
    if (dup) break;
    if (n == 4) { break; }
    W[n] = w; PA[n] = a; PB[n] = b; ++n;
    Bary s = simplexMin(W, n);
    if (s.n == 4) { over = true; break; }
    D nn = std::sqrt(s.d2); if (nn >= nv * (1 - 1e-16)) { // no progress
      break; }
    V W2[4], A2[4], B2[4]; pa = V(); pb = V();
    for (int i = 0; i < s.n; ++i) { W2[i] = W[s.idx[i]]; A2[i] = PA[s.idx[i]]; B2[i] = PB[s.idx[i]]; pa = pa + A2[i] * s.w[i]; pb = pb + B2[i] * s.w[i]; }
    n = s.n; for (int i = 0; i < n; ++i) { W[i] = W2[i]; PA[i] = A2[i]; PB[i] = B2[i]; }
    v = pa - pb;
  }
  r.coreOverlap = over;
  D hi = over ? 0 : norm(v); if (lo < 0) lo = over ? 0 : std::max(lo, (D)-1e300);
  r.coreGapLo = std::max<D>(lo, 0);
  r.n = bestn;
  r.hi = hi - r.rsum; r.lo = (over ? -r.rsum : std::max<D>(lo, 0) - r.rsum);
  if (over) { r.hi = -r.rsum; r.lo = -1e300; }
  r.overlap = over || r.hi < 0;
  V dir = hi > 0 ? unit(pb - pa) : bestn;
  r.p1 = pa + dir * ra; r.p2 = pb - dir * rb;
  return r;
}

// distance of a point to a placed convex shape (>=0; 0 inside)
inline D pointOut(const V& q, const Shape& A, const T& ta) {
  if (A.k == HALFSPACE) { V l = ta.inv(q); return std::max<D>(0, dot(A.p, l) - A.d); }
  if (A.k == PLANE) { V l = ta.inv(q); return std::fabs(dot(A.p, l) - A.d); }
  Shape pt; pt.k = TRI; pt.pts.push_back(V()); T tp; tp.t = q;
  Dist d = distance(A, ta, pt, tp); return std::max<D>(0, d.overlap ? 0 : d.hi);
}
// how deep a point lies inside a convex shape (>=0; 0 if outside/boundary): upper estimate by support sampling is not
// used; exact closed forms only
inline D pointIn(const V& q, const Shape& A, const T& ta) {
  V l = ta.inv(q);
  switch (A.k) {
    case SPHERE: return std::max<D>(0, A.p.x - norm(l));
    case BOX: { D m = 1e300; for (int i = 0; i < 3; ++i) m = std::min(m, A.p[i] / 2 - std::fabs(l[i])); return std::max<D>(0, m); }
    case CAPSULE: { D z = std::max(-A.p.y / 2, std::min(A.p.y / 2, l.z)); return std::max<D>(0, A.p.x - norm(l - V(0, 0, z))); }
    case CYLINDER: return std::max<D>(0, std::min(A.p.x - std::hypot(l.x, l.y), A.p.y / 2 - std::fabs(l.z)));
    case CONE: { D h = A.p.y, R = A.p.x; D c = h / std::hypot(h, R); D rho = std::hypot(l.x, l.y); D side = (R * (h / 2 - l.z) / h - rho) * c; return std::max<D>(0, std::min(side, l.z + h / 2)); }
    case ELLIPSOID: { // lower estimate: min radius scaled
      D f = std::sqrt(l.x * l.x / A.p.x / A.p.x + l.y * l.y / A.p.y / A.p.y + l.z * l.z / A.p.z / A.p.z); return std::max<D>(0, (1 - f) * std::min(A.p.x, std::min(A.p.y, A.p.z))); }
    case CONVEX: { D m = 1e300; for (auto& t : A.tris) { V n = unit(cross(A.pts[t[1]] - A.pts[t[0]], A.pts[t[2]] - A.pts[t[0]])); m = std::min(m, -dot(n, l - A.pts[t[0]])); } return std::max<D>(0, m); }
    case HALFSPACE: return std::max<D>(0, A.d - dot(A.p, l));
    default: return 0;
  }
}

// ---- penetration depth: min over unit u of h(u), h = support function of A - B (origin inside).
// Returns certified lower bound (inscribed polytope) and upper bound (explored directions).
struct Depth { bool ok = false; D lo = 0, hi = 0; V n; int faces = 0; };
inline Depth depth(const Shape& A, const T& ta, const Shape& B, const T& tb, D tol, int maxit = 600) {
  Depth r; r.lo = 0; r.hi = 1e300;
  auto sup = [&](const V& u) { return ta(A.sup(tmul(ta.R, u))) - tb(B.sup(tmul(tb.R, -u))); };
  std::vector<V> P; struct F { int a, b, c; V n; D d; bool alive; };
  std::vector<F> fs; bool bad = false;
  auto probe = [&](const V& u) { V w = sup(u); D h = dot(w, u); if (h < r.hi) { r.hi = h; r.n = u; } return w; };
  // initial polytope: octahedral supports plus some more, then an incremental hull
  std::vector<V> init; V dirs[14]; int nd = 0;
  for (int s = -1; s <= 1; s += 2) { dirs[nd++] = V(s, 0, 0); dirs[nd++] = V(0, s, 0); dirs[nd++] = V(0, 0, s); }
  for (int x = -1; x <= 1; x += 2) for (int y = -1; y <= 1; y += 2) for (int z = -1; z <= 1; z += 2) dirs[nd++] = unit(V(x, y, z));
  for (int i = 0; i < nd; ++i) init.push_back(probe(dirs[i]));
  // first tetrahedron: spread points
  int i0 = 0, i1 = -1, i2 = -1, i3 = -1; D m = 0; D sc = 0;
  for (auto& q : init) sc = std::max(sc, norm(q));
  for (int i = 0; i < nd; ++i) if (norm(init[i] - init[i0]) > m) { m = norm(init[i] - init[i0]); i1 = i; }
  if (i1 < 0 || m < 1e-9) return r; m = 0;
  for (int i = 0; i < nd; ++i) { D q = norm(cross(init[i] - init[i0], init[i1] - init[i0])); if (q > m) { m = q; i2 = i; } }
  if (i2 < 0 || m < 1e-12 * sc * sc) return r; m = 0;
  V nn = cross(init[i1] - init[i0], init[i2] - init[i0]);
  for (int i = 0; i < nd; ++i) { D q = std::fabs(dot(nn, init[i] - init[i0])); if (q > m) { m = q; i3 = i; } }
  if (i3 < 0 || m < 1e-12 * sc * sc * sc) return r;
  P = {init[i0], init[i1], init[i2], init[i3]};
  V ctr = (P[0] + P[1] + P[2] + P[3]) * 0.25;
  auto mk = [&](int a, int b, int c) { F f; f.a = a; f.b = b; f.c = c; V n = cross(P[b] - P[a], P[c] - P[a]); D l = norm(n); if (l < 1e-15 * sc * sc) { bad = true; } f.n = n * (1 / (l > 0 ? l : 1)); f.d = dot(f.n, P[a]); f.alive = true; return f; };
  auto mkOut = [&](int a, int b, int c) { F f = mk(a, b, c); if (dot(f.n, ctr) > f.d) { std::swap(f.b, f.c); f.n = -f.n; f.d = -f.d; } return f; };
  fs = {mkOut(0, 1, 2), mkOut(0, 1, 3), mkOut(0, 2, 3), mkOut(1, 2, 3)};
  auto addPoint = [&](const V& w) -> bool {
    D eps = 1e-13 * sc; std::vector<int> vis; std::map<std::pair<int, int>, int> ed;
    for (int i = 0; i < (int)fs.size(); ++i) if (fs[i].alive && dot(fs[i].n, w) - fs[i].d > eps) vis.push_back(i);
    if (vis.empty()) return false;
    for (int i : vis) { F& f = fs[i]; int e[3][2] = {{f.a, f.b}, {f.b, f.c}, {f.c, f.a}}; for (auto& q : e) ed[{q[0], q[1]}]++; }
    int id = P.size(); P.push_back(w);
    std::vector<F> add;
    for (auto& kv : ed) if (!ed.count({kv.first.second, kv.first.first})) add.push_back(mk(kv.first.first, kv.first.second, id));
    for (int i : vis) fs[i].alive = false;
    for (auto& f : add) fs.push_back(f);
    return true;
  };
  for (auto& q : init) addPoint(q);
  for (int it = 0; it < maxit && !bad; ++it) {
    int best = -1; D bd = 1e300;
    for (int i = 0; i < (int)fs.size(); ++i) if (fs[i].alive && fs[i].d < bd) { bd = fs[i].d; best = i; }
    if (best < 0) return r;
    r.lo = bd; r.faces = fs.size();
    if (r.hi - bd <= tol) { r.ok = true; return r; }
    V w = probe(fs[best].n);
    if (!addPoint(w)) {  // face is on the hull: bd is exact up to eps
      if (r.hi - bd <= tol) { r.ok = true; } else { fs[best].alive = fs[best].alive; r.ok = false; }
      return r;
    }
    if ((int)fs.size() > 6000) { std::vector<F> g; for (auto& f : fs) if (f.alive) g.push_back(f); fs.swap(g); }
  }
  r.ok = !bad && r.hi - r.lo <= tol;
  return r;
}

// support-plane based lower bound on separation of bounded shape and half-space / plane (exact)
inline void extentAlong(const Shape& A, const T& ta, const V& n, D& mn, D& mx) {
  mx = dot(ta(A.sup(tmul(ta.R, n))), n); mn = dot(ta(A.sup(tmul(ta.R, -n))), n);
}

// ---- segments and triangles
inline D segSeg(const V& p1, const V& q1, const V& p2, const V& q2, V& c1, V& c2) {
  V d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; D a = dot(d1, d1), e = dot(d2, d2), f = dot(d2, r); D s, t;
  if (a <= 1e-300 && e <= 1e-300) { s = t = 0; }
  else if (a <= 1e-300) { s = 0; t = std::min<D>(1, std::max<D>(0, f / e)); }
  else {
    D c = dot(d1, r);
    if (e <= 1e-300) { t = 0; s = std::min<D>(1, std::max<D>(0, -c / a)); }
    else {
      D b = dot(d1, d2), den = a * e - b * b;
      s = den > 1e-14 * a * e ? std::min<D>(1, std::max<D>(0, (b * f - c * e) / den)) : 0;
      t = (b * s + f) / e;
      if (t < 0) { t = 0; s = std::min<D>(1, std::max<D>(0, -c / a)); } else if (t > 1) { t = 1; s = std::min<D>(1, std::max<D>(0, (b - c) / a)); }
    }
  }
  c1 = p1 + d1 * s; c2 = p2 + d2 * t;
  D best = norm(c1 - c2);
  // guard near-parallel ill-conditioning by endpoint candidates
  auto cand = [&](const V& x, const V& y) { D d = norm(x - y); if (d < best) { best = d; c1 = x; c2 = y; } };
  auto proj = [&](const V& x, const V& p, const V& d, D dd) { if (dd <= 1e-300) return p; D u = std::min<D>(1, std::max<D>(0, dot(x - p, d) / dd)); return p + d * u; };
  cand(p1, proj(p1, p2, d2, e)); cand(q1, proj(q1, p2, d2, e)); cand(proj(p2, p1, d1, a), p2); cand(proj(q2, p1, d1, a), q2);
  return best;
}
inline V closestOnTri(const V& p, const V& a, const V& b, const V& c) {
  V s[3] = {a - p, b - p, c - p}; Bary r = simplexMin(s, 3); return r.p + p;
}
// does segment pq cross the interior of triangle abc; margin>0 shrinks / <0 grows
inline bool segTri(const V& p, const V& q, const V& a, const V& b, const V& c, V& x) {
  V n = cross(b - a, c - a); D n2 = dot(n, n); if (n2 <= 0) return false; D dp = dot(n, p - a), dq = dot(n, q - a);
  if ((dp > 0) == (dq > 0) && dp != 0 && dq != 0) return false; if (dp == dq) return false;
  D t = dp / (dp - dq); x = p + (q - p) * t; V r = x - a; D u = dot(cross(r, c - a), n) / n2, v = dot(cross(b - a, r), n) / n2;
  return u >= 0 && v >= 0 && u + v <= 1;
}
inline D triTri(const V* a, const V* b, V& pa, V& pb) {
  D best = 1e300; V x, y;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D d = segSeg(a[i], a[(i + 1) % 3], b[j], b[(j + 1) % 3], x, y); if (d < best) { best = d; pa = x; pb = y; } }
  for (int i = 0; i < 3; ++i) { x = closestOnTri(a[i], b[0], b[1], b[2]); D d = norm(x - a[i]); if (d < best) { best = d; pa = a[i]; pb = x; } }
  for (int i = 0; i < 3; ++i) { x = closestOnTri(b[i], a[0], a[1], a[2]); D d = norm(x - b[i]); if (d < best) { best = d; pa = x; pb = b[i]; } }
  for (int i = 0; i < 3; ++i) { if (segTri(a[i], a[(i + 1) % 3], b[0], b[1], b[2], x)) { pa = pb = x; return 0; } if (segTri(b[i], b[(i + 1) % 3], a[0], a[1], a[2], x)) { pa = pb = x; return 0; } }
  return best;
}
// separation of two triangles by the best axis among face normals and edge crosses (coplanar handled by in-plane normals);
// >0: certified gap along an axis; <0: overlap amount along the worst axis (how much one must move at least)
inline D triSAT(const V* a, const V* b) {
  V ax[64]; int n = 0; V na = cross(a[1] - a[0], a[2] - a[0]), nb = cross(b[1] - b[0], b[2] - b[0]);
  ax[n++] = na; ax[n++] = nb;
  for (int i = 0; i < 3; ++i) { V e = a[(i + 1) % 3] - a[i]; ax[n++] = cross(na, e); V f = b[(i + 1) % 3] - b[i]; ax[n++] = cross(nb, f); for (int j = 0; j < 3; ++j) ax[n++] = cross(e, b[(j + 1) % 3] - b[j]); }
  D best = -1e300;
  for (int k = 0; k < n; ++k) {
    D l = norm(ax[k]); if (l < 1e-12) continue; V u = ax[k] * (1 / l);
    D amn = 1e300, amx = -1e300, bmn = 1e300, bmx = -1e300;
    for (int i = 0; i < 3; ++i) { D s = dot(a[i], u); amn = std::min(amn, s); amx = std::max(amx, s); s = dot(b[i], u); bmn = std::min(bmn, s); bmx = std::max(bmx, s); }
    best = std::max(best, std::max(amn - bmx, bmn - amx));
  }
  return best;
}

// ---- random convex polytope with a triangulated boundary (incremental hull of random points)
inline bool hull(const std::vector<V>& in, std::vector<V>& pts, std::vector<std::array<int, 3>>& tris) {
  int n = in.size(); if (n < 4) return false;
  struct F { int a, b, c; V n; D d; bool alive; }; std::vector<F> fs;
  D sc = 0; for (auto& q : in) sc = std::max(sc, norm(q));
  int i1 = 1, i2 = 2, i3 = 3; D vol = std::fabs(dot(in[i1] - in[0], cross(in[i2] - in[0], in[i3] - in[0]))); 
  for (int t = 0; t < n && vol < 1e-3 * sc * sc * sc; ++t) for (int u = 1; u < n; ++u) { D q = std::fabs(dot(in[1] - in[0], cross(in[t] - in[0], in[u] - in[0]))); if (t != u && t > 0 && t != 1 && u != 1 && q > vol) { vol = q; i1 = 1; i2 = t; i3 = u; } }
  if (vol < 1e-6 * sc * sc * sc) return false;
  V ctr = (in[0] + in[i1] + in[i2] + in[i3]) * 0.25; bool bad = false;
  auto mk = [&](int a, int b, int c) { F f; f.a = a; f.b = b; f.c = c; V q = cross(in[b] - in[a], in[c] - in[a]); D l = norm(q); if (l < 1e-9 * sc * sc) bad = true; f.n = q * (1 / (l > 0 ? l : 1)); f.d = dot(f.n, in[a]); f.alive = true; return f; };
  auto mo = [&](int a, int b, int c) { F f = mk(a, b, c); if (dot(f.n, ctr) > f.d) { std::swap(f.b, f.c); f.n = -f.n; f.d = -f.d; } return f; };
  fs = {mo(0, i1, i2), mo(0, i1, i3), mo(0, i2, i3), mo(i1, i2, i3)};
  for (int p = 0; p < n; ++p) {
    if (p == 0 || p == i1 || p == i2 || p == i3) continue;
    std::map<std::pair<int, int>, int> ed; bool any = false;
    for (auto& f : fs) if (f.alive && dot(f.n, in[p]) - f.d > 1e-9 * sc) { any = true; f.alive = false; ed[{f.a, f.b}]++; ed[{f.b, f.c}]++; ed[{f.c, f.a}]++; }
    if (!any) continue;
    for (auto& kv : ed) if (!ed.count({kv.first.second, kv.first.first})) fs.push_back(mk(kv.first.first, kv.first.second, p));
  }
  if (bad) return false;
  std::map<int, int> id; pts.clear(); tris.clear();
  auto g = [&](int i) { auto it = id.find(i); if (it != id.end()) return it->second; int k = pts.size(); id[i] = k; pts.push_back(in[i]); return k; };
  for (auto& f : fs) if (f.alive) { int a = g(f.a), b = g(f.b), c = g(f.c); tris.push_back({{a, b, c}}); }
  // closed 2-manifold sanity
  return (int)tris.size() == 2 * (int)pts.size() - 4;
}
inline Shape randConvex(Rng& r, D size, int n = 0) {
  Shape s; s.k = CONVEX;
  for (;;) {
    int m = n ? n : r.range(4, 30); std::vector<V> in; V st(r.uni(.4, 1), r.uni(.4, 1), r.uni(.4, 1));
    for (int i = 0; i < m; ++i) { V u = randUnit(r); D q = r.chance(.7) ? 1 : r.uni(.3, 1); in.push_back(V(u.x * st.x, u.y * st.y, u.z * st.z) * (size * q)); }
    if (!hull(in, s.pts, s.tris)) continue;
    // centre near the origin so that the origin is interior (FCL wants an interior point as origin-relative centre)
    V c; for (auto& q : s.pts) c = c + q; c = c * (1.0 / s.pts.size()); for (auto& q : s.pts) q = q - c;
    D vol = 0; for (auto& t : s.tris) vol += dot(s.pts[t[0]], cross(s.pts[t[1]], s.pts[t[2]])) / 6;
    if (vol > 0.05 * size * size * size * st.x * st.y * st.z) return s;
  }
}
inline Shape randShape(Rng& r, Kind k, D lo, D hi) {
  Shape s; s.k = k;
  auto L = [&] { return r.logu(lo, hi); };
  switch (k) {
    case SPHERE: s.p = V(L() / 2, 0, 0); break;
    case BOX: s.p = V(L(), L(), L()); if (r.chance(.2)) s.p.y = s.p.x; if (r.chance(.1)) s.p.z = s.p.y = s.p.x; break;
    case ELLIPSOID: s.p = V(L() / 2, L() / 2, L() / 2); break;
    case CAPSULE: case CONE: case CYLINDER: s.p = V(L() / 2, L(), 0); break;
    case CONVEX: s = randConvex(r, L() / 2 * 1.3); break;
    case TRI: for (;;) { s.pts.clear(); D q = L(); for (int i = 0; i < 3; ++i) s.pts.push_back(randIn(r, q / 2)); if (norm(cross(s.pts[1] - s.pts[0], s.pts[2] - s.pts[0])) > .05 * q * q) break; } break;
    default: s.p = r.chance(.3) ? V(0, 0, 1) : randUnit(r); s.d = r.uni(-hi, hi); break;
  }
  return s;
}
}  // namespace ref

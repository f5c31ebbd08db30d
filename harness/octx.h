// Octrees, meshes and shapes as interchangeable sides of a query: generators and a reference view of their primitives.
#pragma once
#include "bvx.h"
#include <set>
#include <thread>
#include <iostream>
#include "fcl/geometry/octree/octree.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace fx; using namespace bvx;
typedef fcl::OcTree<double> FOct; typedef fcl::CollisionGeometryd CG;
struct Quiet { std::ios_base::iostate s; Quiet() : s(std::cerr.rdstate()) { std::cerr.setstate(std::ios_base::failbit); } ~Quiet() { std::cerr.clear(s); } };

struct Cell { V c; double size; float lo; intptr_t id; const octomap::OcTreeNode* node; octomap::OcTreeKey key; unsigned depth; };
struct Oct {
  std::shared_ptr<octomap::OcTree> t; std::shared_ptr<FOct> g; std::vector<Cell> leaves; double occ = 0, fre = 0, res = 0; bool far = false; std::string how;
  bool occupied(const Cell& c) const { return c.lo >= occ; }
  bool isFree(const Cell& c) const { return !occupied(c) && c.lo <= fre; }
  void list() {
    leaves.clear(); const octomap::OcTreeNode* root = t->getRoot(); if (!root) return;
    for (auto it = t->begin_leafs(), e = t->end_leafs(); it != e; ++it) leaves.push_back({V(it.getX(), it.getY(), it.getZ()), it.getSize(), it->getLogOdds(), &*it - root, &*it, it.getKey(), it.getDepth()});
  }
  std::string str() const { return vh::fmt("octree(res %.4g, %d leaves, occupied from log-odds %.3g, free to %.3g%s%s)", res, (int)leaves.size(), occ, fre, far ? ", far nodes" : "", how.c_str()); }
};
// a log-odds value clear of the thresholds
static float value(Rng& r, const Oct& o) { for (;;) { double v = r.chance(.6) ? r.uni(o.occ, 3.4) : r.uni(-1.9, 3.4); if (std::fabs(v - o.occ) > .01 && std::fabs(v - o.fre) > .01) return (float)v; } }
static void fill(Rng& r, Oct& o, int n, double span) {
  V centre = randIn(r, span); float last = value(r, o);
  for (int i = 0; i < n; ++i) {
    if (r.chance(.3)) centre = randIn(r, span);
    if (r.chance(.5)) last = value(r, o);
    octomap::OcTreeKey k;
    if (r.chance(.2)) {            // a block of equal cells, which octomap merges
      if (!o.t->coordToKeyChecked(centre.x, centre.y, centre.z, k)) continue;
      for (int j = 0; j < 8; ++j) { octomap::OcTreeKey q; for (int d = 0; d < 3; ++d) q[d] = (k[d] & ~1) + ((j >> d) & 1); o.t->setNodeValue(q, last); }
    } else {
      V p = centre + randIn(r, o.res * (r.chance(.7) ? 1.5 : 4));
      if (o.t->coordToKeyChecked(p.x, p.y, p.z, k)) o.t->setNodeValue(k, last);
    }
  }
}
static Oct randOct(Rng& r, int nmax, double span, bool thresholds = true) {
  Oct o; o.res = r.chance(.1) ? r.pick(std::vector<double>{.1, .25, .5}) : r.logu(.06, .5); o.t = std::make_shared<octomap::OcTree>(o.res);
  if (thresholds && r.chance(.5)) { if (r.chance(.8)) o.occ = r.uni(-1, 1.5); if (r.chance(.8)) o.fre = r.uni(-1.5, 1); if (r.chance(.6) && o.fre > o.occ) std::swap(o.fre, o.occ); }
  int n = r.range(1, nmax);
  if (r.chance(.03)) o.how = ", empty";
  else if (r.chance(.25)) {            // the map grown from two threads: its nodes live far apart in memory
    o.far = true; fill(r, o, 1 + n / 2, span); std::thread th([&] { fill(r, o, 1 + n / 2, span); }); th.join();
  } else fill(r, o, n, span);
  if (r.chance(.15)) { o.t->expand(); o.how = ", expanded"; } else if (r.chance(.1)) { o.t->prune(); o.how = ", pruned"; }
  o.g = std::make_shared<FOct>(std::shared_ptr<const octomap::OcTree>(o.t));
  if (o.occ != 0) { o.g->setOccupancyThres(octomap::probability(o.occ)); }
  if (o.fre != 0) o.g->setFreeThres(octomap::probability(o.fre));
  o.g->computeLocalAABB(); o.list(); return o;
}

struct Prim { Shape s; T tf; V c; double rad; intptr_t id; int ref; };
struct Side { std::vector<Prim> p; std::shared_ptr<CG> g; T tf; std::string name, info; Oct oct; Shape shape; Mesh mesh; int kind; };  // kind 0 shape 1 mesh 2 octree 3 unbounded
static Shape boxShape(const V& full) { Shape s; s.k = BOX; s.p = full; return s; }
static Side octSide(Rng& r, const Oct& o, const T& tf) {
  Side s; s.kind = 2; s.oct = o; s.g = o.g; s.tf = tf; s.name = "OcTree"; s.info = o.str() + ref::str(tf);
  int i = 0; for (auto& c : o.leaves) { if (o.occupied(c)) { T t; t.R = tf.R; t.t = tf(c.c); s.p.push_back({boxShape(V(c.size, c.size, c.size)), t, t.t, c.size * std::sqrt(3.) / 2, c.id, i}); } ++i; }
  return s;
}
static Side meshSide(Rng& r, const Mesh& m, int type, const T& tf) {
  Side s; s.kind = 1; s.mesh = m; s.tf = tf; s.g = buildAny(r, m, type); s.name = std::string("BVHModel<") + tname(type) + ">"; s.info = s.name + mstr(m) + ref::str(tf); s.g->computeLocalAABB();
  for (size_t i = 0; i < m.t.size(); ++i) { Shape t; t.k = TRI; V c; for (int k = 0; k < 3; ++k) { t.pts.push_back(tf(m.v[m.t[i][k]])); c = c + t.pts[k] * (1. / 3); } double rad = 0; for (auto& q : t.pts) rad = std::max(rad, norm(q - c)); s.p.push_back({t, T(), c, rad, (intptr_t)i, (int)i}); }
  return s;
}
static Side shapeSide(const Shape& sh, const T& tf) {
  Side s; s.kind = sh.bounded() ? 0 : 3; s.shape = sh; s.tf = tf; s.g = fg<double>(sh); s.name = kname(sh.k); s.info = sh.str() + ref::str(tf); s.g->computeLocalAABB();
  s.p.push_back({sh, tf, tf.t, sh.radius(), -1, 0}); return s;
}
static Mesh goodMesh(Rng& r, int nmax, double size) { static const int kinds[] = {0, 1, 2, 5, 6}; for (;;) { Mesh m = randMesh(r, kinds[r.below(5)], nmax, size); bool ok = true; for (auto& t : m.t) { V n = cross(m.v[t[1]] - m.v[t[0]], m.v[t[2]] - m.v[t[0]]); double l = std::max(norm(m.v[t[1]] - m.v[t[0]]), std::max(norm(m.v[t[2]] - m.v[t[0]]), norm(m.v[t[2]] - m.v[t[1]]))); if (norm(n) < .02 * l * l || l < .05) ok = false; } if (ok) return m; } }
static Side partner(Rng& r, const Side& o, bool unbounded) {
  V at = o.tf(o.oct.leaves.empty() ? V() : o.oct.leaves[r.below(o.oct.leaves.size())].c); T tf = randPose(r, 0); if (r.chance(.2)) tf.R = o.tf.R;
  int k = r.below(unbounded ? 10 : 9); double away = r.chance(.3) ? r.uni(.8, 2.5) : r.u();
  if (k < 4) { Shape s = randShape(r, scene::randKind(r), .1, 1.2); tf.t = at + randUnit(r) * (away * (s.radius() + o.oct.res)); return shapeSide(s, tf); }
  if (k < 7) { Mesh m = goodMesh(r, r.chance(.2) ? 60 : 14, r.uni(.2, 1.2)); V v = m.v[r.below(m.v.size())]; tf.t = at - tf.R * v + randUnit(r) * (away * o.oct.res * 2); return meshSide(r, m, r.below(8), tf); }
  if (k < 9) { Oct q = randOct(r, r.chance(.2) ? 30 : 8, r.uni(.2, 1.5)); V v = q.leaves.empty() ? V() : q.leaves[r.below(q.leaves.size())].c; tf.t = at - tf.R * v + randUnit(r) * (away * (o.oct.res + q.res)); return octSide(r, q, tf); }
  Shape s = randShape(r, r.chance(.5) ? HALFSPACE : PLANE, .1, 1.2); V n = tf.R * s.p; tf.t = at + randIn(r, .5) - n * (s.d - r.uni(-1, 1) * o.oct.res * 2); return shapeSide(s, tf);
}
static Side randOctSide(Rng& r, int nmax, double span) { for (;;) { Oct o = randOct(r, nmax, span); T tf = r.chance(.1) ? T() : randPose(r, 2); Side s = octSide(r, o, tf); return s; } }

// 1 certainly meet (by more than the margin), -1 certainly apart, 0 undecided
static int judge(const Prim& a, const Prim& b, double m) {
  if (!b.s.bounded()) {
    V n = b.tf.R * b.s.p; double d = b.s.d + dot(n, b.tf.t), mn, mx; extentAlong(a.s, a.tf, n, mn, mx);
    if (b.s.k == HALFSPACE) return mn < d - m ? 1 : mn > d + m ? -1 : 0;
    return mn < d - m && mx > d + m ? 1 : mn > d + m || mx < d - m ? -1 : 0;
  }
  if (norm(a.c - b.c) > a.rad + b.rad + m) return -1;
  Dist d = distance(a.s, a.tf, b.s, b.tf); if (!d.overlap) return d.lo > m ? -1 : 0;
  Shape s = a.s; s.p = s.p - V(2 * m, 2 * m, 2 * m); if (s.p.x <= 0) return 0;
  return distance(s, a.tf, b.s, b.tf).overlap ? 1 : 0;
}
static inline const char* sv(int s) { return s ? "INDEP" : "LIBCCD"; }

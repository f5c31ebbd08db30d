// Internal building blocks users rely on: interval tree, box hierarchies, hash tables, segment/triangle primitives,
// polynomial roots, random samplers.
#include "scene.h"
#include <set>
#include <deque>
#include <complex>
#include <sys/wait.h>
#include "fcl/broadphase/detail/interval_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#include "fcl/broadphase/detail/simple_hash_table.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/detail/spatial_hash.h"
#include "fcl/math/detail/project.h"
#include "fcl/math/detail/polysolver.h"
#include "fcl/math/rng.h"
#include "fcl/math/sampler/sampler_r.h"
#include "fcl/math/sampler/sampler_se2.h"
#include "fcl/math/sampler/sampler_se2_disk.h"
#include "fcl/math/sampler/sampler_se3_euler.h"
#include "fcl/math/sampler/sampler_se3_euler_ball.h"
#include "fcl/math/sampler/sampler_se3_quat.h"
#include "fcl/math/sampler/sampler_se3_quat_ball.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule.h"
#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
using namespace fx;
typedef fcl::AABB<double> AB;
typedef fcl::Vector3d E;

// ---------------------------------------------------------------- I01
VH_PROP(I01) {
  auto& r = c.rng;
  typedef fcl::detail::SimpleInterval<double> Iv;
  std::vector<std::unique_ptr<Iv>> pool; std::map<Iv*, fcl::detail::IntervalTreeNode<double>*> in; vh::Hash hist;
  fcl::detail::IntervalTree<double> t;
  int style = r.below(5), nops = r.range(5, r.chance(.1) ? 400 : 80); double span = r.logu(1, 100), pdel = r.uni(.1, .6);
  auto val = [&] { return style == 0 ? (double)r.range(-3, 6) : style == 1 ? r.uni(-span, span) : style == 2 ? r.range(-20, 20) * .5 : r.normal() * span; };
  auto mk = [&](double& lo, double& hi) { lo = val(); hi = style == 3 ? lo + r.logu(1e-3, span) : val(); if (r.chance(.1)) hi = lo; if (hi < lo) std::swap(lo, hi); if (style == 4) { lo = -std::fabs(lo); hi = std::fabs(hi); } };
  for (int k = 0; k < nops; ++k) {
    double u = r.u(); std::string op;
    if (u < pdel && !in.empty()) {
      auto it = in.begin(); std::advance(it, r.below(in.size()));
      if (r.chance(.5)) { c.phase("IntervalTree delete node"); Iv* got = t.deleteNode(it->second); if (got != it->first) c.violation("deleteNode returns another interval", ""); }
      else { c.phase("IntervalTree delete interval"); t.deleteNode(it->first); }
      in.erase(it); hist.add(k); c.count("deletions");
    } else {
      Iv* v;
      if (!pool.empty() && r.chance(.1)) { v = pool[r.below(pool.size())].get(); if (in.count(v)) continue; mk(v->low, v->high); }   // re-inserted after removal
      else { pool.emplace_back(new Iv); v = pool.back().get(); if (pool.size() > 1 && r.chance(.15)) { auto& q = pool[r.below(pool.size() - 1)]; v->low = q->low; v->high = q->high; } else mk(v->low, v->high); }
      c.phase("IntervalTree insert"); in[v] = t.insert(v); hist.add(v->low); hist.add(v->high); c.count("insertions");
    }
    for (int q = 0; q < 3; ++q) {
      double lo, hi; mk(lo, hi); if (!in.empty() && r.chance(.4)) { auto it = in.begin(); std::advance(it, r.below(in.size())); double e = r.chance(.5) ? it->first->high : it->first->low; if (r.chance(.5)) { hi = e; if (lo > hi) lo = hi - 1; } else { lo = e; if (hi < lo) hi = lo + 1; } if (r.chance(.3)) lo = hi = e; }
      c.phase("IntervalTree query"); std::deque<Iv*> got = t.query(lo, hi); c.count("queries");
      std::multiset<Iv*> g(got.begin(), got.end()); std::string info = vh::fmt("query [%.17g,%.17g], %d stored, %d returned, style %d, step %d", lo, hi, (int)in.size(), (int)got.size(), style, k);
      for (auto& kv : in) { bool meets = kv.first->low <= hi && lo <= kv.first->high; size_t n = g.count(kv.first); if (meets) c.count("intervals required");
        if (meets && !n) { c.violation("interval missing from a query", vh::fmt("[%.17g,%.17g] ", kv.first->low, kv.first->high) + info); return; }
        if (n > 1) { c.violation("interval returned twice", vh::fmt("[%.17g,%.17g] ", kv.first->low, kv.first->high) + info); return; }
        if (!meets && n) { c.violation("interval returned that does not meet the query", vh::fmt("[%.17g,%.17g] ", kv.first->low, kv.first->high) + info); return; } }
      for (Iv* x : got) if (!in.count(x)) { c.violation("interval returned that is not stored", info); return; }
      vh::Hash h = hist; h.add(lo); h.add(hi); c.observe(h.h);
    }
  }
  while (!in.empty() && r.chance(.9)) { c.phase("IntervalTree drain"); auto it = in.begin(); std::advance(it, r.below(in.size())); t.deleteNode(it->first); in.erase(it); }
  auto rest = t.query(-1e9, 1e9);
  if (rest.size() != in.size()) c.violation("intervals left after draining", vh::fmt("%d stored, %d returned", (int)in.size(), (int)rest.size()));
  if (c.caseno < 2) c.sample(vh::fmt("%d operations, style %d, %d stored at the end", nops, style, (int)in.size()));
}

// ---------------------------------------------------------------- I02
struct PtrTree {
  typedef fcl::detail::HierarchyTree<AB> T; typedef T::NodeType N; typedef N* H; T t; PtrTree(int b, int l) : t(b, l) {}
  static const char* name() { return "tree"; }
  std::vector<H> init(const std::vector<AB>& b, int level) {
    std::vector<N*> l; for (size_t i = 0; i < b.size(); ++i) { N* n = new N; n->bv = b[i]; n->parent = nullptr; n->children[1] = nullptr; n->data = (void*)(i + 1); l.push_back(n); } std::vector<H> h = l; t.init(l, level); return h; }
  H insert(const AB& b, size_t id) { return t.insert(b, (void*)id); }
  AB bv(H h) { return h->bv; } void setbv(H h, const AB& b) { h->bv = b; } size_t id(H h) { return (size_t)h->data; }
  bool root(H& h) { h = t.getRoot(); return h; } bool leaf(H h) { return h->isLeaf(); } H child(H h, int i) { return h->children[i]; } H parent(H h) { return h->parent; } bool null(H h) { return !h; }
};
struct ArrTree {
  typedef fcl::detail::implementation_array::HierarchyTree<AB> T; typedef fcl::detail::implementation_array::NodeBase<AB> N; typedef size_t H; T t; ArrTree(int b, int l) : t(b, l) {}
  static const char* name() { return "array tree"; }
  std::vector<H> init(const std::vector<AB>& b, int level) {
    std::vector<N> l(b.size()); std::vector<H> h; for (size_t i = 0; i < b.size(); ++i) { l[i].bv = b[i]; l[i].parent = T::NULL_NODE; l[i].children[1] = T::NULL_NODE; l[i].data = (void*)(i + 1); h.push_back(i); } t.init(l.data(), b.size(), level); return h; }
  H insert(const AB& b, size_t id) { return t.insert(b, (void*)id); }
  AB bv(H h) { return t.getNodes()[h].bv; } void setbv(H h, const AB& b) { t.getNodes()[h].bv = b; } size_t id(H h) { return (size_t)t.getNodes()[h].data; }
  bool root(H& h) { h = t.getRoot(); return h != T::NULL_NODE; } bool leaf(H h) { return t.getNodes()[h].isLeaf(); } H child(H h, int i) { return t.getNodes()[h].children[i]; } H parent(H h) { return t.getNodes()[h].parent; } bool null(H h) { return h == T::NULL_NODE; }
};
template <class TT> static bool walkTree(vh::Ctx& c, TT& t, const std::map<size_t, typename TT::H>& want, const std::map<size_t, AB>& box, const std::string& info) {
  typename TT::H root; std::map<size_t, int> seen; size_t depth = 0; std::string nm = std::string(TT::name()) + "|";
  if (t.t.size() != want.size()) { c.violation(nm + "size", vh::fmt("size() %d for %d leaves ", (int)t.t.size(), (int)want.size()) + info); return false; }
  if (t.t.empty() != want.empty()) { c.violation(nm + "empty", info); return false; }
  if (!t.root(root) || want.empty()) { if (!want.empty()) { c.violation(nm + "no root", info); return false; } return true; }
  struct It { typename TT::H h; size_t d; }; std::vector<It> st{{root, 0}}; size_t steps = 0;
  if (!t.null(t.parent(root))) { c.violation(nm + "root has a parent", info); return false; }
  while (!st.empty()) {
    It i = st.back(); st.pop_back(); depth = std::max(depth, i.d);
    if (++steps > 4 * want.size() + 8) { c.violation(nm + "more nodes than a binary tree over its leaves has", info); return false; }
    c.count("nodes checked");
    if (t.leaf(i.h)) {
      size_t id = t.id(i.h);
      if (++seen[id] > 1) { c.violation(nm + "leaf twice", info); return false; }
      auto w = want.find(id); if (w == want.end()) { c.violation(nm + "leaf not stored", info); return false; }
      if (w->second != i.h) { c.violation(nm + "leaf under another handle", info); return false; }
      AB b = t.bv(i.h); if (!b.contain(box.at(id))) { c.violation(nm + "leaf box", vh::fmt("leaf %d ", (int)id) + info); return false; }
    } else for (int k = 0; k < 2; ++k) {
      typename TT::H h = t.child(i.h, k);
      if (t.null(h) || t.parent(h) != i.h) { c.violation(nm + "parent link", info); return false; }
      AB p = t.bv(i.h), b = t.bv(h);
      if (!p.contain(b)) { c.violation(nm + "parent box does not contain its child's", info); return false; }
      st.push_back({h, i.d + 1});
    }
  }
  if (seen.size() != want.size()) { c.violation(nm + "leaf lost", vh::fmt("%d of %d reachable ", (int)seen.size(), (int)want.size()) + info); return false; }
  if (t.t.getMaxHeight() != depth || t.t.getMaxDepth() != depth) { c.violation(nm + "height", vh::fmt("getMaxHeight %d getMaxDepth %d, true %d ", (int)t.t.getMaxHeight(), (int)t.t.getMaxDepth(), (int)depth) + info); return false; }
  return true;
}
template <class TT> static void treeCase(vh::Ctx& c) {
  auto& r = c.rng;
  int bu = r.chance(.4) ? r.range(1, 6) : 16, lv = r.below(2); TT t(bu, lv); t.t.topdown_level = lv;
  std::map<size_t, typename TT::H> want; std::map<size_t, AB> box; size_t next = 1; int style = r.below(6); double size = r.logu(.05, 3);
  auto mk = [&] {
    V p = randIn(r, 5), h(r.u() * size, r.u() * size, r.u() * size);
    if (style == 1) { p = V(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)); h = V(.5, .5, .5); }
    if (style == 2) { p = V(r.range(-3, 3), 0, 0); if (r.chance(.5)) h = V(); }
    if (style == 3) { p = V(1, 2, 3); h = V(.5, .5, .5); }
    if (style == 4 && r.chance(.1)) { p = p * 1000; h = h * 1000; }
    if (style == 5) p.z = 0, h.z = 0;
    return AB(fv<double>(p - h), fv<double>(p + h)); };
  int nops = r.range(3, 40); std::string log;
  auto build = [&](int n, int level) { c.phase("%s init level %d", TT::name(), level); std::vector<AB> b; for (int i = 0; i < n; ++i) b.push_back(mk()); auto h = t.init(b, level); want.clear(); box.clear(); for (int i = 0; i < n; ++i) { want[i + 1] = h[i]; box[i + 1] = b[i]; } next = std::max<size_t>(next, n + 1); log += vh::fmt("init(%d,level %d) ", n, level); };
  for (int k = 0; k < nops; ++k) {
    int op = r.below(12); if (k == 0 && r.chance(.7)) op = 0;
    auto some = [&] { auto it = want.begin(); std::advance(it, r.below(want.size())); return it; };
    if (op == 0 && (k == 0 || r.chance(.3))) build(r.range(1, r.chance(.1) ? 300 : 40), r.below(4));
    else if (op <= 3) { c.phase("%s insert", TT::name()); AB b = mk(); size_t id = next++; want[id] = t.insert(b, id); box[id] = b; log += "insert "; }
    else if (want.empty()) continue;
    else if (op == 4) { c.phase("%s remove", TT::name()); auto it = some(); t.t.remove(it->second); box.erase(it->first); want.erase(it); log += "remove "; }
    else if (op == 5) { c.phase("%s update box", TT::name()); auto it = some(); AB b = mk(); if (r.chance(.2)) b = box[it->first]; bool in = t.bv(it->second).contain(b), ch = t.t.update(it->second, b); if (ch == in) c.violation(std::string(TT::name()) + "|update's return value", log); box[it->first] = b; log += "update(bv) "; }
    else if (op == 6) { c.phase("%s update in place", TT::name()); auto it = some(); AB b = mk(); t.setbv(it->second, b); box[it->first] = b; int la = r.chance(.6) ? -1 : r.range(0, 4); t.t.update(it->second, la); log += vh::fmt("update(%d) ", la); 
      // a limited lookahead re-inserts below an ancestor; the boxes above are refitted by that insertion
    }
    else if (op == 7) { c.phase("%s refit", TT::name()); int n = r.range(1, 5); for (int q = 0; q < n; ++q) { auto it = some(); AB b = mk(); t.setbv(it->second, b); box[it->first] = b; } t.t.refit(); log += "refit "; }
    else if (op == 8) { c.phase("%s balanceTopdown", TT::name()); t.t.balanceTopdown(); log += "topdown "; }
    else if (op == 9) { if (want.size() > 60) continue; c.phase("%s balanceBottomup", TT::name()); t.t.balanceBottomup(); log += "bottomup "; }
    else if (op == 10) { c.phase("%s balanceIncremental", TT::name()); int n = r.chance(.2) ? -1 : r.range(0, 12); t.t.balanceIncremental(n); log += vh::fmt("incremental(%d) ", n); }
    else if (r.chance(.15)) { c.phase("%s clear", TT::name()); t.t.clear(); want.clear(); box.clear(); log += "clear "; }
    c.phase("%s walk", TT::name()); c.count("operations");
    if (!walkTree(c, t, want, box, vh::fmt("%d leaves, style %d, bu_threshold %d, topdown level %d, after: ", (int)want.size(), style, bu, lv) + log)) return;
    vh::Hash h; h.add(std::string(TT::name())); h.add(log); for (auto& kv : box) { h.add(kv.second.min_[0]); h.add(kv.second.max_[1]); } c.observe(h.h); c.count("states checked");
  }
  if (c.caseno < 2) c.sample(std::string(TT::name()) + ": " + log);
}
VH_PROP(I02) { if (c.caseno & 1) treeCase<PtrTree>(c); else treeCase<ArrTree>(c); }

// ---------------------------------------------------------------- I03
template <class HT> static void hashCase(vh::Ctx& c, const char* nm) {
  auto& r = c.rng;
  double cell = r.logu(.1, 5); V lo(-r.uni(1, 10), -r.uni(1, 10), -r.uni(1, 10)), hi = lo + V(r.uni(cell * .3, 20), r.uni(cell * .3, 20), r.uni(cell * .3, 20));
  V ext = hi - lo; while (ext.x / cell * ext.y / cell * ext.z / cell > 4000) cell *= 2;
  AB lim(fv<double>(lo), fv<double>(hi)); fcl::detail::SpatialHash<double> sh(lim, cell);
  HT t(sh); t.init(r.chance(.3) ? r.range(1, 7) : 1000); std::map<int, AB> in; std::set<int> gone; int next = 0; vh::Hash hist;
  auto mk = [&] {
    V a, b; double s = r.chance(.5) ? cell : ext.x;
    for (int k = 0; k < 3; ++k) { double m = r.uni(lo[k], hi[k]), h = r.chance(.2) ? 0 : r.u() * s; if (r.chance(.3)) m = lo[k] + cell * r.below(8); double x = std::max(lo[k], std::min(hi[k], m - h)), y = std::max(x, std::min(hi[k], m + h)); a[k] = x; b[k] = y; }
    return AB(fv<double>(a), fv<double>(b)); };
  int nops = r.range(3, 60);
  for (int k = 0; k < nops; ++k) {
    double u = r.u();
    if (u < .6 || in.empty()) { int id = next++; AB b = mk(); c.phase("%s insert", nm); t.insert(b, id); in[id] = b; c.count("insertions"); }
    else if (u < .95) { auto it = in.begin(); std::advance(it, r.below(in.size())); c.phase("%s remove", nm); t.remove(it->second, it->first); gone.insert(it->first); in.erase(it); c.count("removals"); }
    else { c.phase("%s clear", nm); t.clear(); for (auto& kv : in) gone.insert(kv.first); in.clear(); }
    AB q = mk(); if (!in.empty() && r.chance(.3)) { auto it = in.begin(); std::advance(it, r.below(in.size())); q = AB(it->second.max_); if (r.chance(.5)) q = AB(it->second.min_); }
    c.phase("%s query", nm); std::vector<int> got = t.query(q); c.count("queries"); hist.add(k); hist.add(q.min_[0]); hist.add(q.max_[0]); c.observe(hist.h);
    std::multiset<int> g(got.begin(), got.end()); std::string info = vh::fmt("%d stored, %d returned, cell %.17g, step %d", (int)in.size(), (int)got.size(), cell, k);
    for (auto& kv : in) {
      bool need = true;   // shares a cell: some cell [i,i+1]*size meets both boxes
      for (int a = 0; a < 3; ++a) { double x = std::floor((std::max(q.min_[a], kv.second.min_[a]) - lo[a]) / cell), y = std::floor((std::min(q.max_[a], kv.second.max_[a]) - lo[a]) / cell); if (x > y) need = false; }
      for (int a = 0; a < 3 && need; ++a) { double e1 = (q.max_[a] - lo[a]) / cell, e2 = (kv.second.max_[a] - lo[a]) / cell; if (std::max(q.min_[a], kv.second.min_[a]) > std::min(q.max_[a], kv.second.max_[a]) && (std::fabs(e1 - std::round(e1)) < 1e-9 || std::fabs(e2 - std::round(e2)) < 1e-9)) need = false; }
      if (need) c.count("pairs required");
      if (need && !g.count(kv.first)) { c.violation(std::string(nm) + "|object missing", info); return; }
      if (g.count(kv.first) > 1) { c.violation(std::string(nm) + "|object twice", info); return; }
    }
    for (int x : got) if (!in.count(x)) { c.violation(std::string(nm) + (gone.count(x) ? "|removed object returned" : "|unknown object returned"), info); return; }
  }
}
VH_PROP(I03) {
  if (c.caseno & 1) hashCase<fcl::detail::SimpleHashTable<AB, int, fcl::detail::SpatialHash<double>>>(c, "simple hash table");
  else hashCase<fcl::detail::SparseHashTable<AB, int, fcl::detail::SpatialHash<double>>>(c, "sparse hash table");
}

// ---------------------------------------------------------------- I04
static V rp(Rng& r, int grid) { return grid ? V(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)) : randIn(r, 1.5); }
static double onSeg(const V& x, const V& a, const V& b) { V u, v; return segSeg(x, x, a, b, u, v); }
static double onTri(const V& x, const V* t) { return norm(closestOnTri(x, t[0], t[1], t[2]) - x); }
VH_PROP(I04) {
  auto& r = c.rng; int kind = c.caseno % 6, grid = r.chance(.35); using namespace fcl::detail;
  double tol = 2e-7; vh::Hash h; h.add(kind);
  if (kind == 0) {   // segments
    V a = rp(r, grid), b = rp(r, grid), p = rp(r, grid), q = rp(r, grid); double u = r.u();
    if (u < .15) q = p + (b - a) * r.uni(-2, 2); else if (u < .3) q = p + (b - a) * r.uni(.2, 2) + randIn(r, r.logu(1e-6, 1e-1)); else if (u < .35) q = p; else if (u < .4) b = a; else if (u < .42) { b = a; q = p; }
    else if (u < .47) { V d = b - a; p = a + d * r.uni(-1, 2); q = a + d * r.uni(-1, 2); }   // collinear
    V x, y; double D = segSeg(a, b, p, q, x, y); h.add(D); h.add(a.x); c.observe(h.h); c.count("segment pairs");
    std::string info = str(a) + str(b) + str(p) + str(q) + vh::fmt(" true %.12g ", D);
    double s, t; E c1, c2; c.phase("closestPtSegmentSegment"); double d2 = closestPtSegmentSegment(fv<double>(a), fv<double>(b), fv<double>(p), fv<double>(q), &s, &t, &c1, &c2);
    double sine = norm(cross(b - a, q - p)); bool near = sine > 0 && sine < 1e-5 * (norm(b - a) * norm(q - p) + 1e-12); double tl = near ? 1e-5 : tol;
    V w1 = rv(c1), w2 = rv(c2); double e = std::fabs(norm(w1 - w2) - D), on = std::max(onSeg(w1, a, b), onSeg(w2, p, q)); c.maxi("closestPtSegmentSegment error", e);
    if (!(e <= tl && on <= tol && std::fabs(std::sqrt(std::max(0., d2)) - D) <= tl)) c.violation("closestPtSegmentSegment|distance", vh::fmt("got %.12g (squared %.12g) off segments %.3g ", norm(w1 - w2), d2, on) + info);
    if (!(s >= -1e-12 && s <= 1 + 1e-12 && t >= -1e-12 && t <= 1 + 1e-12 && norm(a + (b - a) * s - w1) < tol && norm(p + (q - p) * t - w2) < tol)) c.violation("closestPtSegmentSegment|parameters", vh::fmt("s %.9g t %.9g ", s, t) + info);
    if (norm(b - a) > 1e-6 && norm(q - p) > 1e-6) {
      E vec, X, Y; c.phase("TriangleDistance::segPoints"); TriangleDistance<double>::segPoints(fv<double>(a), fv<double>(b - a), fv<double>(p), fv<double>(q - p), vec, X, Y); V sx = rv(X), sy = rv(Y); e = std::fabs(norm(sx - sy) - D); on = std::max(onSeg(sx, a, b), onSeg(sy, p, q)); c.maxi("segPoints error", near ? 0 : e);
      if (!(on <= tol)) c.violation("segPoints|points off the segments", vh::fmt("%.6g ", on) + info);
      if (!(e <= tl)) c.violation("segPoints|distance", vh::fmt("got %.12g ", norm(sx - sy)) + info);
    }
    E sp; c.phase("lineSegmentPointClosestToPoint"); fcl::detail::lineSegmentPointClosestToPoint(fv<double>(p), fv<double>(a), fv<double>(b), sp);
    if (norm(b - a) > 0) { V z = rv(sp); double dd = onSeg(p, a, b); if (!(onSeg(z, a, b) <= tol && std::fabs(norm(z - p) - dd) <= tol)) c.violation("lineSegmentPointClosestToPoint", vh::fmt("%.12g instead of %.12g ", norm(z - p), dd) + info); }
  } else if (kind == 1) {   // projections onto simplices
    int n = r.range(2, 4); V s[4]; for (int i = 0; i < n; ++i) s[i] = rp(r, grid); V p = rp(r, grid); if (r.chance(.3)) { D w[4], sum = 0; for (int i = 0; i < n; ++i) { w[i] = r.u() - (r.chance(.3) ? .5 : 0); sum += w[i]; } p = V(); if (std::fabs(sum) > .1) for (int i = 0; i < n; ++i) p = p + s[i] * (w[i] / sum); }
    double vol = n == 2 ? norm(s[1] - s[0]) : n == 3 ? norm(cross(s[1] - s[0], s[2] - s[0])) : std::fabs(dot(s[1] - s[0], cross(s[2] - s[0], s[3] - s[0])));
    if (vol < 1e-3) { c.count("degenerate simplex"); return; }
    V q[4]; for (int i = 0; i < n; ++i) q[i] = s[i] - p; Bary B = simplexMin(q, n); double D = std::sqrt(B.d2); bool org = r.chance(.3); if (org) { for (int i = 0; i < n; ++i) s[i] = q[i]; p = V(); }
    typename Project<double>::ProjectResult R; E f[4]; for (int i = 0; i < n; ++i) f[i] = fv<double>(s[i]); E fp = fv<double>(p); c.phase("Project %d", n);
    if (n == 2) R = org ? Project<double>::projectLineOrigin(f[0], f[1]) : Project<double>::projectLine(f[0], f[1], fp);
    if (n == 3) R = org ? Project<double>::projectTriangleOrigin(f[0], f[1], f[2]) : Project<double>::projectTriangle(f[0], f[1], f[2], fp);
    if (n == 4) R = org ? Project<double>::projectTetrahedraOrigin(f[0], f[1], f[2], f[3]) : Project<double>::projectTetrahedra(f[0], f[1], f[2], f[3], fp);
    h.add(n); h.add(D); h.add(p.x); c.observe(h.h); c.count("projections");
    V x; double sum = 0; bool neg = false; for (int i = 0; i < n; ++i) { x = x + s[i] * R.parameterization[i]; sum += R.parameterization[i]; if (R.parameterization[i] < -1e-9) neg = true; if (((R.encode >> i) & 1) == 0 && std::fabs(R.parameterization[i]) > 1e-9) { c.violation(vh::fmt("projection onto %d points|code", n), vh::fmt("code %u ", R.encode)); } }
    std::string info = vh::fmt("n=%d origin=%d true distance %.12g, reported squared %.12g, point at %.12g, weights", n, org, D, R.sqr_distance, norm(x - p)); for (int i = 0; i < n; ++i) info += vh::fmt(" %.9g", R.parameterization[i]); for (int i = 0; i < n; ++i) info += " " + str(s[i]); info += " p " + str(p);
    c.maxi("projection error", std::fabs(norm(x - p) - D));
    if (!(std::fabs(sum - 1) < 1e-6 && !neg)) c.violation(vh::fmt("projection onto %d points|weights", n), info);
    else if (!(std::fabs(norm(x - p) - D) < 1e-6)) c.violation(vh::fmt("projection onto %d points|not nearest", n), info);
    else if (!(std::fabs(std::sqrt(std::max(0., R.sqr_distance)) - D) < 1e-5)) c.violation(vh::fmt("projection onto %d points|distance", n), info);
  } else {
    V a[3], b[3]; double sep = r.chance(.5) ? 0 : r.uni(0, 3); V off = randUnit(r) * sep;
    for (int i = 0; i < 3; ++i) { a[i] = rp(r, grid); b[i] = rp(r, grid) + (grid ? V(std::round(off.x), std::round(off.y), std::round(off.z)) : off); }
    double u = r.u(); if (u < .1) { for (int i = 0; i < 3; ++i) { a[i].z = 0; b[i].z = r.chance(.5) ? 0 : off.z; } } else if (u < .2) { int k = r.below(3); b[0] = a[k]; if (r.chance(.5)) b[1] = a[(k + 1) % 3]; } else if (u < .25) { a[2] = a[0] + (a[1] - a[0]) * r.uni(.2, .8) + randIn(r, r.logu(1e-4, 1e-1)); }
    else if (u < .3) for (int i = 0; i < 3; ++i) b[i] = a[i] + off;
    double ar = std::min(norm(cross(a[1] - a[0], a[2] - a[0])), norm(cross(b[1] - b[0], b[2] - b[0])));
    if (ar < 1e-4) { c.count("degenerate triangle"); return; }
    T tf = randPose(r, 2); bool posed = r.chance(.5); V bl[3]; for (int i = 0; i < 3; ++i) bl[i] = posed ? tf.inv(b[i]) : b[i];
    std::string info = "A " + str(a[0]) + str(a[1]) + str(a[2]) + " B " + str(b[0]) + str(b[1]) + str(b[2]);
    E fa[3], fb[3]; for (int i = 0; i < 3; ++i) { fa[i] = fv<double>(a[i]); fb[i] = fv<double>(bl[i]); }
    fcl::Transform3d ftf = ft<double>(tf);
    if (kind <= 3) {   // triangle distance
      V x, y; double D = triTri(a, b, x, y); double sat = triSAT(a, b); h.add(D); h.add(a[0].x); c.observe(h.h);
      E P, Q; double d; int api = r.below(2); c.phase("triDistance");
      typedef TriangleDistance<double> TD; fcl::Matrix3d R = ftf.linear(); E tr = ftf.translation();
      if (!posed) d = api ? TD::triDistance(fa, fb, P, Q) : TD::triDistance(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], P, Q);
      else switch (r.below(4)) { case 0: d = TD::triDistance(fa, fb, R, tr, P, Q); break; case 1: d = TD::triDistance(fa, fb, ftf, P, Q); break; case 2: d = TD::triDistance(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], R, tr, P, Q); break; default: d = TD::triDistance(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], ftf, P, Q); }
      V p = rv(P), q = rv(Q); info += vh::fmt(" true %.12g sat %.9g got %.12g points %s %s posed %d", D, sat, d, str(p).c_str(), str(q).c_str(), posed);
      c.count(D > 1e-6 ? "separated triangles" : "touching triangles");
      double e = std::fabs(d - D); c.maxi("triDistance error", D > 1e-6 ? e : 0);
      if (D > 1e-6) {
        if (!(e <= 1e-6)) c.violation("triDistance|distance", info);
        double on = std::max(onTri(p, a), onTri(q, b)), np = std::fabs(norm(p - q) - D);
        if (!(on <= 1e-6 && np <= 1e-6)) c.violation("triDistance|points", vh::fmt("off %.6g mismatch %.6g ", on, np) + info);
      } else if (sat < -1e-6 && !(d <= 1e-6)) c.violation("triDistance|positive for intersecting triangles", info);
    } else {   // triangle intersection
      V x, y; double D = triTri(a, b, x, y); double sat = triSAT(a, b); h.add(sat); h.add(a[0].x); c.observe(h.h);
      bool want = sat < -1e-6; if (!want && !(D > 1e-5 && sat > 1e-7)) { c.count("undecided: touching"); return; }
      c.count(want ? "intersecting triangles" : "apart triangles");
      typedef Intersect<double> I; E cp[16]; unsigned n = 0; double dep = 0; E nn; bool got; int full = r.chance(.7); c.phase("intersect_Triangle");
      fcl::Matrix3d R = ftf.linear(); E tr = ftf.translation();
      if (kind == 5 && !posed && r.chance(.4)) {   // this variant clips to 1e-5 and merges clipped points closer than sqrt(1e-5)
        if (want ? sat > -1e-2 : D < 1e-4) { c.count("ode style undecided"); return; }
        got = I::intersect_Triangle_ODE_style(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2]); info += " ode"; c.count("ode style");
        if (got != want) c.violation(want ? "intersect_Triangle_ODE_style|missed" : "intersect_Triangle_ODE_style|false hit", info + vh::fmt(" distance %.9g sat %.9g", D, sat));
        return; }
      if (!posed) got = full ? I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], cp, &n, &dep, &nn) : I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2]);
      else if (r.chance(.5)) got = full ? I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], R, tr, cp, &n, &dep, &nn) : I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], R, tr);
      else got = full ? I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], ftf, cp, &n, &dep, &nn) : I::intersect_Triangle(fa[0], fa[1], fa[2], fb[0], fb[1], fb[2], ftf);
      info += vh::fmt(" distance %.9g sat %.9g verdict %d posed %d", D, sat, got, posed);
      if (got != want) { c.violation(want ? "intersect_Triangle|missed" : "intersect_Triangle|false hit", info); return; }
      if (got && full) {
        V m = rv(nn); info += vh::fmt(" contacts %u depth %.9g normal %s", n, dep, str(m).c_str());
        V na = unit(cross(a[1] - a[0], a[2] - a[0])), nb = unit(cross(b[1] - b[0], b[2] - b[0]));
        if (n > 2 || !std::isfinite(dep)) { c.violation("intersect_Triangle|contacts", info); return; }
        bool coplanar = norm(cross(na, nb)) < 1e-4;
        if (!coplanar) {   // documented output: the deepest vertices below the other triangle's plane, the smaller of the two depths
          if (n == 0) { c.violation("intersect_Triangle|no contact point", info); return; }
          double d2 = -1e300, d1 = -1e300; for (int i = 0; i < 3; ++i) { d2 = std::max(d2, -dot(na, b[i] - a[0])); d1 = std::max(d1, -dot(nb, a[i] - b[0])); }
          if (std::fabs(dep - std::min(d1, d2)) > 1e-6) c.violation("intersect_Triangle|depth", vh::fmt("true %.9g %.9g ", d1, d2) + info);
          if (std::fabs(norm(m) - 1) > 1e-6) c.violation("intersect_Triangle|normal", info);
          else { V t = m * dep; V bb[3]; for (int i = 0; i < 3; ++i) bb[i] = b[i] + t; double s2 = triSAT(a, bb); if (s2 < -1e-5) c.violation("intersect_Triangle|move does not separate", vh::fmt("sat after %.6g ", s2) + info); }
          for (unsigned i = 0; i < n; ++i) { V z = rv(cp[i]); double on = std::min(onTri(z, a), onTri(z, b)); if (on > 1e-6) c.violation("intersect_Triangle|contact point off both triangles", vh::fmt("%.6g ", on) + info); }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- I05
VH_PROP(I05) {
  auto& r = c.rng; int deg = 1 + c.caseno % 3; double k[4] = {0, 0, 0, 0}, lead = r.logu(.05, 20) * (r.chance(.5) ? 1 : -1); std::vector<double> roots; bool complexPair = deg > 1 && r.chance(.4);
  double scale = r.logu(.5, 5); int nreal = complexPair ? deg - 2 : deg;
  for (int t = 0; (int)roots.size() < nreal && t < 100; ++t) { double x = r.chance(.1) ? 0 : r.chance(.2) ? (double)r.range(-3, 3) : r.uni(-scale, scale); bool ok = true; for (double y : roots) if (std::fabs(x - y) < .25) ok = false; if (ok) roots.push_back(x); }
  if ((int)roots.size() < nreal) return;
  std::vector<double> p{lead};   // descending powers
  auto mul = [&](std::vector<double> q) { std::vector<double> o(p.size() + q.size() - 1, 0.); for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < q.size(); ++j) o[i + j] += p[i] * q[j]; p = o; };
  for (double x : roots) mul({1, -x});
  if (complexPair) { double re = r.chance(.2) ? 0 : r.uni(-scale, scale), im = r.uni(.3, scale); mul({1, -2 * re, re * re + im * im}); }
  for (int i = 0; i <= deg; ++i) k[i] = p[deg - i];
  double s[3] = {1e300, 1e300, 1e300}; int which = deg; if (r.chance(.3)) which = r.range(deg, 3);   // vanishing leading coefficients
  c.phase("PolySolver %d", which); int n = which == 1 ? fcl::detail::PolySolver<double>::solveLinear(k, s) : which == 2 ? fcl::detail::PolySolver<double>::solveQuadric(k, s) : fcl::detail::PolySolver<double>::solveCubic(k, s);
  vh::Hash h; for (int i = 0; i < 4; ++i) h.add(k[i]); h.add(which); c.observe(h.h); c.count("polynomials"); c.count("roots required", nreal);
  std::string info = vh::fmt("degree %d solver %d: %.17g + %.17g x + %.17g x^2 + %.17g x^3, true roots", deg, which, k[0], k[1], k[2], k[3]); for (double x : roots) info += vh::fmt(" %.12g", x); info += ", got"; for (int i = 0; i < n; ++i) info += vh::fmt(" %.12g", s[i]);
  std::string key = vh::fmt("degree %d|", deg);
  if (n != nreal) { c.violation(key + "number of roots", info); return; }
  std::vector<int> used(n, 0);
  for (double x : roots) { int best = -1; for (int i = 0; i < n; ++i) if (!used[i] && (best < 0 || std::fabs(s[i] - x) < std::fabs(s[best] - x))) best = i; used[best] = 1; double e = std::fabs(s[best] - x); c.maxi("root error", e); if (!(e < 1e-6 * (1 + scale))) { c.violation(key + "wrong root", info); return; } }
  if (c.caseno < 4) c.sample(info);
}

// ---------------------------------------------------------------- I06
struct Stat { const char* name; std::vector<double> x; };   // values that should be uniform in [0,1]
static double ks(std::vector<double> x) { std::sort(x.begin(), x.end()); double d = 0; int n = x.size(); for (int i = 0; i < n; ++i) { d = std::max(d, std::max(x[i] - (double)i / n, (double)(i + 1) / n - x[i])); } return d * std::sqrt((double)n); }
static double s3cdf(double x) { x = std::max(-1., std::min(1., x)); return .5 + (x * std::sqrt(1 - x * x) + std::asin(x)) / 3.14159265358979323846; }   // a component of a uniform unit quaternion
static double ncdf(double z) { return .5 * std::erfc(-z / std::sqrt(2.)); }
static std::string samplerRun(uint64_t seed, std::vector<Stat>& st, int N, std::vector<double>& raw, std::string& desc) {   // returns an error or ""
  using namespace fcl; Rng r(seed); int kind = r.below(15); const double PI = 3.14159265358979323846; int burn = r.below(1500); for (int i = 0; i < burn; ++i) { RNG<double> b; }
  auto fail = [&](const std::string& s) { return s; }; auto keep = [&](double v) { raw.push_back(v); };
  double lo = r.uni(-50, 50), hi = lo + r.logu(1e-2, 100); V l(r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)), u = l + V(r.logu(.01, 10), r.logu(.01, 10), r.logu(.01, 10)); double r0 = r.chance(.4) ? 0 : r.uni(0, 2), r1 = r0 + r.logu(.05, 5);
  RNG<double> g; desc = vh::fmt("generator %d lo %.6g hi %.6g r0 %.6g r1 %.6g", kind, lo, hi, r0, r1);
  auto quat = [&](double a, double b, double cc, double d) -> std::string { double n = a * a + b * b + cc * cc + d * d; if (!(std::fabs(n - 1) < 1e-9)) return "quaternion not of unit length"; st[3].x.push_back(s3cdf(a)); st[4].x.push_back(s3cdf(b)); st[5].x.push_back(s3cdf(cc)); st[6].x.push_back(s3cdf(d)); return ""; };
  auto eul = [&](double a, double b, double cc) -> std::string { for (double v : {a, b, cc}) if (!(std::fabs(v) <= PI + 1e-9)) return "Euler angle outside [-pi,pi]"; Eigen::Matrix3d R = (Eigen::AngleAxisd(a, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(b, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(cc, Eigen::Vector3d::UnitZ())).toRotationMatrix(); for (int i = 0; i < 3; ++i) st[3 + i].x.push_back((R(i, (i + 1) % 3) + 1) / 2); return ""; };
  auto inball = [&](double x, double y, double z, double a, double b) -> std::string { double q = std::sqrt(x * x + y * y + z * z); if (!(q <= b * (1 + 1e-9) && q >= a * (1 - 1e-9) - 1e-12)) return "sample outside the ball"; st[0].x.push_back((q * q * q - a * a * a) / (b * b * b - a * a * a)); st[1].x.push_back((x / q + 1) / 2); st[2].x.push_back((z / q + 1) / 2); return ""; };
  auto box = [&](int i, double v) -> std::string { if (!(v >= l[i] && v <= u[i])) return "coordinate outside its bounds"; st[i].x.push_back((v - l[i]) / (u[i] - l[i])); return ""; };
  SamplerSE2<double> se2(l.x, u.x, l.y, u.y); if (r.chance(.5)) se2.setBound(Vector2<double>(l.x, l.y), Vector2<double>(u.x, u.y)); SamplerSE2_disk<double> sd(l.x, l.y, r0, r1, u.x, u.y); SamplerSE3Euler<double> se(fv<double>(l), fv<double>(u)); SamplerSE3Euler_ball<double> seb(r1); SamplerSE3Quat<double> sq(fv<double>(l), fv<double>(u)); SamplerSE3Quat_ball<double> sqb(r1);
  VectorN<double, 5> L, U; for (int i = 0; i < 5; ++i) { L[i] = r.uni(-5, 5); U[i] = L[i] + r.logu(.01, 5); } SamplerR<double, 5> sr(L, U);
  int ilo = r.range(-20, 20), ihi = ilo + r.below(30); double focus = r.uni(1, 6); std::vector<long> cnt(ihi - ilo + 1, 0); std::string e; long nt = 0;
  for (int i = 0; i < N; ++i) {
    double x, y, z; e.clear();
    switch (kind) {
      case 0: x = g.uniform01(); keep(x); if (!(x >= 0 && x <= 1)) return fail("uniform01 outside [0,1]"); st[0].x.push_back(x); break;
      case 1: x = g.uniformReal(lo, hi); keep(x); if (!(x >= lo && x <= hi)) return fail("uniformReal outside its bounds"); st[0].x.push_back((x - lo) / (hi - lo)); break;
      case 2: { int k = g.uniformInt(ilo, ihi); keep(k); if (k < ilo || k > ihi) return fail("uniformInt outside its bounds"); cnt[k - ilo]++; break; }
      case 3: { bool b = g.uniformBool(); keep(b); nt += b; break; }
      case 4: x = g.gaussian01(); keep(x); st[0].x.push_back(ncdf(x)); break;
      case 5: x = g.gaussian(lo, r1); keep(x); st[0].x.push_back(ncdf((x - lo) / r1)); break;
      case 6: { x = g.halfNormalReal(lo, hi, focus); keep(x); if (!(x >= lo && x <= hi)) return fail("halfNormalReal outside its bounds"); double m = hi - lo, sg = m / focus, t = (m - (x - lo)) / sg; /* folded at hi */ double F = 2 * (1 - ncdf(t)); if (x > lo) st[0].x.push_back((F - 2 * (1 - ncdf(focus))) / (1 - 2 * (1 - ncdf(focus)))); break; }
      case 7: { int k = g.halfNormalInt(ilo, ihi, focus); keep(k); if (k < ilo || k > ihi) return fail("halfNormalInt outside its bounds"); cnt[k - ilo]++; break; }
      case 8: { double q[4]; g.quaternion(q); for (double v : q) keep(v); e = quat(q[0], q[1], q[2], q[3]); break; }
      case 9: { double q[3]; g.eulerRPY(q); for (double v : q) keep(v); for (double v : q) if (!(std::fabs(v) <= PI)) return fail("Euler angle outside [-pi,pi]"); st[0].x.push_back(q[0] / 2 / PI + .5); st[1].x.push_back((std::sin(q[1]) + 1) / 2); st[2].x.push_back(q[2] / 2 / PI + .5); break; }
      case 10: { g.disk(r0, r1, x, y); keep(x); keep(y); double q = std::hypot(x, y); if (!(q >= r0 * (1 - 1e-9) - 1e-12 && q <= r1 * (1 + 1e-9))) return fail("disk sample outside"); st[0].x.push_back((q * q - r0 * r0) / (r1 * r1 - r0 * r0)); st[1].x.push_back(std::atan2(y, x) / 2 / PI + .5); break; }
      case 11: g.ball(r0, r1, x, y, z); keep(x); keep(y); keep(z); e = inball(x, y, z, r0, r1); break;
      case 12: { if (i % 2) { auto q = se2.sample(); for (int k = 0; k < 3; ++k) keep(q[k]); e = box(0, q[0]); if (e.empty()) e = box(1, q[1]); if (!(std::fabs(q[2]) <= PI)) e = "angle"; st[3].x.push_back(q[2] / 2 / PI + .5); } else { auto q = sr.sample(); for (int k = 0; k < 5; ++k) { keep(q[k]); if (!(q[k] >= L[k] && q[k] <= U[k])) e = "SamplerR outside its bounds"; st[k == 4 ? 4 : 5].x.push_back((q[k] - L[k]) / (U[k] - L[k])); } } break; }
      case 13: { if (i % 2) { auto q = sd.sample(); for (int k = 0; k < 3; ++k) keep(q[k]); double dx = q[0] - l.x + u.x, dy = q[1] - l.y + u.y, w = std::hypot(dx, dy); if (!(w >= r0 * (1 - 1e-9) - 1e-9 && w <= r1 * (1 + 1e-9))) e = "SE2 disk sample outside"; if (!(std::fabs(q[2]) <= PI)) e = "angle"; st[6].x.push_back((w * w - r0 * r0) / (r1 * r1 - r0 * r0)); } else if (i % 4) { auto q = se.sample(); for (int k = 0; k < 6; ++k) keep(q[k]); for (int k = 0; k < 3 && e.empty(); ++k) e = box(k, q[k]); if (e.empty()) e = eul(q[3], q[4], q[5]); } else { auto q = seb.sample(); for (int k = 0; k < 6; ++k) keep(q[k]); double w = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); if (!(w <= r1 * (1 + 1e-9))) e = "SE3 ball sample outside"; if (e.empty()) e = eul(q[3], q[4], q[5]); } break; }
      case 14: { if (i % 2) { auto q = sq.sample(); for (int k = 0; k < 7; ++k) keep(q[k]); for (int k = 0; k < 3 && e.empty(); ++k) e = box(k, q[k]); if (e.empty()) e = quat(q[3], q[4], q[5], q[6]); } else { auto q = sqb.sample(); for (int k = 0; k < 7; ++k) keep(q[k]); double w = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); if (!(w <= r1 * (1 + 1e-9))) e = "SE3 ball sample outside"; if (e.empty()) e = quat(q[3], q[4], q[5], q[6]); } break; }
    }
    if (!e.empty()) return e;
  }
  if (kind == 2 || kind == 7) {   // expected counts per integer
    int m = ihi - ilo + 1; double chi = 0; int df = 0;
    for (int i = 0; i < m; ++i) { double pr = 1.0 / m; if (kind == 7) { double M = m, sg = M / focus; auto F = [&](double v) { return 2 * (1 - ncdf((M - v) / sg)); }; pr = F(i + 1) - (i == 0 ? 0 : F(i)); } double ex = pr * N; if (ex < 8) continue; chi += (cnt[i] - ex) * (cnt[i] - ex) / ex; ++df; }
    if (df > 1 && chi > df + 8 * std::sqrt(2.0 * df) + 20) return vh::fmt("%s counts do not fit: chi2 %.1f for %d values", kind == 2 ? "uniformInt" : "halfNormalInt", chi, df);
  }
  if (kind == 3 && std::fabs(nt - N / 2.) > 3.5 * std::sqrt((double)N)) return vh::fmt("uniformBool: %ld of %d true", nt, N);
  return "";
}
VH_PROP(I06) {
  auto& r = c.rng; uint64_t seed = r.u64(); int N = r.chance(.2) ? 40000 : 8000; fcl::RNG<double>* none = nullptr; (void)none;
  auto child = [&](std::string& out) -> bool {   // a fresh process each: generator seeds are global state
    int fd[2]; if (pipe(fd)) return false; fflush(c.out); pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); fclose(stderr); fcl::RNG<double>::setSeed(1 + seed % 100000); std::vector<Stat> st(8); std::vector<double> raw; std::string desc, e = samplerRun(seed, st, N, raw, desc);
      double worst = 0; int wi = -1, nn = 0; for (int i = 0; i < 8; ++i) if (st[i].x.size() > 500) { ++nn; double k = ks(st[i].x); if (!(k <= worst)) { worst = k; wi = i; } }
      vh::Hash h; for (double v : raw) h.add(v); if (fcl::RNG<double>::getSeed() != 1 + seed % 100000) e = "getSeed() does not return the seed set";
      std::string o = vh::fmt("%llx|%.6f|%d|%d|%d|", (unsigned long long)h.h, worst, wi, nn, (int)raw.size()) + desc + "|" + e; ssize_t w = write(fd[1], o.data(), o.size()); (void)w; _exit(0);
    }
    close(fd[1]); char b[2048]; ssize_t n; out.clear(); while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n); close(fd[0]); int stt = 0; waitpid(pid, &stt, 0); return pid > 0 && WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
  };
  c.phase("samplers"); std::string a, b; if (!child(a)) { c.violation("crash in a generator", a); return; }
  unsigned long long h; double k; int wi, nn, nraw; char rest[1024] = ""; if (std::sscanf(a.c_str(), "%llx|%lf|%d|%d|%d|%1000[^\n]", &h, &k, &wi, &nn, &nraw, rest) < 5) { c.violation("generator produced no report", a); return; }
  std::string rs = rest; size_t bar = rs.find('|'); std::string desc = rs.substr(0, bar), err = bar == std::string::npos ? "" : rs.substr(bar + 1), gen = desc.substr(0, desc.find(" lo")); c.observe(h); c.count("samples", nraw); c.count("distributions tested", nn); c.count(gen); c.maxi("Kolmogorov-Smirnov statistic", k);
  if (!err.empty()) c.violation(gen + "|" + err, a);
  if (!(k < 3.2)) c.violation(gen + "|distribution", vh::fmt("component %d statistic %.3f ", wi, k) + desc);
  if (c.caseno % 4 == 0) { if (!child(b) || a != b) c.violation(gen + "|same seed, other sequence", a + " / " + b); c.count("sequences repeated"); }
  if (c.caseno < 3) c.sample(a);
}
VH_MAIN

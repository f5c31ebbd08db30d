// Octrees: collision, distance, cell enumeration, cost sources.
#include "octx.h"
struct Rep { bool ok = true; std::map<std::pair<intptr_t, intptr_t>, int> n; };
static Rep report(const fcl::CollisionResultd& res, const Side& o, const Side& p) {
  Rep R; for (size_t i = 0; i < res.numContacts(); ++i) { auto& k = res.getContact(i);
    if (k.o1 == o.g.get() && k.o2 == p.g.get()) R.n[{k.b1, k.b2}]++; else if (k.o1 == p.g.get() && k.o2 == o.g.get()) R.n[{k.b2, k.b1}]++; else R.ok = false; }
  return R;
}

// ---------------------------------------------------------------- O01
VH_PROP(O01) {
  auto& r = c.rng; Quiet quiet; const double M = 1.5e-3;
  Side o = randOctSide(r, r.chance(.3) ? 60 : 20, r.uni(.3, 1.5));
  for (int round = 0; round < 2; ++round) {
    Side p = partner(r, o, true); if (p.kind == 2 && p.g == o.g) continue;
    std::map<std::pair<intptr_t, intptr_t>, int> want; int must = 0;
    for (auto& a : o.p) for (auto& b : p.p) { int v = judge(a, b, M); want[{a.id, b.id}] = v; must += v > 0; }
    int s = r.below(2); bool swap = r.chance(.5); std::string key = (swap ? p.name + "-OcTree|" : "OcTree-" + p.name + "|") + sv(s), info = o.info + " | " + p.info;
    auto go = [&](size_t nmax, bool contact, fcl::CollisionResultd& res) {
      fcl::CollisionRequestd q(nmax, contact, 1, false, true, s ? fcl::GST_INDEP : fcl::GST_LIBCCD); c.phase("O01 %s %s", key.c_str(), contact ? "contact" : "plain");
      auto f1 = ft<double>(o.tf), f2 = ft<double>(p.tf);
      return swap ? fcl::collide(p.g.get(), f2, o.g.get(), f1, q, res) : fcl::collide(o.g.get(), f1, p.g.get(), f2, q, res);
    };
    fcl::CollisionResultd all, some, one, det; size_t cap = 1000000;
    size_t n = go(cap, false, all); Rep R = report(all, o, p);
    if (n != all.numContacts()) c.violation(key + "|return value", info);
    if (!R.ok) { c.violation(key + "|objects named", info); continue; }
    std::set<intptr_t> ids, bids; for (auto& a : o.p) ids.insert(a.id); for (auto& b : p.p) bids.insert(b.id);
    bool bad = false;
    for (auto& kv : R.n) {
      if (!ids.count(kv.first.first)) { c.violation(key + "|cell id", vh::fmt("id %lld is no occupied cell ", (long long)kv.first.first) + info); bad = true; break; }
      if (!bids.count(kv.first.second)) { c.violation(key + (p.kind == 2 ? "|cell id" : "|primitive id"), vh::fmt("second id %lld ", (long long)kv.first.second) + info); bad = true; break; }
      if (kv.second > 1) { c.violation(key + "|pair reported twice", info); bad = true; break; }
      if (want[kv.first] < 0) { c.violation(key + "|cells apart reported", vh::fmt("cell %lld with %lld ", (long long)kv.first.first, (long long)kv.first.second) + info); bad = true; break; }
    }
    if (bad) continue;
    for (auto& w : want) if (w.second > 0 && !R.n.count(w.first)) { c.violation(key + "|touching cells missed", vh::fmt("cell %lld with %lld, %d must, %d reported ", (long long)w.first.first, (long long)w.first.second, must, (int)R.n.size()) + info); bad = true; break; }
    if (bad) continue;
    c.count("queries"); c.count("pairs required", must); c.count("pairs excluded", want.size() - must); c.count(must ? "colliding" : "no pair certain"); c.count("partner " + p.name); c.maxi("most pairs", R.n.size()); if (o.oct.far) c.count("far-node trees");
    // limits
    size_t k = r.range(1, std::max(1, (int)R.n.size() + 1)); go(k, false, some);
    if (some.numContacts() != std::min(k, R.n.size())) c.violation(key + "|limit", vh::fmt("limit %d gave %d of %d ", (int)k, (int)some.numContacts(), (int)R.n.size()) + info);
    Rep S = report(some, o, p); for (auto& kv : S.n) if (!R.n.count(kv.first) || kv.second > 1) { c.violation(key + "|limited run reports other pairs", info); break; }
    go(1, false, one); if (one.isCollision() != !R.n.empty()) c.violation(key + "|verdict with one contact", info);
    // with contact data
    go(cap, true, det); Rep C = report(det, o, p); if (!C.ok) { c.violation(key + "|objects named", info); continue; }
    for (auto& kv : C.n) {
      if (!ids.count(kv.first.first) || !bids.count(kv.first.second)) { c.violation(key + "|cell id", "contact run " + info); bad = true; break; }
      if (want[kv.first] < 0) { c.violation(key + "|cells apart reported|contact", info); bad = true; break; }
      int lim = p.kind == 2 || p.shape.k == BOX && p.kind == 0 ? 8 : p.kind == 3 ? 8 : 1; if (kv.second > lim) { c.violation(key + "|pair reported twice|contact", vh::fmt("%d contacts ", kv.second) + info); bad = true; break; }
    }
    if (bad) continue;
    for (auto& w : want) if (w.second > 0 && !C.n.count(w.first)) { c.violation(key + "|touching cells missed|contact", vh::fmt("cell %lld with %lld ", (long long)w.first.first, (long long)w.first.second) + info); bad = true; break; }
    size_t k2 = r.range(1, std::max(1, (int)det.numContacts() + 1)); fcl::CollisionResultd lim; go(k2, true, lim); if (lim.numContacts() != std::min(k2, det.numContacts())) c.violation(key + "|limit|contact", vh::fmt("limit %d gave %d of %d ", (int)k2, (int)lim.numContacts(), (int)det.numContacts()) + info);
    vh::Hash h; h.add(info); h.add(s * 2 + swap); if (must) c.observe(h.h); if (must) c.sample(key + " " + info);
  }
}
// ---------------------------------------------------------------- O02
VH_PROP(O02) {
  auto& r = c.rng; Quiet quiet; const double M = 1.5e-3;
  Side o = randOctSide(r, r.chance(.3) ? 60 : 20, r.uni(.3, 1.5));
  for (int round = 0; round < 2; ++round) {
    Side p = partner(r, o, false);
    if (r.chance(.4)) { V d = randUnit(r) * r.logu(.05, 4); Side q = p; p.tf.t = p.tf.t + d; for (auto& b : p.p) { b.c = b.c + d; if (b.s.k == TRI) for (auto& x : b.s.pts) x = x + d; else b.tf.t = b.tf.t + d; } p.info += " moved " + ref::str(d); }
    int s = r.below(2); bool swap = r.chance(.5); std::string key = (swap ? p.name + "-OcTree|" : "OcTree-" + p.name + "|") + sv(s), info = o.info + " | " + p.info;
    double lo = 1e300, hi = 1e300; bool meets = false;
    if (!o.p.empty() && !p.p.empty()) {
      struct Cand { double lb; int i, j; }; std::vector<Cand> cs; for (size_t i = 0; i < o.p.size(); ++i) for (size_t j = 0; j < p.p.size(); ++j) cs.push_back({norm(o.p[i].c - p.p[j].c) - o.p[i].rad - p.p[j].rad, (int)i, (int)j});
      std::sort(cs.begin(), cs.end(), [](const Cand& a, const Cand& b) { return a.lb < b.lb; });
      for (auto& k : cs) { if (k.lb > hi + 1e-9) break; const Prim &a = o.p[k.i], &b = p.p[k.j]; Dist d = distance(a.s, a.tf, b.s, b.tf); if (d.overlap) { lo = hi = 0; if (!meets) meets = judge(a, b, M) > 0; if (meets) break; } else { lo = std::min(lo, d.lo); hi = std::min(hi, d.hi); } }
    }
    fcl::DistanceRequest<double> q; q.enable_nearest_points = r.chance(.7); q.gjk_solver_type = s ? fcl::GST_INDEP : fcl::GST_LIBCCD; fcl::DistanceResult<double> res;
    c.phase("O02 %s", key.c_str()); auto f1 = ft<double>(o.tf), f2 = ft<double>(p.tf);
    double ret = swap ? fcl::distance(p.g.get(), f2, o.g.get(), f1, q, res) : fcl::distance(o.g.get(), f1, p.g.get(), f2, q, res);
    if (!(ret == res.min_distance)) c.violation(key + "|return value", vh::fmt("%.17g vs %.17g ", ret, res.min_distance) + info);
    vh::Hash h; h.add(info); h.add(s * 2 + swap);
    if (lo > 1e299) { c.count("nothing occupied"); if (!(ret > 1e300)) c.violation(key + "|nothing occupied", vh::fmt("reported %.17g ", ret) + info); continue; }
    if (meets) { c.count("meeting checked"); if (!(ret <= 1e-6)) c.violation(key + "|positive on contact", vh::fmt("reported %.9g ", ret) + info); c.observe(h.h); }
    else if (lo > M) {
      double tol = (s ? 3e-4 : 2e-5) * (1 + hi) + (hi - lo); c.count("separated checked"); c.observe(h.h); c.maxi(std::string("error ") + sv(s), std::fabs(ret - lo));
      if (!(ret > lo - tol && ret < hi + tol)) { c.violation(key + (ret <= 0 ? "|contact reported though apart" : ret < lo ? "|too near" : "|too far"), vh::fmt("reported %.9g, reference %.9g ", ret, lo) + info); continue; }
      c.sample(key + vh::fmt(" %.6g ", ret) + info);
    } else { c.count("too close to call"); continue; }
    // what was named
    intptr_t ia, ib; V pa, pb;
    if (res.o1 == o.g.get() && res.o2 == p.g.get()) { ia = res.b1; ib = res.b2; pa = rv(res.nearest_points[0]); pb = rv(res.nearest_points[1]); }
    else if (res.o1 == p.g.get() && res.o2 == o.g.get()) { ia = res.b2; ib = res.b1; pa = rv(res.nearest_points[1]); pb = rv(res.nearest_points[0]); }
    else { c.violation(key + "|objects named", info); continue; }
    const Prim *A = nullptr, *B = nullptr; for (auto& a : o.p) if (a.id == ia) A = &a; for (auto& b : p.p) if (b.id == ib) B = &b;
    if (!A) { c.violation(key + "|cell id", vh::fmt("id %lld ", (long long)ia) + info); continue; }
    if (!B) { c.violation(key + (p.kind == 2 ? "|cell id" : "|primitive id"), vh::fmt("id %lld ", (long long)ib) + info); continue; }
    Dist d = distance(A->s, A->tf, B->s, B->tf); c.count("cells named checked");
    if (meets ? !d.overlap && d.lo > M : d.lo > hi + 1e-3) { c.violation(key + "|another cell is nearest", vh::fmt("named pair is %.9g apart, least %.9g ", d.lo, hi) + info); continue; }
    if (!meets && q.enable_nearest_points) {
      auto off = [](const Prim& P, const V& x) { return P.s.k == TRI ? norm(x - closestOnTri(x, P.s.pts[0], P.s.pts[1], P.s.pts[2])) : pointOut(x, P.s, P.tf); };
      double e1 = off(*A, pa), e2 = off(*B, pb), e3 = std::fabs(norm(pa - pb) - lo); c.count("nearest points checked"); c.maxi(std::string("nearest point error ") + sv(s), std::max(e1, std::max(e2, e3)));
      if (!(e1 < 2e-3 && e2 < 2e-3 && e3 < 2e-3)) { c.violation(key + "|nearest points", vh::fmt("off the cell by %.3g, off the partner by %.3g, distance of points off by %.3g ", e1, e2, e3) + info); continue; }
      auto* n = o.oct.g->getNodeByQueryCellId(ia, fv<double>(o.tf.inv(pa))); c.count("cells looked up"); if (n != o.oct.leaves[A->ref].node) c.violation(key + "|cell not found from nearest point", info);
    }
  }
}

// ---------------------------------------------------------------- O03
static bool near9(double a, double b, double s) { return std::fabs(a - b) <= 1e-9 * s; }
static void checkCells(vh::Ctx& c, Rng& r, Oct& o, const std::string& info) {
  o.list(); auto& g = *o.g; double scale = 32768 * o.res;
  // enumeration
  std::vector<std::array<double, 6>> want, got = g.toBoxes(); for (auto& k : o.leaves) if (o.occupied(k)) want.push_back({{k.c.x, k.c.y, k.c.z, k.size, octomap::probability(k.lo), 0}});
  if (want.size() != got.size()) { c.violation("toBoxes|count", vh::fmt("%d boxes for %d occupied leaves ", (int)got.size(), (int)want.size()) + info); return; }
  auto w2 = want, g2 = got; for (auto& x : g2) x[5] = 0; for (auto& x : w2) x[5] = 0; std::sort(w2.begin(), w2.end()); std::sort(g2.begin(), g2.end());
  for (size_t i = 0; i < w2.size(); ++i) for (int k = 0; k < 5; ++k) if (!(std::fabs(w2[i][k] - g2[i][k]) <= (k == 4 ? 1e-6 : 1e-9 * (1 + std::fabs(w2[i][k]))))) { c.violation(std::string("toBoxes|") + (k < 3 ? "centre" : k == 3 ? "size" : "occupancy"), vh::fmt("%.12g should be %.12g ", g2[i][k], w2[i][k]) + info); return; }
  c.count("boxes checked", want.size());
  // root box and the tree walked through it
  auto root = g.getRootBV(); g.computeLocalAABB();
  for (auto& k : o.leaves) for (int d = 0; d < 3; ++d) if (!(root.min_[d] <= k.c[d] - k.size / 2 + 1e-9 * scale && root.max_[d] >= k.c[d] + k.size / 2 - 1e-9 * scale && g.aabb_local.min_[d] <= k.c[d] - k.size / 2 + 1e-9 * scale && g.aabb_local.max_[d] >= k.c[d] + k.size / 2 - 1e-9 * scale)) { c.violation("root box", info); return; }
  for (int d = 0; d < 3; ++d) if (!near9(root.max_[d], scale, scale) || !near9(root.min_[d], -scale, scale)) { c.violation("root box", vh::fmt("[%.9g, %.9g], the map spans %.9g ", root.min_[d], root.max_[d], scale) + info); return; }
  for (int k = 0; k < 8; ++k) { V q(k & 1 ? root.max_[0] : root.min_[0], k & 2 ? root.max_[1] : root.min_[1], k & 4 ? root.max_[2] : root.min_[2]); if (norm(q - rv(g.aabb_center)) > g.aabb_radius * (1 + 1e-9)) { c.violation("bounding sphere", info); return; } }
  std::map<const octomap::OcTreeNode*, const Cell*> by; for (auto& k : o.leaves) by[&*k.node] = &k;
  size_t met = 0; std::string bad;
  std::function<void(const octomap::OcTreeNode*, fcl::AABB<double>, unsigned)> walk = [&](const octomap::OcTreeNode* n, fcl::AABB<double> b, unsigned depth) {
    if (!bad.empty()) return;
    if (depth > 16) { bad = "depth"; return; }
    bool kids = false; for (unsigned i = 0; i < 8; ++i) kids |= g.nodeChildExists(n, i);
    if (kids != g.nodeHasChildren(n)) { bad = "nodeHasChildren"; return; }
    int cls = g.isNodeOccupied(n) + g.isNodeFree(n) + g.isNodeUncertain(n); if (cls != 1) { bad = "a node is not exactly one of occupied, free, uncertain"; return; }
    c.count("nodes walked");
    if (!kids) {
      auto it = by.find(n); if (it == by.end()) { bad = "walk reached an unknown leaf"; return; }
      const Cell& k = *it->second; ++met;
      for (int d = 0; d < 3; ++d) if (!near9(b.min_[d], k.c[d] - k.size / 2, 1 + scale * 1e-6) || !near9(b.max_[d], k.c[d] + k.size / 2, 1 + scale * 1e-6)) { bad = vh::fmt("leaf box [%.12g,%.12g] along %d, map says centre %.12g size %.12g", b.min_[d], b.max_[d], d, k.c[d], k.size); return; }
      if (g.isNodeOccupied(n) != o.occupied(k)) { bad = vh::fmt("leaf with log-odds %.6g occupied?", k.lo); return; }
      if (g.isNodeFree(n) != o.isFree(k)) { bad = vh::fmt("leaf with log-odds %.6g free?", k.lo); return; }
      return;
    }
    double best = -1e30; V mid((b.min_[0] + b.max_[0]) / 2, (b.min_[1] + b.max_[1]) / 2, (b.min_[2] + b.max_[2]) / 2); double vol = 0;
    V q(r.uni(b.min_[0], b.max_[0]), r.uni(b.min_[1], b.max_[1]), r.uni(b.min_[2], b.max_[2])); int holds = 0;
    for (unsigned i = 0; i < 8; ++i) {
      fcl::AABB<double> ch; fcl::computeChildBV(b, i, ch); vol += (ch.max_ - ch.min_).prod();
      bool in = true; for (int d = 0; d < 3; ++d) { if (!(ch.min_[d] >= b.min_[d] && ch.max_[d] <= b.max_[d])) { bad = "child box outside its parent"; return; } in = in && ch.min_[d] <= q[d] && q[d] < ch.max_[d]; } holds += in;
      if (g.nodeChildExists(n, i)) { auto* k = g.getNodeChild(n, i); if (!k) { bad = "existing child is null"; return; } best = std::max(best, (double)k->getLogOdds()); walk(k, ch, depth + 1); if (!bad.empty()) return; }
    }
    if (holds != 1) { bad = "child boxes do not tile"; return; }
    if (!(std::fabs(vol / (b.max_ - b.min_).prod() - 1) < 1e-9)) { bad = "child volumes"; return; }
  };
  if (g.getRoot()) walk(g.getRoot(), root, 0);
  if (bad.empty() && met != o.leaves.size()) bad = vh::fmt("walk met %d of %d leaves", (int)met, (int)o.leaves.size());
  if (!bad.empty()) { c.violation("walk|" + bad.substr(0, 25), bad + " " + info); return; }
  // cells found back from their ids
  for (int n = 0; n < 12 && !o.leaves.empty(); ++n) {
    auto& k = o.leaves[r.below(o.leaves.size())]; V at = k.c; int how = r.below(4);
    if (how == 1) at = at + V(r.uni(-.5, .5), r.uni(-.5, .5), r.uni(-.5, .5)) * k.size;
    if (how == 2) at = at + V(r.below(3) - 1, r.below(3) - 1, r.below(3) - 1) * (k.size / 2);
    if (how == 3) { int d = r.below(3); at = at + V(r.uni(-.5, .5), r.uni(-.5, .5), r.uni(-.5, .5)) * k.size; at[d] = k.c[d] + (r.chance(.5) ? .5 : -.5) * k.size * (1 + r.uni(-1e-6, 1e-6)); }
    fcl::AABB<double> box; octomap::OcTreeKey key; unsigned depth = 99; bool full = r.chance(.7);
    auto* f = full ? g.getNodeByQueryCellId(k.id, fv<double>(at), &box, &key, &depth) : g.getNodeByQueryCellId(k.id, fv<double>(at)); c.count("lookups");
    const char* hn[] = {"centre", "inside", "corner or edge", "face"};
    if (f != k.node) { c.violation(std::string("lookup|") + hn[how] + (f ? "|wrong node" : "|not found"), vh::fmt("cell size %.6g depth %u ", k.size, k.depth) + info); return; }
    if (full) { for (int d = 0; d < 3; ++d) if (!near9(box.min_[d], k.c[d] - k.size / 2, 1) || !near9(box.max_[d], k.c[d] + k.size / 2, 1) || key[d] != k.key[d]) { c.violation("lookup|box or key", info); return; } if (depth != k.depth) { c.violation("lookup|depth", vh::fmt("%u not %u ", depth, k.depth) + info); return; } }
    V away = at; away[r.below(3)] += (r.chance(.5) ? 1 : -1) * (k.size + o.res * r.uni(1.6, 5));
    if (g.getNodeByQueryCellId(k.id, fv<double>(away))) { bool close = true; for (int d = 0; d < 3; ++d) close = close && std::fabs(away[d] - k.c[d]) < k.size / 2 + 2 * o.res + 1e-9; if (!close) { c.violation("lookup|found from a far point", info); return; } }
    intptr_t wrong = k.id + 1 + r.below(3); bool known = false; for (auto& x : o.leaves) known |= x.id == wrong; if (!known && g.getNodeByQueryCellId(wrong, fv<double>(at))) { c.violation("lookup|found a wrong id", info); return; }
  }
  c.count("maps checked"); if (o.far) c.count("far-node maps");
}
VH_PROP(O03) {
  auto& r = c.rng; Quiet quiet; Oct o = randOct(r, r.chance(.1) ? 300 : 40, r.uni(.2, 3)); c.phase("O03");
  if (r.chance(.3)) { double p = r.uni(.05, .95); o.g->setOccupancyThres(p); if (!(std::fabs(o.g->getOccupancyThres() - p) < 1e-6)) c.violation("threshold|occupancy", vh::fmt("%.9g set, %.9g read ", p, o.g->getOccupancyThres())); o.occ = std::log(p / (1 - p)); }
  if (r.chance(.3)) { double p = r.uni(.05, .95); o.g->setFreeThres(p); if (!(std::fabs(o.g->getFreeThres() - p) < 1e-6)) c.violation("threshold|free", vh::fmt("%.9g set, %.9g read ", p, o.g->getFreeThres())); o.fre = std::log(p / (1 - p)); }
  if (o.g->getDefaultOccupancy() != o.t->getOccupancyThres()) c.violation("default occupancy", "initial"); if (r.chance(.3)) { double p = r.u(); o.g->setCellDefaultOccupancy(p); if (o.g->getDefaultOccupancy() != p) c.violation("default occupancy", "after set"); }
  if (o.g->getObjectType() != fcl::OT_OCTREE || o.g->getNodeType() != fcl::GEOM_OCTREE) c.violation("type", "");
  auto clear = [&] { for (auto& k : o.leaves) if (std::fabs(k.lo - o.occ) < 1e-5 || std::fabs(k.lo - o.fre) < 1e-5) return false; return true; };
  int rounds = r.range(1, 4); vh::Hash h; h.add(o.str());
  for (int i = 0; i < rounds; ++i) {
    std::string info = o.str() + vh::fmt(" after %d changes", i); for (auto& k : o.leaves) { h.add(k.c.x); h.add((double)k.lo); } c.observe(h.h);
    if (clear()) { checkCells(c, r, o, info); if (i == 0) c.sample(info); } else c.count("skipped: value at a threshold");
    // change the map
    int how = r.below(5);
    if (how == 0) fill(r, o, r.range(1, 30), r.uni(.2, 3));
    else if (how == 1) for (auto& k : o.leaves) { if (r.chance(.4)) o.t->updateNode(octomap::point3d(k.c.x, k.c.y, k.c.z), r.chance(.5)); }
    else if (how == 2) o.t->expand();
    else if (how == 3) { o.t->prune(); }
    else fill(r, o, r.range(1, 4), .2);
    o.t->updateInnerOccupancy(); o.list(); h.add(how);
  }
}
// ---------------------------------------------------------------- O04
struct Bx { V lo, hi; };
static Bx meet(const Bx& a, const Bx& b) { Bx r; for (int d = 0; d < 3; ++d) { r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } return r; }
static Bx join(const Bx& a, const Bx& b) { Bx r; for (int d = 0; d < 3; ++d) { r.lo[d] = std::min(a.lo[d], b.lo[d]); r.hi[d] = std::max(a.hi[d], b.hi[d]); } return r; }
static bool within(const Bx& in, const Bx& out, double t) { for (int d = 0; d < 3; ++d) if (!(in.lo[d] >= out.lo[d] - t && in.hi[d] <= out.hi[d] + t)) return false; return true; }
static Bx tight(const Prim& p) { Bx b; for (int d = 0; d < 3; ++d) { V e; e[d] = 1; double mn, mx; extentAlong(p.s, p.tf, e, mn, mx); b.lo[d] = mn; b.hi[d] = mx; } return b; }
static Bx lib(const Prim& p, const Side& s) {   // the library's box of a primitive
  if (s.kind) return tight(p);
  fcl::AABB<double> b; auto f = ft<double>(s.tf); auto* g = s.g.get();
  switch (s.shape.k) {
    case SPHERE: fcl::computeBV(*(fcl::Sphered*)g, f, b); break; case BOX: fcl::computeBV(*(fcl::Boxd*)g, f, b); break; case ELLIPSOID: fcl::computeBV(*(fcl::Ellipsoidd*)g, f, b); break;
    case CAPSULE: fcl::computeBV(*(fcl::Capsuled*)g, f, b); break; case CONE: fcl::computeBV(*(fcl::Coned*)g, f, b); break; case CYLINDER: fcl::computeBV(*(fcl::Cylinderd*)g, f, b); break; default: fcl::computeBV(*(fcl::Convexd*)g, f, b);
  }
  return {rv(b.min_), rv(b.max_)};
}
static int judgeAny(const Prim& a, const Prim& b) {
  if (norm(a.c - b.c) > a.rad + b.rad + 1e-3) return -1;
  if (a.s.k == TRI && b.s.k == TRI) { double s = triSAT(&a.s.pts[0], &b.s.pts[0]); return s < -1e-6 ? 1 : s > 1e-5 ? -1 : 0; }
  if (a.s.k == BOX && b.s.k == BOX && 0) return 0;
  Dist d = distance(a.s, a.tf, b.s, b.tf); if (!d.overlap) return d.lo > 5e-4 ? -1 : 0;
  Depth q = depth(a.s, a.tf, b.s, b.tf, 2e-4); return q.lo > 1e-3 ? 1 : 0;
}
static double density(Rng& r) { double u = r.u(); return u < .45 ? 1 : u < .65 ? r.uni(1, 3) : u < .93 ? r.uni(.05, .95) : 0; }
VH_PROP(O04) {
  auto& r = c.rng; Quiet quiet; int kind = r.below(10); // 0-2 shapes, 3-4 mesh-shape, 5-6 mesh-mesh, 7-8 octree-shape/mesh, 9 octree-octree
  Side a, b; auto rs = [&](double lo, double hi) { return randShape(r, scene::randKind(r), lo, hi); };
  if (kind < 3) { scene::Pair p = scene::randPair(r, scene::randKind(r), scene::randKind(r), r.chance(.3) ? scene::GAP : r.chance(.5) ? scene::SHALLOW : scene::ANY); a = shapeSide(p.a, p.ta); b = shapeSide(p.b, p.tb); }
  else if (kind < 5) { Mesh m = goodMesh(r, 14, r.uni(.3, 1.5)); T ta = randPose(r, 2); a = meshSide(r, m, r.below(8), ta); T tb = randPose(r, 0); tb.t = ta(m.v[r.below(m.v.size())]) + randIn(r, .6); b = shapeSide(rs(.2, 1.5), tb); }
  else if (kind < 7) { Mesh m = goodMesh(r, 20, r.uni(.3, 1.5)), n = goodMesh(r, 20, r.uni(.3, 1.5)); int ty = r.below(8); T ta = randPose(r, 2), tb = randPose(r, 0); tb.t = ta(m.v[r.below(m.v.size())]) + randIn(r, .6); a = meshSide(r, m, ty, ta); b = meshSide(r, n, ty, tb); }
  else if (kind < 9) { a = randOctSide(r, 12, r.uni(.3, 1)); do b = partner(r, a, false); while (b.kind == 2); }
  else { a = randOctSide(r, 2, .3); Oct q = randOct(r, 2, .3); T tf = randPose(r, 0); tf.t = a.tf(a.oct.leaves.empty() ? V() : a.oct.leaves[0].c) - tf.R * (q.leaves.empty() ? V() : q.leaves[0].c) + randIn(r, .3); b = octSide(r, q, tf); if (a.oct.leaves.size() > 10 || b.oct.leaves.size() > 10) { c.count("skipped: big pair of trees"); return; } }
  bool oa = a.kind == 2, ob = b.kind == 2;
  double da = oa ? 1 : density(r), db = ob ? 1 : density(r); a.g->cost_density = da; b.g->cost_density = db; auto setThr = [&](Side& s, double d) { if (s.kind != 2 && r.chance(.2)) { s.g->threshold_occupied = r.uni(.3, 2); s.g->threshold_free = r.uni(0, .3); } }; setThr(a, da); setThr(b, db);
  bool occA = oa || da >= a.g->threshold_occupied, occB = ob || db >= b.g->threshold_occupied, freeA = !oa && da <= a.g->threshold_free, freeB = !ob && db <= b.g->threshold_free;
  if (oa) { a.p.clear(); int i = 0; for (auto& k : a.oct.leaves) { if (!a.oct.isFree(k)) { T t; t.R = a.tf.R; t.t = a.tf(k.c); a.p.push_back({boxShape(V(k.size, k.size, k.size)), t, t.t, k.size * std::sqrt(3.) / 2, k.id, i}); } ++i; } }
  if (ob) { b.p.clear(); int i = 0; for (auto& k : b.oct.leaves) { if (!b.oct.isFree(k)) { T t; t.R = b.tf.R; t.t = b.tf(k.c); b.p.push_back({boxShape(V(k.size, k.size, k.size)), t, t.t, k.size * std::sqrt(3.) / 2, k.id, i}); } ++i; } }
  bool approx = (a.kind == 1 || b.kind == 1) && r.chance(.35), swap = a.kind != b.kind && r.chance(.5); int s = r.below(2);
  std::string nm = a.name, nn = b.name; if (a.kind == 1) nm = "Mesh"; if (b.kind == 1) nn = "Mesh"; if (a.kind == 0 && b.kind == 0) { nm = nn = "Shape"; } else { if (a.kind == 0) nm = "Shape"; if (b.kind == 0) nn = "Shape"; }
  std::string key = (swap ? nn + "-" + nm : nm + "-" + nn) + (approx ? "|approximate|" : "|") + sv(s), info = a.info + " | " + b.info + vh::fmt(" densities %.4g %.4g", da, db);
  auto go = [&](size_t nmax, bool contact, bool cost, size_t ncost, fcl::CollisionResultd& res) {
    fcl::CollisionRequestd q(nmax, contact, ncost, cost, approx, s ? fcl::GST_INDEP : fcl::GST_LIBCCD); c.phase("O04 %s %s", key.c_str(), contact ? "contact" : "plain"); auto f1 = ft<double>(a.tf), f2 = ft<double>(b.tf);
    return swap ? fcl::collide(b.g.get(), f2, a.g.get(), f1, q, res) : fcl::collide(a.g.get(), f1, b.g.get(), f2, q, res);
  };
  size_t cap = 1000000, nmax = r.chance(.5) ? cap : r.range(1, 5); bool contact = r.chance(.3); fcl::CollisionResultd with, without, lim;
  go(nmax, contact, true, cap, with); go(nmax, contact, false, cap, without);
  // contacts unaffected
  auto tie = [](const fcl::Contact<double>& k, bool pos) { return std::make_tuple(k.o1, k.o2, k.b1, k.b2, pos ? k.pos[0] : 0, pos ? k.penetration_depth : 0); };
  if (with.numContacts() != without.numContacts()) { c.violation(key + "|contacts change with cost", vh::fmt("%d with, %d without ", (int)with.numContacts(), (int)without.numContacts()) + info); return; }
  { std::multiset<std::tuple<const CG*, const CG*, intptr_t, intptr_t, double, double>> x, y; for (size_t i = 0; i < with.numContacts(); ++i) { x.insert(tie(with.getContact(i), contact)); y.insert(tie(without.getContact(i), contact)); } if (x != y) { c.violation(key + "|contacts change with cost", info); return; } }
  if (without.numCostSources()) { c.violation(key + "|sources without asking", info); return; }
  if ((!occA || !occB) && with.numContacts()) { c.violation(key + "|contact with an object not occupied", info); return; }
  std::vector<fcl::CostSource<double>> src, few; with.getCostSources(src); if (src.size() != with.numCostSources()) c.violation(key + "|source count", info);
  vh::Hash h; h.add(info); h.add(key); c.observe(h.h); c.count("runs " + nm + "-" + nn); c.count("sources", src.size());
  if ((freeA || freeB) && !src.empty()) { c.violation(key + "|source from a free object", info); return; }
  // the primitives' boxes
  struct PP { Bx t, l; }; auto boxes = [&](const Side& s) { std::vector<PP> v; for (auto& p : s.p) v.push_back({tight(p), lib(p, s)}); return v; }; auto ba = boxes(a), bb = boxes(b);
  auto rootOf = [&](const Side& s) { auto g = s.oct.g->getRootBV(); Bx r; r.lo = V(1e300, 1e300, 1e300); r.hi = r.lo * -1; for (int k = 0; k < 8; ++k) { V q = s.tf(V(k & 1 ? g.max_[0] : g.min_[0], k & 2 ? g.max_[1] : g.min_[1], k & 4 ? g.max_[2] : g.min_[2])); r = join(r, {q, q}); } return r; };
  auto whole = [&](const Side& s, const std::vector<PP>& v) { if (s.kind == 2) return rootOf(s); Bx r; r.lo = V(1e300, 1e300, 1e300); r.hi = r.lo * -1; for (auto& p : v) r = join(r, p.l); return r; };
  Bx wa = whole(a, ba), wb = whole(b, bb), all = meet(wa, wb);
  auto densOf = [&](const Side& s, const Prim& p, double d) { return s.kind == 2 ? (double)s.oct.leaves[p.ref].node->getOccupancy() : d; };
  double ua = oa ? a.oct.g->getOccupancyThres() : da, ub = ob ? b.oct.g->getOccupancyThres() : db;
  auto eq = [](double x, double y) { return std::fabs(x - y) <= 1e-6 * (1 + std::fabs(y)); };
  std::vector<std::vector<int>> J(a.p.size(), std::vector<int>(b.p.size())); int must = 0, may = 0; for (size_t i = 0; i < a.p.size(); ++i) for (size_t j = 0; j < b.p.size(); ++j) { J[i][j] = freeA || freeB ? -1 : judgeAny(a.p[i], b.p[j]); must += J[i][j] > 0; may += J[i][j] == 0; }
  double T9 = 1e-9 * (10 + (oa || ob ? 3e4 : 0));
  for (auto& k : src) {
    Bx x{rv(k.aabb_min), rv(k.aabb_max)}; double vol = (x.hi.x - x.lo.x) * (x.hi.y - x.lo.y) * (x.hi.z - x.lo.z);
    std::string at = vh::fmt("box [%.9g,%.9g][%.9g,%.9g][%.9g,%.9g] density %.9g total %.9g ", x.lo.x, x.hi.x, x.lo.y, x.hi.y, x.lo.z, x.hi.z, k.cost_density, k.total_cost);
    if (!(x.lo.x <= x.hi.x && x.lo.y <= x.hi.y && x.lo.z <= x.hi.z)) { bool sliver = x.lo.x <= x.hi.x + 1e-3 && x.lo.y <= x.hi.y + 1e-3 && x.lo.z <= x.hi.z + 1e-3; if (!sliver) { c.violation(key + "|source box inside out", at + info); return; } }
    if (!(std::fabs(k.total_cost - k.cost_density * vol) <= 1e-9 * (1e-9 + std::fabs(k.total_cost)))) { c.violation(key + "|total is not density times volume", at + info); return; }
    if (approx) {
      // the mesh is replaced by the box of its hierarchy's root
      const Bx& w = a.kind == 1 ? wb : wa; if (a.kind != b.kind && !within(x, w, T9)) { c.violation(key + "|source outside the overlap", at + info); return; }
      if (!(eq(k.cost_density, ua * ub) || oa && std::any_of(a.oct.leaves.begin(), a.oct.leaves.end(), [&](const Cell& l) { return eq(k.cost_density, l.node->getOccupancy() * db); }))) { c.violation(key + "|density", at + info); return; }
      continue;
    }
    if (!within(x, all, T9)) { c.violation(key + "|source outside the overlap", at + info); return; }
    bool ok = false; for (size_t i = 0; i < a.p.size() && !ok; ++i) for (size_t j = 0; j < b.p.size() && !ok; ++j) if (J[i][j] >= 0 && eq(k.cost_density, densOf(a, a.p[i], da) * densOf(b, b.p[j], db)) && within(meet(ba[i].t, bb[j].t), x, T9) && within(x, meet(ba[i].l, bb[j].l), T9)) ok = true;
    if (!ok && (oa || ob) && eq(k.cost_density, ua * ub)) { ok = true; c.count("sources of unknown space"); }
    if (!ok) { c.violation(key + "|source of no meeting pair", at + info); return; }
  }
  if (!approx) for (size_t i = 0; i < a.p.size(); ++i) for (size_t j = 0; j < b.p.size(); ++j) if (J[i][j] > 0) {
    double d = densOf(a, a.p[i], da) * densOf(b, b.p[j], db); bool ok = false; for (auto& k : src) { Bx x{rv(k.aabb_min), rv(k.aabb_max)}; if (eq(k.cost_density, d) && within(meet(ba[i].t, bb[j].t), x, T9) && within(x, meet(ba[i].l, bb[j].l), T9)) { ok = true; break; } }
    c.count("meeting pairs"); if (!ok) { c.violation(key + "|meeting pair without source", vh::fmt("pair %d %d, %d sources ", (int)i, (int)j, (int)src.size()) + info); return; }
  }
  if (approx && must && src.empty()) { c.violation(key + "|meeting objects without source", info); return; }
  // a limit keeps the dearest
  size_t k = r.range(1, (int)src.size() + 1); go(nmax, contact, true, k, lim); lim.getCostSources(few);
  if (few.size() != std::min(k, src.size())) { c.violation(key + "|limit", vh::fmt("limit %d gave %d of %d ", (int)k, (int)few.size(), (int)src.size()) + info); return; }
  std::vector<double> x, y; for (auto& q : src) x.push_back(q.total_cost); for (auto& q : few) y.push_back(q.total_cost); std::sort(x.rbegin(), x.rend()); std::sort(y.rbegin(), y.rend());
  for (size_t i = 0; i < y.size(); ++i) if (x[i] != y[i]) { c.violation(key + "|limit kept a cheaper source", vh::fmt("%.9g instead of %.9g ", y[i], x[i]) + info); return; }
  c.count("limited runs"); if (!src.empty()) c.sample(key + vh::fmt(" %d sources ", (int)src.size()) + info);
}
VH_MAIN

// Triangle meshes: bounding-volume hierarchies, mesh-mesh and mesh-shape queries, construction protocol.
#include "bvx.h"
#include <set>
#include <iostream>
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace fx; using namespace bvx;
struct Quiet { std::ios_base::iostate s; Quiet() : s(std::cerr.rdstate()) { std::cerr.setstate(std::ios_base::failbit); } ~Quiet() { std::cerr.clear(s); } };

// ---------------------------------------------------------------- M01
// every node encloses the points of the primitives below it (both frames), leaves partition the primitives
template <class B> static bool checkTree(vh::Ctx& c, const fcl::BVHModel<B>& g, double scale, const std::string& info) {
  bool tris = g.getModelType() == fcl::BVH_MODEL_TRIANGLES; int np = tris ? g.num_tris : g.num_vertices; std::string nm = std::string(Name<B>::s()) + "|";
  if (g.getNumBVs() != 2 * np - 1) { c.violation(nm + "number of nodes", vh::fmt("%d nodes for %d primitives ", g.getNumBVs(), np) + info); return false; }
  std::vector<int> seen(np, 0), visited(g.getNumBVs(), 0); double worst = 0; bool ok = true; std::string bad;
  std::function<std::vector<int>(int, int)> rec = [&](int id, int depth) -> std::vector<int> {
    if (id < 0 || id >= g.getNumBVs() || visited[id]++ || depth > np + 2) { ok = false; bad = "child links"; return {}; }
    const auto& nd = g.getBV(id); std::vector<int> prim;
    if (nd.isLeaf()) { int p = nd.primitiveId(); if (p < 0 || p >= np) { ok = false; bad = "primitive id"; return {}; } if (seen[p]++) { ok = false; bad = "primitive twice"; } prim.push_back(p); }
    else { prim = rec(nd.leftChild(), depth + 1); if (!ok) return {}; auto q = rec(nd.rightChild(), depth + 1); prim.insert(prim.end(), q.begin(), q.end()); }
    if (!ok) return {};
    if (nd.num_primitives != (int)prim.size()) { ok = false; bad = "primitive count of a node"; return {}; }
    std::set<int> vs; for (int p : prim) if (tris) for (int k = 0; k < 3; ++k) vs.insert((int)g.tri_indices[p][k]); else vs.insert(p);
    for (int v : vs) for (int f = 0; f < (g.prev_vertices ? 2 : 1); ++f) {
      V x = rv((f ? g.prev_vertices : g.vertices)[v]); double o = out(nd.bv, x); c.count("points checked");
      if (!(o <= worst)) worst = o;
      if (!(o <= scale * 1e-9)) { ok = false; bad = nd.isLeaf() ? "point outside a leaf volume" : id ? "point outside an inner volume" : "point outside the root volume"; if (f) bad += " (previous frame)"; bad += vh::fmt(": by %.6g of scale %.3g, %d primitives below", o, scale, (int)prim.size()); return {}; }
      if (!selfContain(nd.bv, fv<double>(x))) c.count("points on the border by the volume's own test");
    }
    return prim;
  };
  rec(0, 0); c.maxi(std::string("excess/scale ") + Name<B>::s(), worst / scale);
  if (ok) for (int p = 0; p < np; ++p) if (seen[p] != 1) { ok = false; bad = "primitive missing"; }
  if (!ok) { c.violation(nm + bad.substr(0, bad.find(':')), bad + " " + info); return false; }
  c.count("hierarchies checked"); return true;
}
template <class B> static void m01(vh::Ctx& c) {
  auto& r = c.rng; using namespace fcl; Quiet quiet;
  int kind = r.below(7); double size = r.logu(.5, 3), mag = 1; Mesh m = randMesh(r, kind, r.chance(.15) ? 200 : r.chance(.2) ? 3 : 40, size);
  V off; if (r.chance(.25)) off = randIn(r, r.logu(1, 1000)); if (r.chance(.2)) mag = r.logu(1e-3, 1e3);
  T pose = randPose(r, 0); bool rot = r.chance(.6);
  for (auto& v : m.v) { if (rot) v = pose.R * v; v = v * mag + off; }
  bool cloud = r.chance(.25); if (cloud) { m.t.clear(); if (r.chance(.3)) m.v.resize(std::min<size_t>(m.v.size(), r.range(1, 4))); if (r.chance(.2)) for (auto& v : m.v) if (r.chance(.4)) v = m.v[0]; }
  double scale = 0; for (auto& v : m.v) scale = std::max(scale, norm(v));
  std::string info = Name<B>::s() + std::string(cloud ? " cloud " : " ") + mstr(m) + vh::fmt(" scale %.3g:", scale);
  c.phase("M01 build %s %s", Name<B>::s(), cloud ? "cloud" : m.kind.c_str());
  std::shared_ptr<BVHModel<B>> g;
  if (cloud) { g = std::make_shared<BVHModel<B>>(); int sm = r.below(4); if (sm) g->bv_splitter.reset(new detail::BVSplitter<B>(sm == 1 ? detail::SPLIT_METHOD_MEAN : sm == 2 ? detail::SPLIT_METHOD_MEDIAN : detail::SPLIT_METHOD_BV_CENTER)); g->beginModel(); for (auto& v : m.v) g->addVertex(fv<double>(v)); g->endModel(); }
  else g = build<B>(r, m);
  vh::Hash h; h.add(std::string(Name<B>::s())); for (auto& v : m.v) h.add(v.x); c.observe(h.h);
  if (!checkTree(c, *g, scale + 1e-300, info + " built")) return;
  int rounds = r.below(4);
  for (int k = 0; k < rounds; ++k) {
    T mv = randPose(r, size * mag); int how = r.below(3); std::vector<E> nv; for (int i = 0; i < g->num_vertices; ++i) { V x = rv(g->vertices[i]); if (how == 0) x = mv(x); else if (how == 1) x = x + randIn(r, .3 * size * mag); else if (r.chance(.2)) x = x + randIn(r, 3 * size * mag); nv.push_back(fv<double>(x)); scale = std::max(scale, norm(x)); }
    bool upd = g->build_state == BVH_BUILD_STATE_UPDATED || r.chance(.5), refit = r.chance(.7), bottom = r.chance(.5); int rc;
    c.phase("M01 %s %s %s", upd ? "update" : "replace", refit ? "refit" : "rebuild", bottom ? "bottom-up" : "top-down");
    if (upd) { g->beginUpdateModel(); g->updateSubModel(nv); rc = g->endUpdateModel(refit, bottom); } else { g->beginReplaceModel(); g->replaceSubModel(nv); rc = g->endReplaceModel(refit, bottom); }
    info += vh::fmt(" %s(refit %d bottom-up %d)", upd ? "updated" : "replaced", refit, bottom); if (rc != BVH_OK) { c.violation("return code", info); return; }
    c.count(upd ? "updates" : "replacements"); h.add(k); h.add(nv[0][0]); c.observe(h.h);
    if (!checkTree(c, *g, scale + 1e-300, info)) return;
    if (r.chance(.2)) { c.phase("M01 copy"); g = std::make_shared<BVHModel<B>>(*g); info += " copied"; if (!checkTree(c, *g, scale + 1e-300, info)) return; }
  }
  if (c.caseno < 8) c.sample(info);
}
VH_PROP(M01) { switch (c.caseno % 8) { case 0: m01<AABB>(c); break; case 1: m01<OBB>(c); break; case 2: m01<RSS>(c); break; case 3: m01<OBBRSS>(c); break; case 4: m01<kIOS>(c); break; case 5: m01<K16>(c); break; case 6: m01<K18>(c); break; default: m01<K24>(c); } }

// ---------------------------------------------------------------- helpers for M02..M04
static std::vector<std::array<V, 3>> world(const Mesh& m, const T& t) { std::vector<std::array<V, 3>> o; for (auto& x : m.t) o.push_back({t(m.v[x[0]]), t(m.v[x[1]]), t(m.v[x[2]])}); return o; }
static int meshKind(Rng& r) { static const int k[] = {0, 0, 1, 2, 3, 5, 6}; return k[r.below(7)]; }
static V centre(const Mesh& m) { V s; for (auto& v : m.v) s = s + v; return s * (1. / m.v.size()); }
static double rad(const Mesh& m) { double x = 0; for (auto& v : m.v) x = std::max(x, norm(v)); return x; }
static T poseFor(Rng& r) { T t = randPose(r, 3); if (r.chance(.15)) t = T(); else if (r.chance(.15)) t.R = M(); else if (r.chance(.1)) t.t = V(); return t; }

// ---------------------------------------------------------------- M02
VH_PROP(M02) {
  auto& r = c.rng; using namespace fcl; int bt = c.caseno % 8;
  Mesh a = randMesh(r, meshKind(r), r.chance(.1) ? 80 : 24), b = r.chance(.05) ? a : randMesh(r, meshKind(r), r.chance(.1) ? 80 : 24);
  T ta = poseFor(r), tb = poseFor(r); double u = r.u();
  if (u < .6) { int i = r.below(a.v.size()), j = r.below(b.v.size()); tb.t = tb.t + ta(a.v[i]) - tb(b.v[j]) + randIn(r, r.logu(1e-2, 1)); }   // surfaces meet
  else if (u < .75) tb.t = ta.t + randIn(r, .5);
  else tb.t = ta.t + randUnit(r) * ((rad(a) + rad(b)) * r.uni(.3, 1.2));
  auto wa = world(a, ta), wb = world(b, tb);
  std::set<std::pair<int, int>> must, may;
  for (size_t i = 0; i < wa.size(); ++i) for (size_t j = 0; j < wb.size(); ++j) { double s = triSAT(wa[i].data(), wb[j].data()); if (s < -1e-6) must.insert({i, j}); else if (!(s > 1e-5)) may.insert({i, j}); }
  auto g1 = buildAny(r, a, bt), g2 = buildAny(r, b, bt); auto f1 = ft<double>(ta), f2 = ft<double>(tb);
  bool same = false; if (r.chance(.03)) same = true;
  CollisionRequest<double> q; q.num_max_contacts = 1000000; q.enable_contact = r.chance(.5); q.gjk_solver_type = r.chance(.5) ? GST_LIBCCD : GST_INDEP; (void)same;
  int bounded = r.chance(.5) ? 1 : r.range(1, 2 + (int)must.size());
  vh::Hash h; h.add(bt); for (auto& v : a.v) h.add(v.x); h.add(tb.t.x); h.add(ta.t.y); c.observe(h.h);
  std::string nm = tname(bt), info = nm + vh::fmt(" contact %d: ", q.enable_contact) + mstr(a) + " / " + mstr(b) + vh::fmt(", %d pairs intersect, %d undecided", (int)must.size(), (int)may.size());
  c.phase("M02 mesh-mesh collide %s", nm.c_str());
  CollisionResult<double> res; size_t n;
  if (r.chance(.5)) { CollisionObject<double> o1(g1, f1), o2(g2, f2); n = collide(&o1, &o2, q, res); } else n = collide(g1.get(), f1, g2.get(), f2, q, res);
  c.count("queries"); c.count("intersecting pairs required", must.size()); c.count("pairs judged", wa.size() * wb.size() - may.size()); if (must.empty() && may.empty()) c.count("disjoint mesh pairs");
  if (n != res.numContacts() || res.isCollision() != (res.numContacts() > 0)) { c.violation(nm + "|return value", info); return; }
  std::map<std::pair<int, int>, int> got;
  for (size_t i = 0; i < res.numContacts(); ++i) {
    auto& k = res.getContact(i); std::pair<int, int> id(k.b1, k.b2); ++got[id];
    if (k.o1 != g1.get() || k.o2 != g2.get()) { c.violation(nm + "|contact names other geometries", info); return; }
    if (!must.count(id) && !may.count(id)) { c.violation(nm + "|contact of triangles that do not meet", vh::fmt("(%d,%d) ", id.first, id.second) + info); return; }
    if (q.enable_contact) {
      auto& A = wa[id.first]; auto& B = wb[id.second]; V p = rv(k.pos), nn = rv(k.normal);
      double off = std::min(norm(closestOnTri(p, A[0], A[1], A[2]) - p), norm(closestOnTri(p, B[0], B[1], B[2]) - p));
      if (must.count(id)) { c.count("contact points checked"); if (!(off < 1e-5)) { c.violation(nm + "|contact point off its triangles", vh::fmt("by %.6g ", off) + info); return; }
        V na = unit(cross(A[1] - A[0], A[2] - A[0])), nb = unit(cross(B[1] - B[0], B[2] - B[0])); double al = std::max(std::fabs(dot(nn, na)), std::fabs(dot(nn, nb)));
        if (!(std::fabs(norm(nn) - 1) < 1e-6 && al > 1 - 1e-6)) { c.violation(nm + "|contact normal is no triangle's", info); return; } }
    }
  }
  for (auto& x : must) if (!got.count(x)) { c.violation(nm + "|intersecting pair missed", vh::fmt("(%d,%d) depth %.6g ", x.first, x.second, -triSAT(wa[x.first].data(), wb[x.second].data())) + info); return; }
  for (auto& x : got) if (x.second > (q.enable_contact ? 2 : 1)) { c.violation(nm + "|pair reported repeatedly", vh::fmt("(%d,%d) %d times ", x.first.first, x.first.second, x.second) + info); return; }
  // bounded query
  CollisionRequest<double> q2 = q; q2.num_max_contacts = bounded; CollisionResult<double> r2; c.phase("M02 bounded %s", nm.c_str()); size_t n2 = collide(g1.get(), f1, g2.get(), f2, q2, r2); c.count("bounded queries");
  size_t want = std::min<size_t>(bounded, res.numContacts()); if (n2 != want || r2.numContacts() != want) c.violation(nm + "|bounded query", vh::fmt("asked for %d of %d, got %d ", bounded, (int)res.numContacts(), (int)r2.numContacts()) + info);
  for (size_t i = 0; i < r2.numContacts(); ++i) { auto& k = r2.getContact(i); if (!got.count({(int)k.b1, (int)k.b2})) { c.violation(nm + "|bounded query reports another pair", info); break; } }
  if (c.caseno < 4) c.sample(info);
}

// ---------------------------------------------------------------- M03
VH_PROP(M03) {
  auto& r = c.rng; using namespace fcl; static const int types[] = {0, 2, 3, 4}; int bt = types[c.caseno % 4];
  Mesh a = randMesh(r, meshKind(r), r.chance(.1) ? 80 : 24), b = r.chance(.05) ? a : randMesh(r, meshKind(r), r.chance(.1) ? 80 : 24);
  T ta = poseFor(r), tb = poseFor(r); double u = r.u(); V dir = randUnit(r);
  tb.t = ta.t + dir * ((rad(a) + rad(b)) * (u < .6 ? r.uni(.5, 1.1) : r.uni(1, 4)) + (u < .2 ? r.logu(1e-3, 1) : 0));
  if (r.chance(.15)) tb.R = ta.R;
  auto wa = world(a, ta), wb = world(b, tb); double D = 1e300; V x, y; bool hit = false;
  for (auto& s : wa) for (auto& t : wb) { double d = triTri(s.data(), t.data(), x, y); D = std::min(D, d); if (triSAT(s.data(), t.data()) < -1e-6) hit = true; }
  auto g1 = buildAny(r, a, bt), g2 = buildAny(r, b, bt); auto f1 = ft<double>(ta), f2 = ft<double>(tb);
  DistanceRequest<double> q; q.enable_nearest_points = r.chance(.7); if (r.chance(.25)) q.rel_err = r.logu(1e-3, .5); if (r.chance(.25)) q.abs_err = r.logu(1e-3, .5); q.gjk_solver_type = r.chance(.5) ? GST_LIBCCD : GST_INDEP; DistanceResult<double> res;
  vh::Hash h; h.add(bt); for (auto& v : a.v) h.add(v.x); h.add(tb.t.x); h.add(D); c.observe(h.h);
  std::string nm = tname(bt), info = nm + vh::fmt(" nearest points %d rel %.3g abs %.3g: ", q.enable_nearest_points, q.rel_err, q.abs_err) + mstr(a) + " / " + mstr(b);
  c.phase("M03 mesh-mesh distance %s", nm.c_str()); double d;
  if (r.chance(.5)) { CollisionObject<double> o1(g1, f1), o2(g2, f2); d = fcl::distance(&o1, &o2, q, res); } else d = fcl::distance(g1.get(), f1, g2.get(), f2, q, res);
  info += vh::fmt(" true %.12g got %.12g min_distance %.12g triangles %d %d", D, d, res.min_distance, (int)res.b1, (int)res.b2);
  if (d != res.min_distance) { c.violation(nm + "|return value", info); return; }
  if (hit) { c.count("intersecting checked"); if (!(d <= 1e-6)) c.violation(nm + "|positive for intersecting meshes", info); return; }
  if (D < 1e-5) { c.count("undecided"); return; }
  c.count("separated checked"); double up = std::max(D + q.abs_err, D * (1 + q.rel_err)); c.maxi("distance error " + nm, q.rel_err || q.abs_err ? 0 : std::fabs(d - D));
  if (!(d >= D - 1e-6)) { c.violation(nm + "|below the true distance", info); return; }
  if (!(d <= up + 1e-6)) { c.violation(nm + "|above the true distance", info); return; }
  if (res.o1 != g1.get() || res.o2 != g2.get()) { c.violation(nm + "|result names other geometries", info); return; }
  if (!(res.b1 >= 0 && res.b1 < (int)wa.size() && res.b2 >= 0 && res.b2 < (int)wb.size())) { c.violation(nm + "|triangle ids", info); return; }
  auto& A = wa[res.b1]; auto& B = wb[res.b2]; double t = triTri(A.data(), B.data(), x, y); if (!(std::fabs(t - d) < 1e-6)) { c.violation(nm + "|named triangles are not at that distance", vh::fmt("%.9g ", t) + info); return; }
  if (q.enable_nearest_points) {
    V p1 = rv(res.nearest_points[0]), p2 = rv(res.nearest_points[1]); double o1 = norm(closestOnTri(p1, A[0], A[1], A[2]) - p1), o2 = norm(closestOnTri(p2, B[0], B[1], B[2]) - p2); c.count("nearest points checked");
    if (!(o1 < 1e-5 && o2 < 1e-5)) c.violation(nm + "|nearest point off its triangle", vh::fmt("%.6g %.6g ", o1, o2) + info);
    else if (!(std::fabs(norm(p1 - p2) - d) < 1e-5)) c.violation(nm + "|nearest points do not realise the distance", vh::fmt("%.9g ", norm(p1 - p2)) + info);
  }
  if (c.caseno < 4) c.sample(info);
}

// ---------------------------------------------------------------- M04
static Shape triShape(const std::array<V, 3>& t) { Shape s; s.k = TRI; s.pts = {t[0], t[1], t[2]}; return s; }
VH_PROP(M04) {
  auto& r = c.rng; using namespace fcl; int bt = c.caseno % 8, ki = (c.caseno / 8) % 9; static const Kind kinds[] = {SPHERE, BOX, ELLIPSOID, CAPSULE, CONE, CYLINDER, CONVEX, HALFSPACE, PLANE};
  bool unb = ki >= 7, dist = !unb && r.chance(.4), swap = r.chance(.5); int solver = r.below(2); if (dist && bt != 2 && bt != 3 && bt != 4) bt = 2 + r.below(3);   // a mesh and a shape have a distance for these volumes only
  Mesh a = randMesh(r, meshKind(r), r.chance(.1) ? 60 : 16); Shape s = randShape(r, kinds[ki], .2, 2);
  T ta = poseFor(r), tb = poseFor(r); auto pre = world(a, ta);
  if (!unb) {
    int i = r.below(a.t.size()); double w1 = r.u(), w2 = r.u() * (1 - w1); V p = pre[i][0] * w1 + pre[i][1] * w2 + pre[i][2] * (1 - w1 - w2);
    tb.t = dist ? ta.t + randUnit(r) * (rad(a) + s.radius() * r.uni(.3, 1) + r.logu(1e-2, 5)) : r.chance(.6) ? p + randUnit(r) * (s.radius() * r.uni(0, 1.3)) : ta.t + randIn(r, 1);
  } else { V p = pre[r.below(pre.size())][r.below(3)]; V n = tb.R * s.p; tb.t = tb.t + n * (dot(n, p) - (s.d + dot(n, tb.t)) + r.uni(-.5, .5) * (r.chance(.3) ? 6 : 1)); }
  if (!unb && r.chance(.15)) tb.R = ta.R;
  auto g1 = buildAny(r, a, bt); auto g2 = fg<double>(s); auto f1 = ft<double>(ta), f2 = ft<double>(tb);
  vh::Hash h; h.add(bt); h.add(ki); for (auto& v : a.v) h.add(v.x); h.add(tb.t.x); h.add(tb.R.m[0][1]); c.observe(h.h);
  std::string nm = std::string(tname(bt)) + "-" + kname(s.k), sv = solver ? "indep" : "ccd", info = nm + (swap ? " shape first " : " mesh first ") + sv + " " + mstr(a);
  std::vector<Dist> ds; std::set<int> must, may; double lo = 1e300, hi = 1e300;
  for (size_t i = 0; i < pre.size(); ++i) {
    if (unb) { V n = tb.R * s.p; double d0 = s.d + dot(n, tb.t), mn = 1e300, mx = -1e300; for (auto& v : pre[i]) { double x = dot(n, v) - d0; mn = std::min(mn, x); mx = std::max(mx, x); }
      bool in = s.k == HALFSPACE ? mn < -1e-5 : mn < -1e-5 && mx > 1e-5, outs = s.k == HALFSPACE ? mn > 1e-5 : (mn > 1e-5 || mx < -1e-5); if (in) must.insert(i); else if (!outs) may.insert(i); continue; }
    Shape t = triShape(pre[i]); Dist d = ref::distance(s, tb, t, T());
    lo = std::min(lo, d.overlap ? 0. : d.lo); hi = std::min(hi, d.overlap ? 0. : d.hi);
    if (dist) continue;
    if (!d.overlap) { if (!(d.lo > 5e-4)) may.insert(i); continue; }
    Depth q = depth(s, tb, t, T(), 2e-4); if (q.lo > 1e-3) must.insert(i); else may.insert(i);
  }
  if (!dist) {
    CollisionRequest<double> q; q.num_max_contacts = 1000000; q.enable_contact = r.chance(.5); q.gjk_solver_type = solver ? GST_INDEP : GST_LIBCCD; CollisionResult<double> res; info += vh::fmt(" contact %d, %d triangles touched, %d undecided", q.enable_contact, (int)must.size(), (int)may.size());
    c.phase("M04 collide %s %s %s contact %d", nm.c_str(), swap ? "shape first" : "mesh first", sv.c_str(), q.enable_contact); size_t n;
    if (swap) n = collide(g2.get(), f2, g1.get(), f1, q, res); else n = collide(g1.get(), f1, g2.get(), f2, q, res);
    c.count("collision queries"); c.count("touched triangles required", must.size()); c.count("triangles judged", pre.size() - may.size()); c.count(std::string("checks ") + kname(s.k), pre.size() - may.size());
    if (n != res.numContacts()) { c.violation("return value|" + nm, info); return; }
    std::map<int, int> got; bool meshFirst = true;
    for (size_t i = 0; i < res.numContacts(); ++i) {
      auto& k = res.getContact(i); bool mf = k.o1 == g1.get() && k.o2 == g2.get(), ms = k.o2 == g1.get() && k.o1 == g2.get(); if (!mf && !ms) { c.violation("contact names other geometries|" + nm, info); return; }
      (void)meshFirst; int id = mf ? k.b1 : k.b2, no = mf ? k.b2 : k.b1; ++got[id]; if (no != Contact<double>::NONE) { c.violation("shape has a primitive id|" + nm, info); return; }
      if (!must.count(id) && !may.count(id)) { c.violation(vh::fmt("triangle reported that is not touched|%s|%s", kname(s.k), sv.c_str()), vh::fmt("triangle %d contact %d ", id, q.enable_contact) + info + " shape " + s.str()); return; }
    }
    for (int x : must) if (!got.count(x)) { c.violation(vh::fmt("touched triangle missed|%s|%s", kname(s.k), sv.c_str()), vh::fmt("triangle %d ", x) + info + " shape " + s.str() + " pose " + ref::str(tb) + " tri " + ref::str(pre[x][0]) + ref::str(pre[x][1]) + ref::str(pre[x][2])); return; }
    for (auto& x : got) if (x.second > 1) { c.violation("triangle reported repeatedly|" + nm, info); return; }
    int lim = r.range(1, 2 + (int)must.size()); q.num_max_contacts = lim; CollisionResult<double> r2; c.phase("M04 bounded collide %s", nm.c_str()); n = swap ? collide(g2.get(), f2, g1.get(), f1, q, r2) : collide(g1.get(), f1, g2.get(), f2, q, r2); c.count("bounded queries");
    if (n != std::min<size_t>(lim, got.size())) c.violation("bounded query|" + nm, vh::fmt("asked for %d of %d, got %d ", lim, (int)got.size(), (int)n) + info);
    if (c.caseno < 2) c.sample(info);
  } else {
    DistanceRequest<double> q; q.enable_nearest_points = r.chance(.6); q.gjk_solver_type = solver ? GST_INDEP : GST_LIBCCD; DistanceResult<double> res;
    c.phase("M04 distance %s %s %s", nm.c_str(), swap ? "shape first" : "mesh first", sv.c_str()); double d = swap ? fcl::distance(g2.get(), f2, g1.get(), f1, q, res) : fcl::distance(g1.get(), f1, g2.get(), f2, q, res);
    info += vh::fmt(" true [%.9g,%.9g] got %.9g triangle %d/%d of %d", lo, hi, d, (int)res.b1, (int)res.b2, (int)pre.size()) + " shape " + s.str() + " pose " + ref::str(tb);
    if (lo < 1e-4) { c.count("undecided distances"); return; }
    c.count("distances checked"); double tol = (solver ? 3e-4 : 2e-5) * (1 + hi) ; c.maxi("distance error " + sv, std::max(d - hi, lo - d));
    if (!(d <= hi + tol)) { c.violation(vh::fmt("distance above the true one|%s|%s", kname(s.k), sv.c_str()), info); return; }
    if (!(d >= lo - tol)) { c.violation(vh::fmt("distance below the true one|%s|%s", kname(s.k), sv.c_str()), info); return; }
    if (d != res.min_distance) c.violation("return value|" + nm, info);
    bool mf = res.o1 == g1.get() && res.o2 == g2.get(), ms = res.o2 == g1.get() && res.o1 == g2.get(); if (!mf && !ms) { c.violation("result names other geometries|" + nm, info); return; }
    int id = mf ? res.b1 : res.b2; if (id < 0 || id >= (int)pre.size()) { c.violation("triangle id|" + nm, info); return; }
    Dist w = ref::distance(s, tb, triShape(pre[id]), T()); if (!(w.lo <= d + tol)) { c.violation("named triangle is not at that distance|" + nm, vh::fmt("%.9g ", w.lo) + info); return; }
    if (q.enable_nearest_points) {
      V pm = rv(res.nearest_points[mf ? 0 : 1]), ps = rv(res.nearest_points[mf ? 1 : 0]); auto& A = pre[id]; double o1 = norm(closestOnTri(pm, A[0], A[1], A[2]) - pm), o2 = std::max(pointOut(ps, s, tb), pointIn(ps, s, tb)); c.count("nearest points checked"); std::string e = vh::fmt("mesh %s off %.6g shape %s off %.6g apart %.9g ", ref::str(pm).c_str(), o1, ref::str(ps).c_str(), o2, norm(pm - ps));
      if (!(o1 < 1e-3 && o2 < 1e-3)) c.violation(vh::fmt("nearest point off its object|%s|%s", kname(s.k), sv.c_str()), e + info); else if (!(std::fabs(norm(pm - ps) - d) < 1e-3 * (1 + d))) c.violation(vh::fmt("nearest points do not realise the distance|%s|%s", kname(s.k), sv.c_str()), e + info);
    }
    if (c.caseno < 20) c.sample(info);
  }
}

// ---------------------------------------------------------------- M05
template <class B> static void m05(vh::Ctx& c) {
  auto& r = c.rng; using namespace fcl; Quiet quiet; typedef BVHModel<B> G;
  struct St { int state = BVH_BUILD_STATE_EMPTY; std::vector<V> v, prev; std::vector<std::array<int, 3>> t; int upd = 0; bool hasPrev = false; };
  std::shared_ptr<G> g = std::make_shared<G>(); St m; std::string log = Name<B>::s() + std::string(": "); vh::Hash h; h.add(log);
  auto pt = [&] { return r.chance(.1) ? V(1, 2, 3) : randIn(r, 2); };
  auto check = [&](const G& x, const St& s, const std::string& what) -> bool {
    c.count("states checked");
    if (x.build_state != s.state) { c.violation("build state|" + what, vh::fmt("is %d, should be %d ", x.build_state, s.state) + log); return false; }
    if (x.num_vertices != (int)s.v.size() || x.num_tris != (int)s.t.size()) { c.violation("counts|" + what, vh::fmt("%d vertices of %d, %d triangles of %d ", x.num_vertices, (int)s.v.size(), x.num_tris, (int)s.t.size()) + log); return false; }
    int lim = s.state == BVH_BUILD_STATE_UPDATE_BEGUN ? s.upd : s.v.size();
    for (int i = 0; i < lim; ++i) if (norm(rv(x.vertices[i]) - s.v[i]) != 0) { c.violation("vertex|" + what, vh::fmt("vertex %d of %d ", i, (int)s.v.size()) + log); return false; }
    for (size_t i = 0; i < s.t.size(); ++i) for (int k = 0; k < 3; ++k) if ((int)x.tri_indices[i][k] != s.t[i][k]) { c.violation("triangle|" + what, vh::fmt("triangle %d ", (int)i) + log); return false; }
    if ((x.prev_vertices != nullptr) != s.hasPrev) { c.violation("previous frame|" + what, log); return false; }
    if (s.hasPrev) for (size_t i = 0; i < s.prev.size(); ++i) if (norm(rv(x.prev_vertices[i]) - s.prev[i]) != 0) { c.violation("previous frame|" + what, vh::fmt("vertex %d ", (int)i) + log); return false; }
    auto want = s.t.size() && s.v.size() ? BVH_MODEL_TRIANGLES : s.v.size() ? BVH_MODEL_POINTCLOUD : BVH_MODEL_UNKNOWN;
    if (x.getModelType() != want) { c.violation("model type|" + what, log); return false; }
    if (s.state == BVH_BUILD_STATE_PROCESSED || s.state == BVH_BUILD_STATE_UPDATED) { double sc = 0; for (auto& v : s.v) sc = std::max(sc, norm(v)); for (auto& v : s.prev) sc = std::max(sc, norm(v)); if (!checkTree(c, x, sc + 1e-300, log)) return false; }
    return true; };
  int nops = r.range(2, r.chance(.2) ? 80 : 25); bool orderly = r.chance(.5);
  for (int k = 0; k < nops; ++k) {
    int op; 
    if (orderly && r.chance(.85)) switch (m.state) {   // mostly the call that makes sense now
      case BVH_BUILD_STATE_EMPTY: op = 0; break;
      case BVH_BUILD_STATE_BEGUN: op = r.chance(.2) ? 5 : r.range(1, 4); break;
      case BVH_BUILD_STATE_REPLACE_BEGUN: op = m.upd == (int)m.v.size() ? 10 : 7 + r.below(3); break;
      case BVH_BUILD_STATE_UPDATE_BEGUN: op = m.upd == (int)m.v.size() ? 15 : 12 + r.below(3); break;
      default: op = r.chance(.5) ? 6 : 11; }
    else op = r.below(18);
    int rc = BVH_OK, want = BVH_OK; std::string what; bool isrc = true;
    auto E3 = [](const V& v) { return fv<double>(v); };
    bool begun = m.state == BVH_BUILD_STATE_BEGUN, rep = m.state == BVH_BUILD_STATE_REPLACE_BEGUN, up = m.state == BVH_BUILD_STATE_UPDATE_BEGUN;
    if (op == 0) { what = "beginModel"; c.phase("M05 beginModel"); int nt = r.range(-1, 12), nv = r.range(-1, 12); want = m.state == BVH_BUILD_STATE_EMPTY ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE; bool ok = want == BVH_OK; rc = r.chance(.5) ? g->beginModel(nt, nv) : g->beginModel(); m = St(); m.state = ok ? BVH_BUILD_STATE_BEGUN : BVH_BUILD_STATE_EMPTY; }
    else if (op == 1) { what = "addVertex"; c.phase("M05 addVertex state %d", m.state); V p = pt(); rc = g->addVertex(E3(p)); want = begun ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE; if (begun) m.v.push_back(p); }
    else if (op == 2) { what = "addTriangle"; c.phase("M05 addTriangle state %d", m.state); V a = pt(), b = pt(), d = pt(); rc = g->addTriangle(E3(a), E3(b), E3(d)); want = begun ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE; if (begun) { int o = m.v.size(); m.v.push_back(a); m.v.push_back(b); m.v.push_back(d); m.t.push_back({o, o + 1, o + 2}); } }
    else if (op == 3 || op == 4) { what = op == 3 ? "addSubModel(points)" : "addSubModel(mesh)"; c.phase("M05 %s state %d", what.c_str(), m.state); int n = r.chance(.1) ? r.range(20, 60) : r.range(0, 9); std::vector<E> ps; std::vector<V> pv; for (int i = 0; i < n; ++i) { pv.push_back(pt()); ps.push_back(E3(pv.back())); } std::vector<Triangle> ts; int o = m.v.size();
      if (op == 4 && n) { int q = r.range(0, 15); for (int i = 0; i < q; ++i) ts.emplace_back(r.below(n), r.below(n), r.below(n)); }
      want = begun ? BVH_OK : BVH_ERR_BUILD_OUT_OF_SEQUENCE; rc = op == 3 ? g->addSubModel(ps) : g->addSubModel(ps, ts); if (begun) { m.v.insert(m.v.end(), pv.begin(), pv.end()); for (auto& t : ts) m.t.push_back({o + (int)t[0], o + (int)t[1], o + (int)t[2]}); } }
    else if (op == 5) { what = "endModel"; c.phase("M05 endModel state %d", m.state); rc = g->endModel(); want = !begun ? BVH_ERR_BUILD_OUT_OF_SEQUENCE : m.v.empty() && m.t.empty() ? BVH_ERR_BUILD_EMPTY_MODEL : BVH_OK; if (want == BVH_OK) { m.state = BVH_BUILD_STATE_PROCESSED; c.count("models built"); } }
    else if (op == 6) { what = "beginReplaceModel"; c.phase("M05 beginReplaceModel state %d", m.state); rc = g->beginReplaceModel(); bool ok = m.state == BVH_BUILD_STATE_PROCESSED; want = ok ? BVH_OK : BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME; if (ok) { m.state = BVH_BUILD_STATE_REPLACE_BEGUN; m.hasPrev = false; m.prev.clear(); m.upd = 0; } }
    else if (op == 11) { what = "beginUpdateModel"; c.phase("M05 beginUpdateModel state %d", m.state); rc = g->beginUpdateModel(); bool ok = m.state == BVH_BUILD_STATE_PROCESSED || m.state == BVH_BUILD_STATE_UPDATED; want = ok ? BVH_OK : BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME; if (ok) { m.state = BVH_BUILD_STATE_UPDATE_BEGUN; m.hasPrev = true; m.prev = m.v; m.upd = 0; } }
    else if ((op >= 7 && op <= 9) || (op >= 12 && op <= 14)) {
      bool R = op <= 9; int f = R ? op - 7 : op - 12, left = (int)m.v.size() - m.upd, n = f == 0 ? 1 : f == 1 ? 3 : r.chance(.6) ? std::max(0, left) : r.range(0, 6); if (f == 2 && r.chance(.1)) n = std::max(0, left) + r.range(1, 3); bool ok = R ? rep : up; what = std::string(R ? "replace" : "update") + (f == 0 ? "Vertex" : f == 1 ? "Triangle" : "SubModel"); c.phase("M05 %s state %d", what.c_str(), m.state); std::vector<V> p; std::vector<E> e; for (int i = 0; i < n; ++i) { p.push_back(pt()); e.push_back(E3(p.back())); }
      rc = R ? (f == 0 ? g->replaceVertex(e[0]) : f == 1 ? g->replaceTriangle(e[0], e[1], e[2]) : g->replaceSubModel(e)) : (f == 0 ? g->updateVertex(e[0]) : f == 1 ? g->updateTriangle(e[0], e[1], e[2]) : g->updateSubModel(e));
      want = !ok ? BVH_ERR_BUILD_OUT_OF_SEQUENCE : n > left ? BVH_ERR_INCORRECT_DATA : BVH_OK; if (want == BVH_OK) { for (auto& v : p) m.v[m.upd++] = v; } else if (want == BVH_ERR_INCORRECT_DATA) c.count("surplus vertices refused"); }
    else if (op == 10 || op == 15) { bool R = op == 10; what = R ? "endReplaceModel" : "endUpdateModel"; c.phase("M05 %s state %d", what.c_str(), m.state); bool refit = r.chance(.6), bu = r.chance(.5), ok = R ? rep : up; rc = R ? g->endReplaceModel(refit, bu) : g->endUpdateModel(refit, bu); want = !ok ? BVH_ERR_BUILD_OUT_OF_SEQUENCE : m.upd != (int)m.v.size() ? BVH_ERR_INCORRECT_DATA : BVH_OK; if (want == BVH_OK) m.state = R ? BVH_BUILD_STATE_PROCESSED : BVH_BUILD_STATE_UPDATED; }
    else if (op == 16) { what = "copy"; c.phase("M05 copy state %d", m.state); isrc = false; auto n = std::make_shared<G>(*g); c.count("copies"); if (!check(*n, m, "copy")) return; if (r.chance(.5)) { std::swap(n, g); /* the original is changed and destroyed */ n->beginModel(); } n.reset(); }
    else { what = "assignment"; c.phase("M05 assign state %d", m.state); isrc = false; G n; if (r.chance(.5)) { n.beginModel(); n.addTriangle(E3(pt()), E3(pt()), E3(pt())); n.endModel(); } n = *g; c.count("assignments"); if (!check(n, m, "assignment")) return; if (r.chance(.2)) { G& self = *g; *g = self; } if (r.chance(.5)) { *g = n; n.beginModel(); } }
    log += what + (isrc ? vh::fmt("=%d ", rc) : std::string(" ")); h.add(log); c.count("calls"); if (isrc && want != BVH_OK) c.count("calls refused");
    if (isrc && rc != want) { c.violation("return code|" + what, vh::fmt("%d instead of %d in ", rc, want) + log); return; }
    c.phase("M05 check after %s", what.c_str()); if (!check(*g, m, what)) return; c.observe(h.h);
  }
  if (c.caseno < 8) c.sample(log);
}
VH_PROP(M05) { switch (c.caseno % 8) { case 0: m05<AABB>(c); break; case 1: m05<OBB>(c); break; case 2: m05<RSS>(c); break; case 3: m05<OBBRSS>(c); break; case 4: m05<kIOS>(c); break; case 5: m05<K16>(c); break; case 6: m05<K18>(c); break; default: m05<K24>(c); } }
VH_MAIN

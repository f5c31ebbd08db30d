// Cross-cutting behaviour of collide() and distance() over every kind of geometry.
#include "sidex.h"
#include <sys/wait.h>
#include <time.h>
#include <sys/time.h>
#include <signal.h>
#include <setjmp.h>

// ---------------------------------------------------------------- N05
// Compares the answer of one variant (arguments exchanged, both objects moved) with the base answer.
VH_PROP(N05) {
  auto& r = c.rng; Quiet quiet; const double M = 1.5e-3;
  Side a = randSide(r), b = randSide(r); if (a.kind == 3 && b.kind == 3) return; placeNear(r, a, b); if (a.p.empty() || b.p.empty()) return;
  int s = r.below(2); T g = randPose(r, 3); TF ta = ft<double>(a.tf), tb = ft<double>(b.tf), ga = ft<double>(g * a.tf), gb = ft<double>(g * b.tf);
  std::string pn = pname(a, b), info = vh::fmt("%s ", sv(s)) + a.info + " | " + b.info; double sc = sideScale(a) + sideScale(b);
  c.phase("N05 collide %s %s", pn.c_str(), sv(s));
  Cont base = collideNamed(a, ta, b, tb, false, s), var[2] = {collideNamed(a, ta, b, tb, true, s), collideNamed(a, ga, b, gb, false, s)};
  if (!base.named || !var[0].named || !var[1].named) { c.violation("objects named|" + pn, info); return; }
  static const char* vn[2] = {"exchanged", "moved"}; bool bad = false;
  for (auto& k : base.c) {
    auto okId = [&](const Side& o, intptr_t id) { return o.kind == 0 || o.kind == 3 ? id == fcl::Contactd::NONE : primOf(o, id) != nullptr; };
    if (!okId(a, k.a) || !okId(b, k.b)) { c.violation("primitive id|" + pn, vh::fmt("%lld %lld ", (long long)k.a, (long long)k.b) + info); bad = true; break; }
  }
  if (bad) return; vh::Hash h; h.add(info); c.observe(h.h);
  for (int v = 0; v < 2; ++v) {
    c.count(std::string("collisions ") + vn[v]); c.count("pairs " + pn); if (!base.c.empty()) c.count(std::string("meeting, ") + vn[v]);
    for (int dir = 0; dir < 2; ++dir) for (auto& kv : dir ? var[v].by : base.by) {
      auto& other = dir ? base.by : var[v].by; if (other.count(kv.first)) continue;
      const Prim *p = primOf(a, kv.first.first), *q = primOf(b, kv.first.second); if (!p || !q) { c.violation(std::string(vn[v]) + "|primitive id|" + pn, info); return; }
      int w = judge2(*p, *q, M); if (!w) { c.count("too close to call"); continue; }
      c.violation(std::string(vn[v]) + "|pair reported one way only|" + pn + " " + sv(s), vh::fmt("pair %lld %lld, truth %d, only in %s ", (long long)kv.first.first, (long long)kv.first.second, w, dir ? "variant" : "base") + info); return;
    }
    int left = 12; std::vector<Cont> jig;
    for (auto& kv : base.by) {
      auto it = var[v].by.find(kv.first); if (it == var[v].by.end()) continue; auto &x = kv.second, &y = it->second; if (--left < 0) break;
      Ct p = top(x), q = top(y); bool single = x.size() == 1 && y.size() == 1;
      V n = p.n, pos = p.p; if (v) { n = g.R * n; pos = g(pos); } double ed = std::fabs(p.d - q.d), en = norm(n - q.n), ep = norm(pos - q.p);
      c.count("contacts compared"); c.count(exactPair(a, b) ? "contacts by formula" : "contacts by iteration"); double td = 1e-4 + 1e-3 * p.d;
      int what = ed > td ? 1 : single && en > .02 ? 2 : single && ep > .01 ? 3 : 0; if (!what) { c.count("contacts agree"); c.maxi("depth", ed); continue; }
      // where a tiny displacement of one object already changes the answer as much, there are several equally good ones
      if (jig.empty()) for (int i = 0; i < 8; ++i) jig.push_back(collideNamed(a, ta, b, ft<double>(jiggle(r, b.tf, i & 1 ? 1e-6 : 1e-9)), false, s));
      bool unstable = false; for (auto& J : jig) { auto jt = J.by.find(kv.first); if (jt == J.by.end() || jt->second.size() != x.size()) { unstable = true; break; } Ct z = top(jt->second); if (std::fabs(z.d - p.d) > td * .5 || norm(z.n - p.n) > .01 || norm(z.p - p.p) > .005) unstable = true; }
      if (unstable) { c.count("contacts with several answers"); continue; }
      bool gross = ed > .4 * p.d + .02 || en > 1.45 || ep > .6 * sc;
      bool boxes = exactPair(a, b) && a.kind != 3 && b.kind != 3 && ed <= .06 * p.d;   // the box-box rule prefers faces by 5%
      c.violation((exactPair(a, b) && !boxes ? "" : gross ? "gross|" : "approximate|") + std::string(vn[v]) + "|" + (what == 1 ? "depth|" : what == 2 ? "normal|" : "position|") + pn + " " + sv(s), vh::fmt("depth %.9g %.9g normal off %.3g position off %.3g pair %lld %lld ", p.d, q.d, en, ep, (long long)p.a, (long long)p.b) + info);
    }
  }
  if (a.kind == 3 || b.kind == 3) return;
  c.phase("N05 distance %s %s", pn.c_str(), sv(s));
  Ds d0 = distNamed(a, ta, b, tb, false, s), dv[2] = {distNamed(a, ta, b, tb, true, s), distNamed(a, ga, b, gb, false, s)};
  if (d0.d > 1e300 && dv[0].d > 1e300 && dv[1].d > 1e300 && !d0.named) { c.count("distance unsupported " + pn); return; }
  if (!d0.named || !dv[0].named || !dv[1].named) { c.violation("distance objects named|" + pn + " " + sv(s), vh::fmt("%d%d%d %g %g %g ", d0.named, dv[0].named, dv[1].named, d0.d, dv[0].d, dv[1].d) + info); return; }
  for (int v = 0; v < 2; ++v) {
    c.count(std::string("distances ") + vn[v]);
    if ((d0.d <= 0) != (dv[v].d <= 0)) { if (judgeSides(a, b, M)) c.violation(std::string(vn[v]) + "|distance verdict|" + pn + " " + sv(s), vh::fmt("%.9g %.9g ", d0.d, dv[v].d) + info); else c.count("too close to call"); continue; }
    if (d0.d <= 0) continue;
    c.count("separated, " + std::string(vn[v])); double e = std::fabs(d0.d - dv[v].d) / (1 + d0.d); c.maxi("distance " + std::string(sv(s)), e);
    if (e > 5e-5) c.violation(std::string(vn[v]) + "|distance|" + pn + " " + sv(s), vh::fmt("%.9g %.9g ", d0.d, dv[v].d) + info);
    double o[2] = {0, 0}; for (int k = 0; k < 2; ++k) { V x = dv[v].p[k]; if (v) x = g.inv(x); double m = 1e300; for (auto& p : (k ? b : a).p) m = std::min(m, (double)pointOut(x, p.s, p.tf)); o[k] = m; }
    c.maxi(std::string("nearest point off ") + sv(s), std::max(o[0], o[1])); if (std::max(o[0], o[1]) > 2e-3) c.violation(std::string(vn[v]) + "|nearest point off its object|" + pn + " " + sv(s), vh::fmt("%.3g %.3g ", o[0], o[1]) + info); c.count("nearest points checked");
    double gap = norm(dv[v].p[0] - dv[v].p[1]); c.maxi("gap", std::fabs(gap - dv[v].d)); if (std::fabs(gap - dv[v].d) > 2e-3) c.violation(std::string(vn[v]) + "|nearest points apart|" + pn + " " + sv(s), vh::fmt("%.6g %.6g ", gap, dv[v].d) + info);
  }
}

// ---------------------------------------------------------------- N08
struct Q8 { const Side *a, *b; bool swap; int s; };
static size_t run8(const Q8& q, const fcl::CollisionRequestd& req, fcl::CollisionResultd& res) { TF ta = ft<double>(q.a->tf), tb = ft<double>(q.b->tf); return q.swap ? fcl::collide(q.b->g.get(), tb, q.a->g.get(), ta, req, res) : fcl::collide(q.a->g.get(), ta, q.b->g.get(), tb, req, res); }
static double run8(const Q8& q, const fcl::DistanceRequestd& req, fcl::DistanceResultd& res) { TF ta = ft<double>(q.a->tf), tb = ft<double>(q.b->tf); return q.swap ? fcl::distance(q.b->g.get(), tb, q.a->g.get(), ta, req, res) : fcl::distance(q.a->g.get(), ta, q.b->g.get(), tb, req, res); }
typedef std::multiset<std::pair<intptr_t, intptr_t>> Ids;
static Ids idsOf(const fcl::CollisionResultd& r, size_t from = 0) { Ids s; for (size_t i = from; i < r.numContacts(); ++i) s.insert({r.getContact(i).b1, r.getContact(i).b2}); return s; }
static bool sameContact(const fcl::Contactd& x, const fcl::Contactd& y, bool geo) {
  auto eq = [](double u, double v) { return u == v || (u != u && v != v); };
  if (x.o1 != y.o1 || x.o2 != y.o2 || x.b1 != y.b1 || x.b2 != y.b2) return false; if (!geo) return true;
  for (int i = 0; i < 3; ++i) if (!eq(x.pos[i], y.pos[i]) || !eq(x.normal[i], y.normal[i])) return false; return eq(x.penetration_depth, y.penetration_depth);
}
static bool sameDist(const fcl::DistanceResultd& x, const fcl::DistanceResultd& y) { return x.min_distance == y.min_distance && x.o1 == y.o1 && x.o2 == y.o2 && x.b1 == y.b1 && x.b2 == y.b2; }
VH_PROP(N08) {
  auto& r = c.rng; Quiet quiet; const double M = 1.5e-3;
  Side a = randSide(r), b = randSide(r); placeNear(r, a, b); if (a.p.empty() || b.p.empty()) return;
  Q8 q{&a, &b, r.chance(.5), r.below(2)}; std::string pn = q.swap ? pname(b, a) : pname(a, b), key = pn + " " + sv(q.s), info = key + " " + a.info + " | " + b.info; vh::Hash h; h.add(info); c.observe(h.h);
  auto req = [&](size_t n, bool contact) { return fcl::CollisionRequestd(n, contact, 1, false, true, solver(q.s)); };
  auto verdictClash = [&](const char* what) { if (judgeSides(a, b, M)) c.violation(std::string(what) + "|" + key, info); else c.count("too close to call"); };
  c.phase("N08 collide %s", key.c_str());
  fcl::CollisionResultd plain, full; size_t r0 = run8(q, req(1000000, false), plain), r1 = run8(q, req(1000000, true), full);
  if (r0 != plain.numContacts() || r1 != full.numContacts()) { c.violation("return value|" + key, vh::fmt("%zu %zu, %zu %zu ", r0, plain.numContacts(), r1, full.numContacts()) + info); return; }
  if (plain.isCollision() != (r0 > 0) || full.isCollision() != (r1 > 0)) { c.violation("summary|" + key, info); return; }
  c.count("queries"); c.count(plain.isCollision() ? "colliding" : "apart"); bool hit = full.isCollision();
  if (plain.isCollision() != hit) { verdictClash("contact output changes the verdict"); return; }
  if (a.kind != 3 && b.kind != 3) { auto i0 = idsOf(plain), i1 = idsOf(full); std::set<std::pair<intptr_t, intptr_t>> s0(i0.begin(), i0.end()), s1(i1.begin(), i1.end());
    if (s0 != s1) { for (int k = 0; k < 2; ++k) for (auto& x : k ? s1 : s0) if (!(k ? s0 : s1).count(x)) { auto pr = [&](const fcl::CollisionResultd& z) { for (size_t i = 0; i < z.numContacts(); ++i) { auto& ct = z.getContact(i); if (ct.b1 == x.first && ct.b2 == x.second) return ct.o1 == a.g.get(); } return true; };
        bool fwd = pr(k ? full : plain); auto *p = primOf(a, fwd ? x.first : x.second), *w = primOf(b, fwd ? x.second : x.first); if (!p || !w) { c.violation("primitive id|" + key, info); return; } if (judge2(*p, *w, M)) { c.violation("contact output changes the pairs|" + key, info); return; } }
      c.count("too close to call"); return; } }
  // limits
  for (int round = 0; round < 3; ++round) {
    bool ct = r.chance(.5); auto& all = ct ? full : plain; size_t n = all.numContacts(), k = round == 0 ? 1 : r.range(1, (int)std::min<size_t>(n + 2, 60)); fcl::CollisionResultd lim; auto rq = req(k, ct); rq.enable_cost = r.chance(.15); size_t rr = run8(q, rq, lim);
    if (rr != lim.numContacts()) c.violation("return value|" + key, info);
    if (lim.numContacts() > k) c.violation("more contacts than requested|" + key, vh::fmt("%zu > %zu ", lim.numContacts(), k) + info);
    if (lim.isCollision() != hit) { c.violation("limit changes the verdict|" + key, vh::fmt("limit %zu ", k) + info); continue; }
    if (lim.numContacts() < std::min(n, k)) c.violation("fewer contacts than the limit allows|" + key, vh::fmt("limit %zu got %zu of %zu contact %d ", k, lim.numContacts(), n, ct) + info);
    auto have = idsOf(all), got = idsOf(lim); for (auto& x : got) { auto it = have.find(x); if (it == have.end()) { c.violation("limited contact not among all|" + key, info); break; } have.erase(it); }
    if (rq.isSatisfied(lim) != (!rq.enable_cost && lim.numContacts() >= k)) c.violation("isSatisfied|" + key, info);
    c.count("limited runs"); if (n > k) c.count("limits reached");
  }
  if (r.chance(.1)) { fcl::CollisionResultd none; auto rq = req(0, r.chance(.5)); if (run8(q, rq, none) != 0 || none.isCollision() || none.numContacts() || none.numCostSources()) c.violation("contacts of a request for none|" + key, info); c.count("requests for none"); }
  { // cost output
    fcl::CollisionResultd cr; auto rq = req(1000000, true); rq.enable_cost = true; rq.num_max_cost_sources = r.pick(std::vector<size_t>{1, 5, 100000}); rq.use_approximate_cost = r.chance(.5); run8(q, rq, cr);
    if (cr.isCollision() != hit || idsOf(cr) != idsOf(full)) c.violation("cost output changes the contacts|" + key, vh::fmt("%zu without, %zu with ", full.numContacts(), cr.numContacts()) + info);
    if (cr.numCostSources() > rq.num_max_cost_sources) c.violation("more cost sources than requested|" + key, info);
    if (full.numCostSources() || plain.numCostSources()) c.violation("cost sources not asked for|" + key, info); c.count("cost runs");
  }
  // accumulation: what a result holds stays, the new contacts follow
  {
    Side d = randSide(r, 7, 6); Side e = randSide(r, 7, 6); placeNear(r, d, e, 0); Q8 p{&d, &e, r.chance(.5), r.below(2)}; bool ct = r.chance(.5); c.phase("N08 accumulate %s after %s", key.c_str(), pname(d, e).c_str());
    fcl::CollisionResultd acc; run8(p, fcl::CollisionRequestd(r.range(1, 5), ct, 1, false, true, solver(p.s)), acc); fcl::CollisionResultd before = acc; size_t n0 = acc.numContacts(), k = r.chance(.5) ? 1000000 : r.range(1, 8); auto rq = req(k, ct); size_t rr = run8(q, rq, acc); auto& all = ct ? full : plain;
    bool ok = acc.numContacts() >= n0; for (size_t i = 0; ok && i < n0; ++i) ok = sameContact(before.getContact(i), acc.getContact(i), ct);
    if (!ok) c.violation("earlier contacts lost|" + key, info);
    else {
      if (rr != acc.numContacts() && (rr || acc.numContacts() != n0)) c.violation("return value|" + key, info); size_t room = k > n0 ? k - n0 : 0, want = std::min(room, all.numContacts());
      if (acc.numContacts() > std::max(n0, k)) c.violation("more contacts than requested|" + key, vh::fmt("held %zu, limit %zu, now %zu ", n0, k, acc.numContacts()) + info);
      else if (acc.numContacts() - n0 < want) c.violation("contacts not added to the result|" + key, vh::fmt("held %zu, limit %zu, now %zu, alone %zu ", n0, k, acc.numContacts(), all.numContacts()) + info);
      auto have = idsOf(all), got = idsOf(acc, n0); for (auto& x : got) { auto it = have.find(x); if (it == have.end()) { c.violation("added contact not among those found alone|" + key, info); break; } have.erase(it); }
      c.count("accumulated queries"); if (n0) c.count("accumulated onto contacts");
    }
    std::vector<fcl::Contactd> list; acc.getContacts(list); if (list.size() != acc.numContacts()) c.violation("summary|" + key, info);
    for (size_t i = 0; i < list.size(); ++i) if (!sameContact(list[i], acc.getContact(i), ct)) c.violation("summary|" + key, info);
    acc.clear(); if (acc.isCollision() || acc.numContacts() || acc.numCostSources()) c.violation("clear leaves something|" + key, info);
    if (run8(q, rq, acc) != std::min(k, all.numContacts()) && acc.numContacts() != std::min(k, all.numContacts())) c.violation("cleared result differs from a new one|" + key, info);
  }
  // distance
  c.phase("N08 distance %s", key.c_str());
  auto dreq = [&](bool pts, bool sgn, double rel = 0, double abs = 0) { return fcl::DistanceRequestd(pts, sgn, rel, abs, 1e-6, solver(q.s)); };
  fcl::DistanceResultd d0, d1, ds; double v0 = run8(q, dreq(false, false), d0), v1 = run8(q, dreq(true, false), d1), vs; const double MAX = std::numeric_limits<double>::max();
  if (v0 != d0.min_distance || v1 != d1.min_distance) { c.violation("distance return value|" + key, vh::fmt("%g %g, %g %g ", v0, d0.min_distance, v1, d1.min_distance) + info); return; }
  bool none0 = !d0.o1 && !d0.o2, none1 = !d1.o1 && !d1.o2;
  if (none0 != (d0.min_distance == MAX) || none1 != (d1.min_distance == MAX) || none0 != none1) { c.violation("distance summary|" + key, vh::fmt("%g %d %g %d ", v0, none0, v1, none1) + info); return; }
  if (none0) { c.count("distance unsupported"); c.count("unsupported " + pn); fcl::DistanceResultd held(.125); run8(q, dreq(true, false), held); if (held.min_distance != .125 || held.o1 || held.o2) c.violation("unsupported pair gives a result|" + key, info); return; }
  c.count("distances"); bool unb = a.kind == 3 || b.kind == 3;
  if ((d0.min_distance <= 0) != (d1.min_distance <= 0)) { verdictClash("nearest points change the verdict"); return; }
  if (d0.min_distance > 0) { double e = std::fabs(d0.min_distance - d1.min_distance); c.maxi(std::string("points on or off ") + sv(q.s), e); if (e > 1e-4 * (1 + d0.min_distance)) c.violation("nearest points change the distance|" + key, vh::fmt("%.12g %.12g ", v0, v1) + info); }
  if (unb) { bool meet; double g = refGap(a, b, meet); if (a.kind == 3 && b.kind == 3) return; if (meet ? d0.min_distance > M : std::fabs(d0.min_distance - g) > 1e-3 * (1 + g) && g > M) c.violation("distance of an unbounded object|" + key, vh::fmt("%.9g, truth %.9g ", v0, g) + info); c.count("unbounded distances"); }
  if (hit == (d0.min_distance <= 0)) { c.phase("N08 signed distance %s", key.c_str()); vs = run8(q, dreq(r.chance(.5), true), ds);
    if (vs != ds.min_distance) c.violation("distance return value|signed " + key, vh::fmt("%g %g ", vs, ds.min_distance) + info);
    if (!hit) { if (std::fabs(vs - v0) > 1e-4 * (1 + v0)) c.violation("signed distance of separated objects|" + key, vh::fmt("%.12g %.12g ", v0, vs) + info); else c.count("signed apart"); }
    else if (vs > 0) verdictClash("signed distance verdict"); else c.count("signed meeting"); }
  // error bounds
  if (d0.min_distance > 0) { fcl::DistanceResultd de; double rel = r.chance(.5) ? r.u() : 0, ab = r.chance(.5) ? r.logu(1e-3, 1) : 0, v = run8(q, dreq(r.chance(.5), false, rel, ab), de); double t = 1e-4 * (1 + v0);
    if (v < v0 - t || v > v0 + std::min(ab, rel * v0) + t) c.violation("error bounds|" + key, vh::fmt("exact %.9g found %.9g rel %g abs %g ", v0, v, rel, ab) + info); c.count("error bounds checked"); }
  // accumulation: a smaller distance stays
  { Side d = randSide(r, 5, 6), e = randSide(r, 5, 6); placeNear(r, d, e); Q8 p{&d, &e, r.chance(.5), r.below(2)}; c.phase("N08 accumulate distance %s after %s", key.c_str(), pname(d, e).c_str());
    fcl::DistanceResultd acc; double va = run8(p, fcl::DistanceRequestd(true, false, 0, 0, 1e-6, solver(p.s)), acc); fcl::DistanceResultd before = acc; double v = run8(q, dreq(true, false), acc);
    if (v != acc.min_distance) c.violation("distance return value|" + key, info);
    bool satisfied = va <= 0; if (dreq(true, false).isSatisfied(before) != satisfied) c.violation("isSatisfied|" + key, info);
    double t = 1e-4 * (1 + std::fabs(v1)), want = satisfied ? va : std::min(va, v1);
    if (v > std::min(va, want + t) || (want > 0 && v < want - t)) c.violation("accumulated distance|" + key, vh::fmt("held %.9g, alone %.9g, now %.9g ", va, v1, v) + info);
    else if (v == va ? !sameDist(acc, before) : !((acc.o1 == a.g.get() && acc.o2 == b.g.get()) || (acc.o1 == b.g.get() && acc.o2 == a.g.get()))) c.violation("accumulated distance names the wrong objects|" + key, vh::fmt("held %.9g, alone %.9g, now %.9g ", va, v1, v) + info);
    c.count("accumulated distances"); acc.clear(); fcl::DistanceResultd fresh; if (!sameDist(acc, fresh)) c.violation("clear leaves something|distance " + key, info); }
}

// ---------------------------------------------------------------- N09
template <class B> static bool snapMesh(const CG* g, std::string& o) {
  auto m = dynamic_cast<const fcl::BVHModel<B>*>(g); if (!m) return false;
  o.append((const char*)m, sizeof(*m)); o.append((const char*)m->vertices, sizeof(E3) * m->num_vertices); o.append((const char*)m->tri_indices, sizeof(fcl::Triangle) * m->num_tris);
  for (int i = 0; i < m->getNumBVs(); ++i) o.append((const char*)&m->getBV(i), sizeof(fcl::BVNode<B>)); return true;
}
template <class X> static bool snapRaw(const CG* g, std::string& o) { auto m = dynamic_cast<const X*>(g); if (!m) return false; o.append((const char*)m, sizeof(*m)); return true; }
static std::string snap(const Side& side) {
  const CG* g = side.g.get(); using namespace fcl; std::string o;
  if (auto t = dynamic_cast<const FOct*>(g)) { o.append((const char*)t, sizeof(*t)); std::ostringstream w; side.oct.t->writeData(w); return o + w.str(); }
  if (auto t = dynamic_cast<const Convex<double>*>(g)) { o.append((const char*)t, sizeof(*t)); for (auto& v : t->getVertices()) o.append((const char*)&v, sizeof v); for (int f : t->getFaces()) o.append((const char*)&f, sizeof f); return o; }
  snapMesh<bvx::AABB>(g, o) || snapMesh<bvx::OBB>(g, o) || snapMesh<bvx::RSS>(g, o) || snapMesh<bvx::OBBRSS>(g, o) || snapMesh<bvx::kIOS>(g, o) || snapMesh<K16>(g, o) || snapMesh<K18>(g, o) || snapMesh<K24>(g, o) ||
    snapRaw<Box<double>>(g, o) || snapRaw<Sphere<double>>(g, o) || snapRaw<Ellipsoid<double>>(g, o) || snapRaw<Capsule<double>>(g, o) || snapRaw<Cone<double>>(g, o) || snapRaw<Cylinder<double>>(g, o) || snapRaw<Halfspace<double>>(g, o) || snapRaw<Plane<double>>(g, o) || snapRaw<TriangleP<double>>(g, o);
  return o;
}
struct Query9 { int a, b; bool dist; int s; size_t nmax; bool contact, cost, sgn, pts, viaObjects; double tol; };
static void addV(vh::Hash& h, const E3& v) { for (int i = 0; i < 3; ++i) h.add(v[i]); }
static uint64_t answer(const Query9& q, const std::vector<Side>& sides, const std::vector<std::shared_ptr<fcl::CollisionObjectd>>& obj, bool viaObjects, const E3* guess = nullptr, fcl::CollisionResultd* keep = nullptr) {
  vh::Hash h; const Side &a = sides[q.a], &b = sides[q.b]; TF ta = ft<double>(a.tf), tb = ft<double>(b.tf);
  if (!q.dist) {
    fcl::CollisionRequestd req(q.nmax, q.contact, 50, q.cost, false, solver(q.s), q.tol); if (guess) { req.enable_cached_gjk_guess = true; req.cached_gjk_guess = *guess; }
    fcl::CollisionRequestd copy = req; fcl::CollisionResultd local, &res = keep ? *keep : local;
    h.add((uint64_t)(viaObjects ? fcl::collide(obj[q.a].get(), obj[q.b].get(), req, res) : fcl::collide(a.g.get(), ta, b.g.get(), tb, req, res)));
    for (size_t i = 0; i < res.numContacts(); ++i) { auto& k = res.getContact(i); h.add((uint64_t)(k.o1 == a.g.get())); h.add((uint64_t)k.b1); h.add((uint64_t)k.b2); if (q.contact) { addV(h, k.pos); addV(h, k.normal); h.add(k.penetration_depth); } }
    std::vector<fcl::CostSourced> cs; res.getCostSources(cs); for (auto& k : cs) { addV(h, k.aabb_min); addV(h, k.aabb_max); h.add(k.total_cost); }
    if (copy.num_max_contacts != req.num_max_contacts || copy.enable_contact != req.enable_contact || copy.num_max_cost_sources != req.num_max_cost_sources || copy.enable_cost != req.enable_cost || copy.gjk_solver_type != req.gjk_solver_type || copy.gjk_tolerance != req.gjk_tolerance || copy.enable_cached_gjk_guess != req.enable_cached_gjk_guess || copy.cached_gjk_guess != req.cached_gjk_guess) return 0;
  } else {
    fcl::DistanceRequestd req(q.pts, q.sgn, 0, 0, q.tol, solver(q.s)), copy = req; fcl::DistanceResultd res;
    h.add(viaObjects ? fcl::distance(obj[q.a].get(), obj[q.b].get(), req, res) : fcl::distance(a.g.get(), ta, b.g.get(), tb, req, res));
    h.add(res.min_distance); h.add((uint64_t)(res.o1 == a.g.get())); h.add((uint64_t)(res.o2 == b.g.get())); h.add((uint64_t)res.b1); h.add((uint64_t)res.b2); if (q.pts && res.min_distance > 0 && res.min_distance < 1e300) { addV(h, res.nearest_points[0]); addV(h, res.nearest_points[1]); }
    if (copy.enable_nearest_points != req.enable_nearest_points || copy.enable_signed_distance != req.enable_signed_distance || copy.rel_err != req.rel_err || copy.abs_err != req.abs_err || copy.distance_tolerance != req.distance_tolerance || copy.gjk_solver_type != req.gjk_solver_type) return 0;
  }
  return h.h ? h.h : 1;
}
VH_PROP(N09) {
  auto& r = c.rng; Quiet quiet; std::vector<Side> sides; std::vector<std::shared_ptr<fcl::CollisionObjectd>> obj; int n = r.range(3, 6);
  for (int i = 0; i < n; ++i) { Side s = randSide(r); if (i) placeNear(r, sides[r.below(i)], s); if (s.p.empty()) { --i; continue; } sides.push_back(s); }
  for (auto& s : sides) obj.push_back(std::make_shared<fcl::CollisionObjectd>(s.g, ft<double>(s.tf)));
  std::vector<std::string> before; for (auto& s : sides) before.push_back(snap(s)); std::vector<Query9> qs; std::vector<uint64_t> ans; std::string info; for (auto& s : sides) info += s.info + " | ";
  auto name = [&](const Query9& q) { return pname(sides[q.a], sides[q.b]) + " " + sv(q.s) + (q.dist ? q.sgn ? " signed distance" : " distance" : " collide"); };
  int m = r.range(6, 16); for (int i = 0; i < m; ++i) { Query9 q; q.a = r.below(n); do q.b = r.below(n); while (q.b == q.a); q.dist = r.chance(.4); q.s = r.below(2); q.nmax = r.chance(.5) ? 1 : r.range(2, 1000); q.contact = r.chance(.6); q.cost = r.chance(.2); q.sgn = r.chance(.3); q.pts = r.chance(.6); q.tol = r.chance(.6) ? 1e-6 : r.logu(1e-8, 1e-3); q.viaObjects = r.chance(.5); qs.push_back(q); }
  for (auto& q : qs) { c.phase("N09 %s", name(q).c_str()); ans.push_back(answer(q, sides, obj, q.viaObjects)); }
  for (int i = 0; i < m; ++i) if (!ans[i]) c.violation("request changed|" + name(qs[i]), info);
  for (int k = 0; k < 2 * m; ++k) { int i = r.below(m); bool via = r.chance(.5); c.phase("N09 again %s", name(qs[i]).c_str()); if (answer(qs[i], sides, obj, via) != ans[i]) c.violation(std::string(via == qs[i].viaObjects ? "repeated query differs|" : "collision objects and geometry differ|") + name(qs[i]), info); c.count("repeated queries"); }
  if (c.caseno % 8 == 0) {   // in a process of its own, nothing before it
    int i = r.below(m), fd[2]; if (pipe(fd)) return; pid_t pid = fork();
    if (!pid) { uint64_t a = answer(qs[i], sides, obj, r.chance(.5)); ssize_t w = write(fd[1], &a, 8); _exit(w == 8 ? 0 : 1); }
    uint64_t a = 0; close(fd[1]); ssize_t got = read(fd[0], &a, 8); close(fd[0]); int st; waitpid(pid, &st, 0); if (got == 8) { c.count("queries in a process of their own"); if (a != ans[i]) c.violation("another process answers differently|" + name(qs[i]), info); }
  }
  E3 guess(1, 0, 0);   // warm starts
  for (int k = 0; k < 6; ++k) {
    Query9 q = qs[r.below(m)]; q.dist = false; q.nmax = 100000; q.cost = false; if (r.chance(.8)) q.s = 1; c.phase("N09 warm %s", name(q).c_str()); fcl::CollisionResultd cold, warm; answer(q, sides, obj, false, nullptr, &cold);
    if (r.chance(.4)) guess = fv<double>(randUnit(r) * r.logu(1e-3, 10)); else if (r.chance(.1)) guess = E3(0, 0, 0); if (!guess.allFinite()) guess = E3(0, 1, 0);
    warm.cached_gjk_guess = guess; answer(q, sides, obj, r.chance(.5), &guess, &warm); const Side &a = sides[q.a], &b = sides[q.b]; c.count("warm starts");
    std::set<std::pair<intptr_t, intptr_t>> s0, s1; for (auto& x : idsOf(cold)) s0.insert(x); for (auto& x : idsOf(warm)) s1.insert(x);
    if (cold.isCollision() != warm.isCollision() && judgeSides(a, b, 1.5e-3)) c.violation("guess changes the verdict|" + name(q), vh::fmt("guess %g %g %g, %d without ", guess[0], guess[1], guess[2], cold.isCollision()) + info);
    else if (s0 != s1) { c.count("pairs differ"); for (int k = 0; k < 2; ++k) for (auto& x : k ? s1 : s0) if (!(k ? s0 : s1).count(x)) { const Prim *p = primOf(a, x.first), *w = primOf(b, x.second); if (!p || !w) { p = primOf(a, x.second); w = primOf(b, x.first); } if (p && w && judge2(*p, *w, 1.5e-3)) { c.violation("guess changes the pairs|" + name(q), info); k = 2; break; } } }
    guess = warm.cached_gjk_guess;
  }
  for (int i = 0; i < n; ++i) { if (snap(sides[i]) != before[i]) c.violation("geometry changed|" + sides[i].name, info); auto t = obj[i]->getTransform(); if (!(t.matrix() == ft<double>(sides[i].tf).matrix())) c.violation("transform changed|" + sides[i].name, info); if (obj[i]->collisionGeometry() != sides[i].g) c.violation("geometry replaced|" + sides[i].name, info); c.count("geometries compared"); }
  vh::Hash h; h.add(info); c.observe(h.h); c.count("histories");
}

// ---------------------------------------------------------------- N11
static Side grown(Rng& r, const Side& b, int& how) {
  Side o;
  if (b.kind == 0) { Shape s = b.shape; double f = r.chance(.3) ? 1 : 1 + r.logu(1e-3, 2); how = 0;
    if (s.k == CONVEX) { V m; for (auto& q : s.pts) m = m + q * (1. / s.pts.size()); for (auto& q : s.pts) q = m + (q - m) * f; } else s.p = s.p * f; o = shapeSide(s, b.tf); return o; }
  if (b.kind == 3) { Shape s = b.shape; how = 3; if (s.k == HALFSPACE) s.d += r.logu(1e-3, 2); return shapeSide(s, b.tf); }
  if (b.kind == 1) { Mesh m = b.mesh; how = 1; int n = r.range(1, 6); for (int i = 0; i < n; ++i) { V p = randIn(r, 1); V e = p + randIn(r, .5), f = p + randIn(r, .5); if (norm(cross(e - p, f - p)) < 1e-2) continue; addTri(m, p, e, f); } int t = 0; for (int i = 0; i < 8; ++i) if (b.name == std::string("BVHModel<") + tname(i) + ">") t = i; return meshSide(r, m, t, b.tf); }
  how = 2; Oct q; q.res = b.oct.res; q.t = std::make_shared<octomap::OcTree>(*b.oct.t); int n = r.range(1, 5); V at = b.oct.leaves.empty() ? V() : b.oct.leaves[r.below(b.oct.leaves.size())].c;
  for (int i = 0; i < n; ++i) { V p = at + randIn(r, 3 * q.res); octomap::OcTreeKey k; if (q.t->coordToKeyChecked(p.x, p.y, p.z, k)) q.t->setNodeValue(k, 2.f); }
  q.occ = b.oct.occ; q.fre = b.oct.fre; q.g = std::make_shared<FOct>(std::shared_ptr<const octomap::OcTree>(q.t)); if (q.occ) q.g->setOccupancyThres(octomap::probability(q.occ)); if (q.fre) q.g->setFreeThres(octomap::probability(q.fre)); q.g->computeLocalAABB(); q.list(); return octSide(r, q, b.tf);
}
VH_PROP(N11) {
  auto& r = c.rng; Quiet quiet; const double M = 1.5e-3; Side a = randSide(r), b = randSide(r); placeNear(r, a, b); if (a.p.empty() || b.p.empty()) return;
  Q8 q{&a, &b, r.chance(.5), r.below(2)}; std::string pn = q.swap ? pname(b, a) : pname(a, b), key = pn + " " + sv(q.s), info = key + " " + a.info + " | " + b.info; vh::Hash h; h.add(info); c.observe(h.h);
  auto two = [&](const Q8& p, const std::string& k, bool& hit, double& d) { c.phase("N11 %s", k.c_str()); fcl::CollisionRequestd rq(1, r.chance(.5), 1, false, true, solver(p.s)); fcl::CollisionResultd cr; run8(p, rq, cr); hit = cr.isCollision(); fcl::DistanceRequestd dq(r.chance(.5), r.chance(.3), 0, 0, 1e-6, solver(p.s)); fcl::DistanceResultd dr; d = run8(p, dq, dr); return d < 1e300; };
  bool hit, hit2; double d, d2; bool ok = two(q, key, hit, d);
  bool mixed = a.kind == 1 && b.kind == 1 && a.name != b.name;   // no query for these
  if (ok) { c.count("compared"); c.count(hit ? "meeting" : "apart"); if (hit != (d <= 0)) { if (judgeSides(a, b, M)) c.violation("collision and distance disagree|" + key, vh::fmt("collision %d, distance %.9g ", hit, d) + info); else c.count("too close to call"); } }
  // an overlap measured by contacts: as deep as the deepest of all of them
  if (ok && d <= 0 && (q.s == 1 || a.kind || b.kind) && r.chance(.5)) {
    c.phase("N11 signed %s", key.c_str()); fcl::DistanceRequestd dq(false, true, 0, 0, 1e-6, solver(q.s)); fcl::DistanceResultd dr; double v = run8(q, dq, dr);
    if (v < 0 && v > -1e300) { fcl::CollisionRequestd rq(1000000, true, 1, false, true, solver(q.s)); rq.gjk_tolerance = q.s ? 1e-6 : fcl::constantsd::gjk_default_tolerance(); fcl::CollisionResultd cr; run8(q, rq, cr); double m = 0; for (size_t i = 0; i < cr.numContacts(); ++i) m = std::max(m, cr.getContact(i).penetration_depth); c.count("overlaps measured"); if (cr.numContacts() > 1) c.count("overlaps with several contacts");
      if (std::abs(v + m) > (q.s ? 1e-4 + .02 * m : 1e-6 * (1 + m)) && judgeSides(a, b, M) > 0) c.violation("signed distance is not the depth of the deepest contact|" + key, vh::fmt("%.9g, deepest of %zu contacts %.9g ", v, cr.numContacts(), m) + info); }
  }
  if (mixed) return; int how; Side g = grown(r, b, how); Q8 q2{&a, &g, q.swap, q.s}; bool ok2 = two(q2, key, hit2, d2); std::string info2 = info + " grown: " + g.info;
  static const char* hn[] = {"scaled", "triangles added", "cells added", "moved out"};
  if (hit && !hit2) { if (judgeSides(a, b, M) > 0) c.violation(std::string("growing ends a collision|") + hn[how] + "|" + key, info2); else c.count("too close to call"); }
  if (ok != ok2) c.violation("growing changes support|" + key, info2);
  if (ok && ok2) { c.count("grown compared"); if (d > 0 && d2 > d + 1e-4 * (1 + d)) c.violation(std::string("growing increases the distance|") + hn[how] + "|" + key, vh::fmt("%.9g to %.9g ", d, d2) + info2); if (d <= 0 && d2 > 0 && judgeSides(a, b, M) > 0) c.violation(std::string("growing ends contact|") + hn[how] + "|" + key, vh::fmt("%.9g to %.9g ", d, d2) + info2); if (d2 < d - 1e-6) c.count("closer when grown"); }
  if (hit2 && !hit) c.count("growing starts a collision");
}
// ---------------------------------------------------------------- N10
static double extremeLen(Rng& r) { switch (r.below(8)) { case 0: case 1: return r.logu(1e-8, 1e-3); case 2: case 3: return r.logu(1e3, 1e8); case 4: return 1; case 5: return std::ldexp(1., r.range(-26, 26)); default: return r.logu(.05, 20); } }
static Shape extremeShape(Rng& r, Kind k) {
  Shape s = randShape(r, k, .2, 2); double l = extremeLen(r); int way = r.below(4);   // all alike, one different, all different, as equal as can be
  auto L = [&] { return way == 2 ? extremeLen(r) : way == 1 && r.chance(.4) ? extremeLen(r) : way == 3 ? l : l * r.uni(.5, 1.5); };
  switch (k) {
    case SPHERE: s.p.x = l; break;
    case BOX: case ELLIPSOID: s.p = V(L(), L(), L()); break;
    case CAPSULE: case CONE: case CYLINDER: s.p = V(L(), L(), 0); break;
    case CONVEX: { if (r.chance(.3)) { s = boxShape(V(1, 1, 1)); Shape q; q.k = CONVEX; Mesh m = boxMesh(V(.5, .5, .5)); q.pts = m.v; q.tris = m.t; s = q; } V f(L(), L(), L()); for (auto& q : s.pts) q = V(q.x * f.x, q.y * f.y, q.z * f.z); break; }
    case TRI: { double f = L(); for (auto& q : s.pts) q = q * f; int w = r.below(6); if (w == 0) s.pts[2] = s.pts[0] + (s.pts[1] - s.pts[0]) * r.uni(-1, 2); else if (w == 1) s.pts[2] = s.pts[r.below(2)]; else if (w == 2) s.pts[1] = s.pts[2] = s.pts[0]; else if (w == 3) s.pts[2] = s.pts[0] + (s.pts[1] - s.pts[0]) * r.u() + randIn(r, f * 1e-9); break; }
    default: s.d = r.chance(.3) ? 0 : (r.chance(.5) ? 1 : -1) * l;
  }
  return s;
}
static Mesh extremeMesh(Rng& r) {
  Mesh m = randMesh(r, r.below(7), r.chance(.5) ? 3 : 20); int way = r.below(4); double l = extremeLen(r); V f = way == 0 ? V(l, l, l) : way == 1 ? V(extremeLen(r), extremeLen(r), extremeLen(r)) : way == 2 ? V(l, l, extremeLen(r)) : V(1, 1, 1);
  if (r.chance(.1)) (r.chance(.5) ? f.x : f.z) = 0;
  for (auto& v : m.v) v = V(v.x * f.x, v.y * f.y, v.z * f.z);
  if (r.chance(.1)) { V o = m.v[0]; for (auto& v : m.v) v = o; m.kind += ", one point"; } else if (r.chance(.1)) { V o = m.v[0], e = randIn(r, l); for (auto& v : m.v) v = o + e * r.uni(-1, 1); m.kind += ", one line"; }
  else if (r.chance(.2)) { for (auto& t : m.t) if (r.chance(.3)) t[r.below(3)] = t[r.below(3)]; m.kind += ", repeated corners"; }
  return m;
}
static Side extremeSide(Rng& r, const T& tf) {
  int k = r.below(12);
  if (k < 6) return shapeSide(extremeShape(r, scene::randKind(r)), tf);
  if (k < 7) return shapeSide(extremeShape(r, TRI), tf);
  if (k < 8) return shapeSide(extremeShape(r, r.chance(.5) ? HALFSPACE : PLANE), tf);
  if (k < 11) return meshSide(r, extremeMesh(r), r.below(8), tf);
  for (;;) { Oct o; o.res = r.logu(1e-5, 1e4); o.t = std::make_shared<octomap::OcTree>(o.res); fill(r, o, r.range(1, 8), o.res * r.logu(.5, 1e4)); o.g = std::make_shared<FOct>(std::shared_ptr<const octomap::OcTree>(o.t)); o.g->computeLocalAABB(); o.list(); return octSide(r, o, tf); }
}
static T quarter(Rng& r) { T t; V z(0, 0, 1), x(1, 0, 0); for (int i = r.below(4); i > 0; --i) t.R = t.R * axisAngle(z, std::acos(0.) ); for (int i = r.below(4); i > 0; --i) t.R = t.R * axisAngle(x, std::acos(0.)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.R.m[i][j] = std::round((double)t.R.m[i][j]); return t; }
static double reach(const Side& s, const V& n) { double m = 0; for (auto& p : s.p) if (p.s.bounded()) { double mn, mx; extentAlong(p.s, p.tf, n, mn, mx); m = std::max(m, mx - (double)dot(n, s.tf.t)); } return m; }
// A query that uses up its processor time is left by a jump; it is called stuck.
#ifdef VH_SAN
static const double LIMIT = 20;
#else
static const double LIMIT = 3;
#endif
static sigjmp_buf stuckBuf; static void onStuck(int) { siglongjmp(stuckBuf, 1); }
static void budget(double sec) { itimerval v{}; v.it_value.tv_sec = (long)sec; v.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); setitimer(ITIMER_VIRTUAL, &v, nullptr); }
VH_PROP(N10) {
  signal(SIGVTALRM, onStuck);
  auto& r = c.rng; Quiet quiet; T ta, tb; int pose = r.below(10); std::string how;
  auto rot = [&] { return r.chance(.4) ? T().R : r.chance(.5) ? quarter(r).R : r.chance(.3) ? axisAngle(randUnit(r), r.logu(1e-12, 1e-2)) : randPose(r, 1).R; };
  ta.R = rot(); tb.R = r.chance(.5) ? ta.R : rot(); if (r.chance(.3)) { double l = extremeLen(r); ta.t = randIn(r, l); } else if (r.chance(.4)) ta.t = randIn(r, 2);
  Side a = extremeSide(r, ta), b = r.chance(.15) ? a : extremeSide(r, tb);
  if (b.g == a.g) how = "same object, "; else if (r.chance(.1) && a.kind == 0) { b = shapeSide(a.shape, tb); how = "same shape, "; }
  T to = b.tf; double sa = 0, sb = 0; for (auto& p : a.p) if (p.s.bounded()) sa = std::max(sa, (double)(norm(p.c - a.tf.t) + p.rad)); for (auto& p : b.p) if (p.s.bounded()) sb = std::max(sb, (double)(norm(p.c - b.tf.t) + p.rad));
  if (pose < 2) { to.t = a.tf.t; how += "coincident centres"; if (r.chance(.5)) to.R = a.tf.R; }
  else if (pose < 5) { V n = r.chance(.6) ? (r.below(2) ? V(1, 0, 0) : r.below(2) ? V(0, 1, 0) : V(0, 0, 1)) : randUnit(r); if (r.chance(.5)) n = a.tf.R * n; if (r.chance(.5)) n = -n; movePrims(b, to); double e = r.chance(.6) ? 0 : (r.chance(.5) ? 1 : -1) * (r.chance(.5) ? r.logu(1e-16, 1e-3) : r.logu(1e-12, .5) * std::min(sa, sb)); to.t = a.tf.t + n * (reach(a, n) + reach(b, -n) + e); how += e ? "almost in contact" : "in contact"; }
  else if (pose < 6) { to.t = a.tf.t + randUnit(r) * r.logu(1e3, 1e8); how += "far apart"; }
  else if (pose < 7) { V o = randUnit(r) * r.logu(1e3, 1e8); T x = a.tf; x.t = x.t + o; movePrims(a, x); to.t = a.tf.t + randUnit(r) * ((sa + sb) * r.u()); how += "far from the origin"; }
  else if (pose < 9) { to.t = a.tf.t + randUnit(r) * ((sa + sb) * r.u() * (r.chance(.3) ? .05 : 1.2)); how += "near"; }
  else { to.t = a.tf.t + randUnit(r) * (std::min(sa, sb) * r.logu(1e-12, 1)); how += "deep"; }
  movePrims(b, to);
  int s = r.below(2); bool swap = r.chance(.5); std::string key = (swap ? pname(b, a) : pname(a, b)) + " " + sv(s), info = key + ", " + how + ": " + a.info + " | " + b.info; vh::Hash h; h.add(info); c.observe(h.h); c.count("pairs"); c.count("pose " + how);
  const Side &x = swap ? b : a, &y = swap ? a : b; TF tx = ft<double>(x.tf), ty = ft<double>(y.tf);
  auto cpu = [] { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  auto run = [&](const char* what, const std::function<void()>& f) {
    c.phase("N10 %s %s", what, key.c_str()); double t0 = cpu();
    if (!sigsetjmp(stuckBuf, 1)) {
      budget(LIMIT);
      try { f(); c.count(std::string(what) + " answered"); }
      catch (const std::logic_error& e) { c.count(std::string(what) + " refused"); c.count("refused " + key); }
      catch (const std::exception& e) { c.violation(std::string("undocumented exception|") + what + "|" + key, std::string(e.what()).substr(0, 200) + " " + info); }
      budget(0); c.maxi(std::string(what) + " seconds", cpu() - t0);
    } else c.violation(std::string("stuck|") + what + "|" + key, vh::fmt("no answer in %.3g s ", LIMIT) + info);
  };
  bool hit = false;
  run("collide", [&] { fcl::CollisionRequestd q(r.chance(.5) ? 1 : r.range(2, 100), false, 1, false, true, solver(s), r.chance(.7) ? 1e-6 : r.logu(1e-12, 1e-2)); fcl::CollisionResultd res; size_t n = fcl::collide(x.g.get(), tx, y.g.get(), ty, q, res); hit = res.isCollision(); if (hit) c.count("meeting"); if ((n > 0) != hit) c.violation("return value|" + key, info); });
  run("contacts", [&] {
    fcl::CollisionRequestd q(r.chance(.5) ? 1 : r.range(2, 100), true, r.range(1, 5), r.chance(.2), r.chance(.5), solver(s), r.chance(.7) ? 1e-6 : r.logu(1e-12, 1e-2)); fcl::CollisionResultd res; fcl::collide(x.g.get(), tx, y.g.get(), ty, q, res);
    for (size_t i = 0; i < res.numContacts(); ++i) { auto& k = res.getContact(i); c.count("contacts"); if (!k.normal.allFinite() || !k.pos.allFinite() || !std::isfinite(k.penetration_depth)) { c.violation("contact not finite|" + key, vh::fmt("depth %g normal %g %g %g position %g %g %g ", k.penetration_depth, k.normal[0], k.normal[1], k.normal[2], k.pos[0], k.pos[1], k.pos[2]) + info); break; } }
    std::vector<fcl::CostSourced> cs; res.getCostSources(cs); for (auto& k : cs) if (!k.aabb_min.allFinite() || !k.aabb_max.allFinite() || !std::isfinite(k.total_cost)) { if (x.kind == 3 || y.kind == 3) continue; c.violation("cost source not finite|" + key, info); break; }
  });
  auto dist = [&](const char* what, bool pts, bool sgn) { run(what, [&] {
    fcl::DistanceRequestd q(pts, sgn, 0, 0, r.chance(.7) ? 1e-6 : r.logu(1e-12, 1e-2), solver(s)); fcl::DistanceResultd res; double v = fcl::distance(x.g.get(), tx, y.g.get(), ty, q, res);
    if (!res.o1 && !res.o2) { c.count("unsupported"); return; }
    if (!std::isfinite(v) || !std::isfinite(res.min_distance)) c.violation(std::string("distance not finite|") + what + "|" + key, vh::fmt("%g %g ", v, res.min_distance) + info);
    // a negative value of an unsigned query only says that the objects meet
    //|" + key, vh::fmt("%g ", v) + info);
    if (pts && v > 0) { c.count("nearest points"); if (!res.nearest_points[0].allFinite() || !res.nearest_points[1].allFinite()) c.violation(std::string("nearest points not finite|") + what + "|" + key, info); }
  }); };
  dist("distance", false, false); dist("nearest points", true, false); dist("signed distance", r.chance(.5), true);
}
VH_MAIN

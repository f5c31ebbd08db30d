// Broad phase: every manager against all-pairs reference enumeration.
#include "fx.h"
#include "mgrx.h"
using namespace ref; using vh::Ctx;
typedef std::pair<O*, O*> PP;
static PP up(O* a, O* b) { return a < b ? PP(a, b) : PP(b, a); }
static bool over(const A& a, const A& b) { for (int i = 0; i < 3; ++i) if (a.min_[i] > b.max_[i] || b.min_[i] > a.max_[i]) return false; return true; }
static double boxDist(const A& a, const A& b) { double s = 0; for (int i = 0; i < 3; ++i) { double d = std::max(0.0, std::max(a.min_[i] - b.max_[i], b.min_[i] - a.max_[i])); s += d * d; } return std::sqrt(s); }
static bool unbounded(const A& a) { for (int i = 0; i < 3; ++i) if (!(a.max_[i] - a.min_[i] < 1e100)) return true; return false; }
// pair distance: mode 0 the boxes themselves, mode 1 the balls inscribed in them (>= box distance, so pruning is legitimate)
static double pairDist(O* a, O* b, int mode) {
  const A &x = a->getAABB(), &y = b->getAABB(); if (!mode || unbounded(x) || unbounded(y)) return boxDist(x, y);
  double rx = 1e300, ry = 1e300, c = 0; for (int i = 0; i < 3; ++i) { rx = std::min(rx, (x.max_[i] - x.min_[i]) / 2); ry = std::min(ry, (y.max_[i] - y.min_[i]) / 2); double d = (x.max_[i] + x.min_[i] - y.max_[i] - y.min_[i]) / 2; c += d * d; }
  return std::max(0.0, std::sqrt(c) - rx - ry);
}
struct Log { std::vector<PP> calls; long stopAt = -1; int mode = 0; double min = 1e300; bool touching = false; };
static bool ccb(O* a, O* b, void* d) { auto* l = (Log*)d; l->calls.push_back(PP(a, b)); return l->stopAt > 0 && (long)l->calls.size() >= l->stopAt; }
static bool dcb(O* a, O* b, void* d, double& dist) {
  auto* l = (Log*)d; l->calls.push_back(PP(a, b)); if (a != b) l->min = std::min(l->min, pairDist(a, b, l->mode)); dist = l->min;
  return (l->stopAt > 0 && (long)l->calls.size() >= l->stopAt) || (l->touching && l->min <= 0);
}

struct World {
  Rng& r; int style; double span; std::vector<O*> all; bool rot, unb;
  explicit World(Rng& q) : r(q) { style = r.below(9); span = r.logu(2, 30); rot = r.chance(.4); unb = r.chance(.15); }
  ~World() { for (auto* o : all) delete o; }
  V place() {
    switch (style) {
      case 0: case 1: return randIn(r, span);
      case 2: { V c(r.range(-1, 1) * span, r.range(-1, 1) * span, r.range(-1, 1) * span); return c + randIn(r, 1.5); }      // clusters
      case 3: case 4: { int e = (int)std::min(span, 6.0); return V(r.range(-e, e), r.range(-e, e), r.range(-e, e)); }     // touching grid
      case 5: return V(r.chance(.5) ? 0 : r.range(-1, 1), 0, 0);                                                           // piled up
      case 6: return V(r.uni(-span, span), 0, 0);                                                                          // a line
      case 7: return V(r.uni(-span, span), r.uni(-span, span), r.chance(.5) ? 0 : 1);                                       // a floor
      default: return randIn(r, span);                                                                                     // mixed sizes
    }
  }
  T pose() { T t; t.t = place(); if (rot && r.chance(.7)) t.R = randRot(r); return t; }
  std::shared_ptr<fcl::CollisionGeometry<double>> geom() {
    double s = style == 8 ? r.logu(1e-3, span) : style == 3 || style == 4 ? (double)r.range(1, 2) : style == 5 ? 1 : r.logu(.1, 2);
    if (r.chance(.03)) s = 0;                                                                                              // a point
    if (unb && r.chance(.1)) { V n; if (r.chance(.7)) n[r.below(3)] = r.chance(.5) ? 1 : -1; else n = randUnit(r); if (r.chance(.5)) return std::make_shared<fcl::Halfspace<double>>(fx::fv<double>(n), r.range(-3, 3)); return std::make_shared<fcl::Plane<double>>(fx::fv<double>(n), r.range(-3, 3)); }
    if (style == 3 || style == 4) return std::make_shared<fcl::Box<double>>(s, r.chance(.5) ? s : 1, r.chance(.9) ? s : 0);
    if (r.chance(.5)) return std::make_shared<fcl::Sphere<double>>(s / 2);
    return std::make_shared<fcl::Box<double>>(s, r.chance(.3) ? s : s * r.logu(.1, 3), r.chance(.3) ? s : s * r.logu(.1, 3));
  }
  O* fresh() { O* o = new O(geom(), fx::ft<double>(pose())); o->computeAABB(); all.push_back(o); return o; }
  void move(O* o) {
    double u = r.u(); auto f = o->getTransform();
    if (u < .3) { V d = style == 3 || style == 4 ? V(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)) : randIn(r, r.logu(1e-3, 1)); f.translation() += fx::fv<double>(d); }
    else if (u < .45) { V d; d[r.below(3)] = r.chance(.5) ? 1 : -1; f.translation() += fx::fv<double>(d); }
    else if (u < .55) { f.linear() = fx::ft<double>(pose()).linear(); }
    else if (u < .6) { f.translation() *= r.chance(.5) ? 3 : -1; }
    else f = fx::ft<double>(pose());
    o->setTransform(f); o->computeAABB();
  }
  void kill(O* o) { for (auto& p : all) if (p == o) { p = all.back(); all.pop_back(); break; } delete o; }
  HashCfg cfg() {
    HashCfg h; double e = style == 5 ? 2 : style == 3 || style == 4 ? std::min(span, 6.0) : span; double u = r.u();
    if (u < .5) { h.lo = V(-e - 4, -e - 4, -e - 4); h.hi = -h.lo; } else if (u < .8) { h.lo = V(-e * r.uni(.3, 1), -e * r.uni(.3, 1), -e * r.uni(.3, 1)); h.hi = V(e * r.uni(.1, 1), e * r.uni(.1, 1), e * r.uni(.1, 1)); } else { h.lo = V(-1, -1, -1); h.hi = V(1, 1, 1); }
    if (style == 3 || style == 4) for (int i = 0; i < 3; ++i) { h.lo[i] = std::floor(h.lo[i]); h.hi[i] = std::ceil(h.hi[i]); if (h.hi[i] <= h.lo[i]) h.hi[i] = h.lo[i] + 1; }
    double w = std::max(h.hi.x - h.lo.x, std::max(h.hi.y - h.lo.y, h.hi.z - h.lo.z)); h.cell = style == 3 || style == 4 ? (double)std::max(1.0, std::ceil(w / 12)) : w / r.range(1, 12); h.table = r.chance(.5) ? 1000 : r.range(1, 50); return h;
  }
  std::string str() const { return vh::fmt("style=%d span=%.3g rot=%d unbounded=%d objects=%d", style, span, rot, unb, (int)all.size()); }
};
static int randN(Rng& r) { double u = r.u(); return u < .1 ? r.range(1, 2) : u < .6 ? r.range(3, 30) : u < .9 ? r.range(30, 120) : r.range(120, 260); }

// what a collide log must satisfy: `need` all contained, nothing foreign, no repetition
static void judge(Ctx& c, const char* q, const std::string& mn, const Log& l, const std::set<PP>& need, const std::set<O*>& s1, const std::set<O*>& s2, bool selfQ, const std::string& info) {
  std::set<PP> got; std::string k = std::string(q) + " " + mn;
  for (auto& p : l.calls) {
    bool mem = (s1.count(p.first) && s2.count(p.second)) || (s1.count(p.second) && s2.count(p.first));
    if (!mem) { c.violation("foreign object|" + k, info); return; }
    if (p.first == p.second) { if (selfQ) { c.violation("object paired with itself|" + k, info); return; } continue; }
    if (!got.insert(up(p.first, p.second)).second) { c.violation("pair handed over twice|" + k, info); return; }
  }
  long miss = 0; for (auto& p : need) if (!got.count(p)) ++miss;
  c.count("pairs required", need.size()); c.count("pairs handed over", got.size());
  if (miss) { PP m; for (auto& p : need) if (!got.count(p)) { m = p; break; }
    auto bs = [](const A& a) { return vh::fmt("[%.9g %.9g %.9g]-[%.9g %.9g %.9g]", a.min_[0], a.min_[1], a.min_[2], a.max_[0], a.max_[1], a.max_[2]); };
    c.violation("overlapping pair missed|" + k, vh::fmt("%ld of %d missed, e.g. %s and %s ", miss, (int)need.size(), bs(m.first->getAABB()).c_str(), bs(m.second->getAABB()).c_str()) + info); }
}
static void judgeDist(Ctx& c, const char* q, const std::string& mn, const Log& l, double want, const std::set<O*>& s1, const std::set<O*>& s2, const std::string& info) {
  std::string k = std::string(q) + " " + mn;
  for (auto& p : l.calls) if (!((s1.count(p.first) && s2.count(p.second)) || (s1.count(p.second) && s2.count(p.first)))) { c.violation("foreign object|" + k, info); return; }
  double got = l.min; bool none = want >= 1e300, gn = got >= 1e300; c.count("distance minima compared"); c.count("distance callbacks", l.calls.size());
  if (none != gn || (!none && std::fabs(got - want) > 1e-12 * std::max(1.0, want))) c.violation("minimum missed|" + k, vh::fmt("got %.12g, true minimum %.12g, %d calls ", got, want, (int)l.calls.size()) + info);
}
static std::set<PP> needSelf(const std::set<O*>& s) { std::set<PP> n; for (auto a = s.begin(); a != s.end(); ++a) for (auto b = std::next(a); b != s.end(); ++b) if (over((*a)->getAABB(), (*b)->getAABB())) n.insert(up(*a, *b)); return n; }
static std::set<PP> needCross(const std::set<O*>& s, const std::set<O*>& t) { std::set<PP> n; for (auto* a : s) for (auto* b : t) if (over(a->getAABB(), b->getAABB())) n.insert(up(a, b)); return n; }
static double minSelf(const std::set<O*>& s, int mode) { double m = 1e300; for (auto a = s.begin(); a != s.end(); ++a) for (auto b = std::next(a); b != s.end(); ++b) m = std::min(m, pairDist(*a, *b, mode)); return m; }
static double minCross(const std::set<O*>& s, const std::set<O*>& t, int mode) { double m = 1e300; for (auto* a : s) for (auto* b : t) m = std::min(m, pairDist(a, b, mode)); return m; }
static void hashWorld(vh::Hash& h, const std::set<O*>& s) { double q = 0; for (auto* o : s) q += o->getAABB().min_[0] * 3 + o->getAABB().max_[1]; h.add(q); h.add((int)s.size()); }

struct Setup {
  World w; int m; std::unique_ptr<Mgr> a, b; std::set<O*> sa, sb; std::vector<O*> queries; std::string info, mn;
  Setup(Ctx& c, int maxn = 260) : w(c.rng) {
    auto& r = c.rng; m = c.caseno % NM; mn = mname(m); HashCfg h = w.cfg(); int ex = r.below(6);
    a.reset(make(m, h, ex)); b.reset(make(m, r.chance(.7) ? h : w.cfg(), ex)); int na = std::min(maxn, randN(r)), nb = std::min(maxn, randN(r)); if (r.chance(.03)) na = 0;
    fill(r, a.get(), sa, na); fill(r, b.get(), sb, nb);
    for (int i = 0; i < 6; ++i) { O* q = w.fresh(); if (i == 5) { q->setTranslation(q->getTranslation() * 5); q->computeAABB(); } queries.push_back(q); }
    info = "manager=" + mn + " " + w.str() + vh::fmt(" registered=%d/%d", (int)sa.size(), (int)sb.size());
  }
  void fill(Rng& r, Mgr* g, std::set<O*>& s, int n) {
    std::vector<O*> v; for (int i = 0; i < n; ++i) v.push_back(w.fresh()); s.insert(v.begin(), v.end());
    int how = r.below(3); if (how == 0) g->registerObjects(v); else if (how == 1) for (auto* o : v) g->registerObject(o); else { std::vector<O*> x(v.begin(), v.begin() + n / 2), y(v.begin() + n / 2, v.end()); g->registerObjects(x); if (r.chance(.5)) g->registerObjects(y); else for (auto* o : y) g->registerObject(o); }
    g->setup();
  }
};
VH_PROP(B01) {
  c.phase("%s register", mname(c.caseno % NM)); Setup s(c); const char* mn = s.mn.c_str();
  { Log l; c.phase("%s self collide", mn); s.a->collide(&l, ccb); judge(c, "self collide", s.mn, l, needSelf(s.sa), s.sa, s.sa, true, s.info); }
  for (auto* q : s.queries) { std::set<O*> one{q}; Log l; c.phase("%s object collide", mn); s.a->collide(q, &l, ccb); judge(c, "object collide", s.mn, l, needCross(s.sa, one), s.sa, one, false, s.info); }
  if (!s.sa.empty()) { O* q = *std::next(s.sa.begin(), c.rng.below(s.sa.size())); std::set<O*> one{q}, rest(s.sa); rest.erase(q); Log l; c.phase("%s registered object collide", mn); s.a->collide(q, &l, ccb); judge(c, "registered object collide", s.mn, l, needCross(rest, one), s.sa, one, false, s.info); }
  { Log l; c.phase("%s manager collide", mn); s.a->collide(s.b.get(), &l, ccb); judge(c, "manager collide", s.mn, l, needCross(s.sa, s.sb), s.sa, s.sb, false, s.info); }
  { Log l; c.phase("%s manager collide reversed", mn); s.b->collide(s.a.get(), &l, ccb); judge(c, "manager collide", s.mn, l, needCross(s.sa, s.sb), s.sa, s.sb, false, s.info); }
  { Log l; c.phase("%s manager against itself", mn); s.a->collide(s.a.get(), &l, ccb); judge(c, "manager against itself", s.mn, l, needSelf(s.sa), s.sa, s.sa, true, s.info); }
  // with the shipped callback: one bounded query, spheres and boxes decided by the reference
  if (s.sa.size() <= 60) {
    fcl::DefaultCollisionData<double> d; d.request.num_max_contacts = c.rng.chance(.5) ? 1 : 100000; d.request.enable_contact = false; long lo = 0, hi = 0;   // merely touching pairs may be decided differently in the two orders
    for (auto& p : needSelf(s.sa)) { fcl::CollisionRequest<double> rq(1, false); fcl::CollisionResult<double> r1, r2; bool h1 = fcl::collide(p.first, p.second, rq, r1) > 0, h2 = fcl::collide(p.second, p.first, rq, r2) > 0; lo += h1 && h2; hi += h1 || h2; }
    c.phase("%s default callback", mn); s.a->collide(&d, fcl::DefaultCollisionFunction<double>); c.count("default-callback queries"); c.count("default-callback colliding pairs", lo); long got = d.result.numContacts();
    if (d.result.isCollision() ? !hi : lo > 0) c.violation("verdict|default callback " + s.mn, vh::fmt("reported %d, all pairs %ld..%ld ", d.result.isCollision(), lo, hi) + s.info);
    else if (d.request.num_max_contacts > 1 ? got < lo || got > hi : got > 1) c.violation("contact count|default callback " + s.mn, vh::fmt("reported %ld, all pairs %ld..%ld ", got, lo, hi) + s.info);
  }
  vh::Hash h; h.add(s.m); hashWorld(h, s.sa); c.observe(h.h); c.count("scenes"); c.count("scenes " + s.mn); if (s.sa.size() > 100) c.count("scenes over 100 objects");
  if (c.caseno < 4) c.sample(s.info);
}
VH_PROP(B02) {
  c.phase("%s register", mname(c.caseno % NM)); Setup s(c, 200); const char* mn = s.mn.c_str(); int mode = c.rng.below(2); bool t = c.rng.chance(.3);
  auto L = [&] { Log l; l.mode = mode; l.touching = t; return l; };
  { Log l = L(); c.phase("%s self distance", mn); s.a->distance(&l, dcb); judgeDist(c, "self distance", s.mn, l, minSelf(s.sa, mode), s.sa, s.sa, s.info); }
  for (auto* q : s.queries) { std::set<O*> one{q}; Log l = L(); c.phase("%s object distance", mn); s.a->distance(q, &l, dcb); judgeDist(c, "object distance", s.mn, l, minCross(s.sa, one, mode), s.sa, one, s.info); }
  { Log l = L(); c.phase("%s manager distance", mn); s.a->distance(s.b.get(), &l, dcb); judgeDist(c, "manager distance", s.mn, l, minCross(s.sa, s.sb, mode), s.sa, s.sb, s.info); }
  { Log l = L(); c.phase("%s manager distance reversed", mn); s.b->distance(s.a.get(), &l, dcb); judgeDist(c, "manager distance", s.mn, l, minCross(s.sa, s.sb, mode), s.sa, s.sb, s.info); }
  { Log l = L(); c.phase("%s manager distance to itself", mn); s.a->distance(s.a.get(), &l, dcb); judgeDist(c, "manager distance to itself", s.mn, l, minSelf(s.sa, mode), s.sa, s.sa, s.info); }
  if (s.sa.size() <= 25 && s.w.style != 5 && !s.w.unb) {   // the shipped callback with the library's own pair distance
    std::set<O*> one{s.queries[0]}; double want = 1e300;
    for (auto* o : s.sa) { fcl::DistanceRequest<double> rq; fcl::DistanceResult<double> rs; want = std::min(want, std::max(0.0, fcl::distance(o, s.queries[0], rq, rs))); }
    fcl::DefaultDistanceData<double> d; c.phase("%s default distance callback", mn); s.a->distance(s.queries[0], &d, fcl::DefaultDistanceFunction<double>); c.count("default-callback queries");
    double got = std::max(0.0, d.result.min_distance); if (!s.sa.empty() && std::fabs(got - want) > 1e-5 * std::max(1.0, want)) c.violation("minimum|default callback " + s.mn, vh::fmt("got %.12g, all pairs %.12g ", got, want) + s.info);
  }
  vh::Hash h; h.add(s.m); h.add(mode); hashWorld(h, s.sa); c.observe(h.h); c.count("scenes"); c.count("scenes " + s.mn); if (s.sa.size() > 100) c.count("scenes over 100 objects");
  if (c.caseno < 4) c.sample(s.info);
}
VH_PROP(B03) {
  auto& r = c.rng; World w(r); int m = c.caseno % NM; std::string mn = mname(m); HashCfg h = w.cfg(); int ex = r.below(6);
  std::unique_ptr<Mgr> g(make(m, h, ex)), g2(make(m, h, ex)); std::set<O*> in; std::vector<O*> out; std::string hist; int steps = r.range(3, 25); bool clean = true;   // clean: nothing moved since the last update
  std::set<O*> moved; int cap = r.chance(.1) ? 150 : r.chance(.3) ? 6 : 40;
  auto anyIn = [&] { return *std::next(in.begin(), r.below(in.size())); };
  for (int st = 0; st < steps; ++st) {
    double u = r.u();
    if (u < .15 && (int)in.size() < cap) { O* o = !out.empty() && r.chance(.6) ? out.back() : nullptr; if (o) out.pop_back(); else o = w.fresh(); if (r.chance(.5)) w.move(o); c.phase("%s registerObject", mn.c_str()); g->registerObject(o); in.insert(o); hist += "reg "; }
    else if (u < .28 && (int)in.size() < cap) { std::vector<O*> v; int n = r.range(0, std::max(1, cap / 2)); for (int i = 0; i < n; ++i) { O* o = w.fresh(); v.push_back(o); in.insert(o); } while (!out.empty() && r.chance(.4)) { v.push_back(out.back()); in.insert(out.back()); out.pop_back(); } c.phase("%s registerObjects", mn.c_str()); g->registerObjects(v); hist += vh::fmt("bulk%d ", (int)v.size()); }
    else if (u < .45 && !in.empty()) { O* o = anyIn(); if (r.chance(.25)) { w.move(o); hist += "mv+"; } c.phase("%s unregisterObject", mn.c_str()); g->unregisterObject(o); in.erase(o); moved.erase(o); hist += "unreg "; if (r.chance(.6)) { w.kill(o); hist += "del "; } else out.push_back(o); }
    else if (u < .5 && !in.empty() && r.chance(.5)) { while (!in.empty()) { O* o = anyIn(); c.phase("%s unregisterObject", mn.c_str()); g->unregisterObject(o); in.erase(o); if (r.chance(.5)) w.kill(o); else out.push_back(o); } moved.clear(); hist += "drain "; }
    else if (u < .55 && r.chance(.5)) { c.phase("%s clear", mn.c_str()); g->clear(); for (auto* o : in) { if (r.chance(.5)) w.kill(o); else out.push_back(o); } in.clear(); moved.clear(); hist += "clear "; }
    else if (!in.empty() && u < .9) {
      int how = r.below(3), k = how == 0 ? (int)in.size() : how == 1 ? 1 : r.range(1, in.size()); std::vector<O*> v;
      c.phase("%s setup", mn.c_str()); g->setup();
      if (how == 0) { for (auto* o : in) if (r.chance(.7)) w.move(o); c.phase("%s update()", mn.c_str()); g->update(); moved.clear(); hist += "updall "; }
      else { std::set<O*> z; for (int i = 0; i < k; ++i) z.insert(anyIn()); for (auto* o : z) { w.move(o); v.push_back(o); } if (r.chance(.2) && v.size() > 1) { // an update in two calls
            std::vector<O*> x(v.begin(), v.begin() + 1), y(v.begin() + 1, v.end()); c.phase("%s update(vector)", mn.c_str()); g->update(x); g->update(y); hist += "upd2 "; }
        else if (v.size() == 1 && r.chance(.6)) { c.phase("%s update(object)", mn.c_str()); g->update(v[0]); hist += "upd1 "; } else { c.phase("%s update(vector)", mn.c_str()); g->update(v); hist += vh::fmt("updv%d ", (int)v.size()); } }
    }
    else if (u < .93 && !in.empty()) { O* o = anyIn(); w.move(o); moved.insert(o); hist += "mv "; }
    c.count("operations");
    bool last = st + 1 == steps; if (!last && !r.chance(.35)) continue;
    std::string info = "manager=" + mn + " " + w.str() + " history: " + hist;
    c.phase("%s size/getObjects", mn.c_str());
    std::vector<O*> got; g->getObjects(got); std::set<O*> gs(got.begin(), got.end());
    if (g->size() != in.size() || gs != in || got.size() != in.size()) { c.violation("objects|" + mn, vh::fmt("size %d, listed %d, registered %d ", (int)g->size(), (int)got.size(), (int)in.size()) + info); return; }
    if (g->empty() != in.empty()) { c.violation("empty()|" + mn, vh::fmt("empty()=%d with %d objects ", g->empty(), (int)in.size()) + info); }
    if (!moved.empty()) { c.phase("%s update() after moves", mn.c_str()); g->setup(); if (r.chance(.5)) g->update(); else { std::vector<O*> v(moved.begin(), moved.end()); g->update(v); } moved.clear(); hist += "upd-moved "; } else if (r.chance(.8)) { c.phase("%s setup", mn.c_str()); g->setup(); } else { c.phase("%s setup", mn.c_str()); g->setup(); g->setup(); }
    int mode = r.below(2); O* q = w.fresh(); std::set<O*> one{q};
    { Log l; c.phase("%s self collide", mn.c_str()); g->collide(&l, ccb); judge(c, "history: self collide", mn, l, needSelf(in), in, in, true, info); }
    { Log l; c.phase("%s object collide", mn.c_str()); g->collide(q, &l, ccb); judge(c, "history: object collide", mn, l, needCross(in, one), in, one, false, info); }
    { Log l; l.mode = mode; c.phase("%s self distance", mn.c_str()); g->distance(&l, dcb); judgeDist(c, "history: self distance", mn, l, minSelf(in, mode), in, in, info); }
    { Log l; l.mode = mode; c.phase("%s object distance", mn.c_str()); g->distance(q, &l, dcb); judgeDist(c, "history: object distance", mn, l, minCross(in, one, mode), in, one, info); }
    if (r.chance(.3)) { std::vector<O*> v; for (int i = 0; i < 5; ++i) v.push_back(w.fresh()); std::set<O*> t(v.begin(), v.end()); g2->clear(); g2->registerObjects(v); g2->setup(); Log l; c.phase("%s manager collide", mn.c_str()); g->collide(g2.get(), &l, ccb); judge(c, "history: manager collide", mn, l, needCross(in, t), in, t, false, info); Log d; d.mode = mode; c.phase("%s manager distance", mn.c_str()); g2->distance(g.get(), &d, dcb); judgeDist(c, "history: manager distance", mn, d, minCross(in, t, mode), in, t, info); g2->clear(); }
    c.count("states checked"); vh::Hash hh; hh.add(m); hh.add(hist); hashWorld(hh, in); c.observe(hh.h);
  }
  c.count("histories " + mn); if (c.caseno < 4) c.sample(mn + ": " + hist);
  g.reset();
}
VH_PROP(B04) {
  c.phase("%s register", mname(c.caseno % NM)); Setup s(c, 120); auto& r = c.rng; int mode = r.below(2); O* q = s.queries[r.below(6)];
  if (!s.sa.empty() && r.chance(.5)) { q->setTranslation((*s.sa.begin())->getTranslation()); q->computeAABB(); }
  for (int kind = 0; kind < 8; ++kind) {
    static const char* kn[] = {"self collide", "object collide", "manager collide", "manager collide reversed", "self distance", "object distance", "manager distance", "manager distance reversed"};
    auto go = [&](Log& l) { l.mode = mode; c.phase("%s %s", s.mn.c_str(), kn[kind]); switch (kind) { case 0: s.a->collide(&l, ccb); break; case 1: s.a->collide(q, &l, ccb); break; case 2: s.a->collide(s.b.get(), &l, ccb); break; case 3: s.b->collide(s.a.get(), &l, ccb); break; case 4: s.a->distance(&l, dcb); break; case 5: s.a->distance(q, &l, dcb); break; case 6: s.a->distance(s.b.get(), &l, dcb); break; default: s.b->distance(s.a.get(), &l, dcb); } };
    Log full; go(full); long n = full.calls.size(); c.count("full queries"); if (!n) continue;
    for (int t = 0; t < 3; ++t) {
      Log l; l.stopAt = t == 0 ? 1 : t == 1 ? n : r.range(1, n); go(l); c.count("stopped queries"); c.count(std::string("stopped ") + kn[kind]);
      if ((long)l.calls.size() != l.stopAt) { c.violation(std::string((long)l.calls.size() > l.stopAt ? "calls after the stop|" : "fewer calls|") + kn[kind] + " " + s.mn, vh::fmt("asked to stop at call %ld of %ld, saw %d ", l.stopAt, n, (int)l.calls.size()) + s.info); break; }
      vh::Hash h; h.add(s.m); h.add(kind); h.add((int)l.stopAt); hashWorld(h, s.sa); c.observe(h.h);
    }
    Log again; go(again); if (again.calls != full.calls) c.violation(std::string("next query differs|") + kn[kind] + " " + s.mn, vh::fmt("%d calls, before the stop %ld ", (int)again.calls.size(), n) + s.info);
  }
  c.count("scenes " + s.mn); if (c.caseno < 4) c.sample(s.info);
}
VH_MAIN

// Concurrent queries on shared geometry and shared broad-phase managers, against the same queries alone.
#include "sidex.h"
#include "mgrx.h"
#include <atomic>
#include <thread>
#include <sched.h>
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/continuous_collision.h"
using vh::Ctx;
#ifndef VH_TSAN
static const bool TSAN = false;
#else
static const bool TSAN = true;
#endif
enum What { COLLIDE, DISTANCE, SIGNED, CONTINUOUS, MCOL, MDIST, MSELFCOL, MSELFDIST, MMCOL, MMDIST };
static const char* wn[] = {"collide", "distance", "signed distance", "continuous", "manager collide(object)", "manager distance(object)", "manager collide()", "manager distance()", "manager collide(manager)", "manager distance(manager)"};
struct Job { int w, a, b, m, m2, s; size_t nmax; bool contact, cost, pts, obj; int motion, ccd; };
struct World {
  std::vector<Side> sides; std::vector<std::shared_ptr<O>> obj; std::vector<TF> goal; std::vector<std::unique_ptr<Mgr>> mgr; std::vector<int> kind; HashCfg h;
  std::set<const void*> known;   // an octree's cells are handed out as objects made for the call: those have no name
  uint64_t name(const void* p) const { return known.count(p) ? (uint64_t)p : 0; }
};
// what a query handed back, as a hash: every field a caller may read
static void addV(vh::Hash& h, const E3& v) { for (int i = 0; i < 3; ++i) h.add(v[i]); }
static void addRes(const World& w, vh::Hash& h, fcl::CollisionResultd& res, bool contact) {
  h.add((uint64_t)res.numContacts());
  for (size_t i = 0; i < res.numContacts(); ++i) { auto& k = res.getContact(i); h.add(w.name(k.o1)); h.add(w.name(k.o2)); h.add((uint64_t)k.b1); h.add((uint64_t)k.b2); if (contact) { addV(h, k.pos); addV(h, k.normal); h.add(k.penetration_depth); } }
  std::vector<fcl::CostSourced> cs; res.getCostSources(cs); for (auto& k : cs) { addV(h, k.aabb_min); addV(h, k.aabb_max); h.add(k.total_cost); }
}
static void addRes(const World& w, vh::Hash& h, const fcl::DistanceResultd& res, bool pts) { h.add(res.min_distance); h.add(w.name(res.o1)); h.add(w.name(res.o2)); h.add((uint64_t)res.b1); h.add((uint64_t)res.b2); if (pts && res.min_distance > 0 && res.min_distance < 1e300) { addV(h, res.nearest_points[0]); addV(h, res.nearest_points[1]); } }
static void pause(uint64_t& z, bool on) { if (!on) return; z = z * 6364136223846793005ull + 1442695040888963407ull; switch (z >> 61) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < (int)(z >> 50 & 1023); i = i + 1) {} break; default: break; } }
struct CD { fcl::DefaultCollisionData<double> d; uint64_t calls = 0, z; bool slow; vh::Hash order; const World* w; };
struct DD { fcl::DefaultDistanceData<double> d; uint64_t calls = 0, z; bool slow; vh::Hash order; const World* w; };
static bool ccb(O* a, O* b, void* p) { auto* d = (CD*)p; ++d->calls; d->order.add(d->w->name(a)); d->order.add(d->w->name(b)); pause(d->z, d->slow); return fcl::DefaultCollisionFunction<double>(a, b, &d->d); }
static bool dcb(O* a, O* b, void* p, double& dist) { auto* d = (DD*)p; ++d->calls; d->order.add(d->w->name(a)); d->order.add(d->w->name(b)); pause(d->z, d->slow); return fcl::DefaultDistanceFunction<double>(a, b, &d->d, dist); }
static uint64_t run(const World& w, const Job& j, uint64_t z, bool slow, uint64_t& calls) {
  vh::Hash h; const Side &a = w.sides[j.a], &b = w.sides[j.b]; TF ta = ft<double>(a.tf), tb = ft<double>(b.tf);
  if (j.w == COLLIDE) { fcl::CollisionRequestd q(j.nmax, j.contact, 30, j.cost, false, solver(j.s)); fcl::CollisionResultd r; h.add((uint64_t)(j.obj ? fcl::collide(w.obj[j.a].get(), w.obj[j.b].get(), q, r) : fcl::collide(a.g.get(), ta, b.g.get(), tb, q, r))); addRes(w, h, r, j.contact); }
  else if (j.w == DISTANCE || j.w == SIGNED) { fcl::DistanceRequestd q(j.pts, j.w == SIGNED, 0, 0, 1e-6, solver(j.s)); fcl::DistanceResultd r; h.add(j.obj ? fcl::distance(w.obj[j.a].get(), w.obj[j.b].get(), q, r) : fcl::distance(a.g.get(), ta, b.g.get(), tb, q, r)); addRes(w, h, r, j.pts); }
  else if (j.w == CONTINUOUS) { fcl::ContinuousCollisionRequestd q(8, 1e-4, (fcl::CCDMotionType)j.motion, solver(j.s), (fcl::CCDSolverType)j.ccd); fcl::ContinuousCollisionResultd r; h.add(fcl::continuousCollide(a.g.get(), ta, w.goal[j.a], b.g.get(), tb, w.goal[j.b], q, r)); h.add((uint64_t)r.is_collide); h.add(r.time_of_contact); }
  else {
    const Mgr &m = *w.mgr[j.m], &m2 = *w.mgr[j.m2]; CD cd; cd.w = &w; cd.z = z; cd.slow = slow; cd.d.request.num_max_contacts = j.nmax; cd.d.request.enable_contact = j.contact; cd.d.request.gjk_solver_type = solver(j.s); DD dd; dd.w = &w; dd.z = z; dd.slow = slow; dd.d.request.gjk_solver_type = solver(j.s);
    switch (j.w) { case MCOL: m.collide(w.obj[j.a].get(), &cd, ccb); break; case MDIST: m.distance(w.obj[j.a].get(), &dd, dcb); break; case MSELFCOL: m.collide(&cd, ccb); break; case MSELFDIST: m.distance(&dd, dcb); break;
      case MMCOL: const_cast<Mgr&>(m).collide(const_cast<Mgr*>(&m2), &cd, ccb); break; default: const_cast<Mgr&>(m).distance(const_cast<Mgr*>(&m2), &dd, dcb); }
    h.add((uint64_t)m.size()); h.add((uint64_t)m.empty()); addRes(w, h, cd.d.result, j.contact); addRes(w, h, dd.d.result, false); h.add(cd.order.h); h.add(dd.order.h); h.add((uint64_t)cd.d.done); h.add((uint64_t)dd.d.done); calls += cd.calls + dd.calls;
  }
  return h.h;
}
VH_PROP(X02) {
  auto& r = c.rng; Quiet quiet; World w; int n = r.range(2, 5); bool managers = r.chance(.5);
  for (int i = 0; i < n; ++i) { Side s = randSide(r, 15, 10); if (i) placeNear(r, w.sides[r.below(i)], s); if (s.p.empty()) { --i; continue; } w.sides.push_back(s); }
  if (r.chance(.5)) { Side s = w.sides[r.below(n)]; movePrims(s, randPose(r, 2)); w.sides.push_back(s); ++n; }   // a geometry used by two objects
  std::string info; for (auto& s : w.sides) info += s.info + " | ";
  for (auto& s : w.sides) { w.obj.push_back(std::make_shared<O>(s.g, ft<double>(s.tf))); T t = randPose(r, 2); if (r.chance(.5)) t.R = s.tf.R; w.goal.push_back(ft<double>(t)); }
  std::vector<std::shared_ptr<O>> extra;
  if (managers) {
    V lo(-3, -3, -3), hi(3, 3, 3); w.h = HashCfg{lo, hi, r.logu(.3, 3), (unsigned)r.range(1, 200)}; int k = r.range(1, 2);
    for (int i = 0; i < k; ++i) w.kind.push_back(r.below(NM)); if (k == 2) w.kind[1] = w.kind[0];   // managers query managers of their own kind
    for (int i = 0; i < k; ++i) { w.mgr.emplace_back(make(w.kind[i], w.h, r.below(6))); int e = r.chance(.3) ? r.range(10, 40) : r.range(2, 8);
      for (int x = 0; x < e; ++x) { Shape s = randShape(r, scene::randKind(r), .1, .5); Side q = shapeSide(s, randPose(r, 2)); extra.push_back(std::make_shared<O>(q.g, ft<double>(q.tf))); w.mgr[i]->registerObject(extra.back().get()); } w.mgr[i]->setup(); info += std::string(mname(w.kind[i])) + " of " + std::to_string(e) + " | "; }
    c.count("shared managers", k);
  }
  for (auto& o : w.obj) { w.known.insert(o.get()); w.known.insert(o->collisionGeometry().get()); } for (auto& o : extra) { w.known.insert(o.get()); w.known.insert(o->collisionGeometry().get()); }
  vh::Hash hh; hh.add(info); c.observe(hh.h);
  int m = r.range(6, 14); std::vector<Job> jobs;
  for (int i = 0; i < m; ++i) {
    Job j; j.a = r.below(n); do j.b = r.below(n); while (j.b == j.a); j.m = managers ? r.below(w.mgr.size()) : 0; j.m2 = managers ? r.below(w.mgr.size()) : 0; j.s = r.below(2); j.nmax = r.chance(.5) ? 1 : r.range(2, 500); j.contact = r.chance(.6); j.cost = r.chance(.15); j.pts = r.chance(.6); j.obj = r.chance(.5); j.motion = r.below(3); j.ccd = r.below(2);
    j.w = managers && r.chance(.6) ? MCOL + (int)r.below(6) : r.below(20) ? (int)r.below(3) : CONTINUOUS;
    const Side &a = w.sides[j.a], &b = w.sides[j.b]; bool unb = a.kind == 3 || b.kind == 3;
    if (j.w == CONTINUOUS && (unb || a.kind == 2 || b.kind == 2)) j.w = COLLIDE; if (j.w == CONTINUOUS && a.kind == 1 && b.kind == 1 && a.name != b.name) j.w = COLLIDE;
    if ((j.w == MMCOL || j.w == MMDIST) && j.m == j.m2 && w.mgr.size() > 1) j.m2 = 1 - j.m;
    jobs.push_back(j);
  }
  // the threads run first, so that anything set up on first use is set up by them
  int T_ = getenv("VH_T") ? atoi(getenv("VH_T")) : r.range(2, 4), rounds = r.range(1, 2); bool slow = r.chance(.6), same = r.chance(.3); std::atomic<int> ready{0}, ticket{0}; std::vector<std::vector<std::pair<int, uint64_t>>> ans(T_); std::vector<std::vector<int>> plan(T_), when(T_); std::vector<uint64_t> calls(T_), seed(T_);
  for (int t = 0; t < T_; ++t) { seed[t] = r.u64(); for (int k = 0; k < rounds; ++k) for (int i = 0; i < m; ++i) plan[t].push_back(i); if (!(same)) for (size_t i = plan[t].size(); i > 1; --i) std::swap(plan[t][i - 1], plan[t][r.below(i)]); }
  c.phase("X02 threads"); std::vector<std::thread> th;
  for (int t = 0; t < T_; ++t) th.emplace_back([&, t] { uint64_t z = seed[t]; ready.fetch_add(1); while (ready.load() < T_) sched_yield();
      for (int i : plan[t]) { pause(z, slow); ans[t].push_back({i, run(w, jobs[i], z, slow, calls[t])}); when[t].push_back(ticket.fetch_add(1, std::memory_order_relaxed)); } });
  for (auto& t : th) t.join();
  vh::Hash order; std::vector<std::pair<int, int>> seq; for (int t = 0; t < T_; ++t) for (size_t i = 0; i < when[t].size(); ++i) seq.push_back({when[t][i], t * 100 + ans[t][i].first}); std::sort(seq.begin(), seq.end()); int turns = 0; for (size_t i = 0; i < seq.size(); ++i) { order.add(seq[i].second); if (i && seq[i].second / 100 != seq[i - 1].second / 100) ++turns; }
  c.count("switches between threads", turns); c.maxi("switches in one case", turns); order.add(info); c.observe(order.h); c.count("threads", T_);
  std::vector<uint64_t> alone(m); uint64_t more = 0;
  for (int i = 0; i < m; ++i) { c.phase("X02 alone %s", wn[jobs[i].w]); alone[i] = run(w, jobs[i], 1, false, more); c.count(std::string("job: ") + wn[jobs[i].w]); }
  for (int t = 0; t < T_; ++t) { c.count("callbacks in threads", calls[t]); for (auto& x : ans[t]) { c.count("answers compared"); const Job& j = jobs[x.first]; if (x.second != alone[x.first]) c.violation(std::string("answer differs from the same query alone|") + wn[j.w] + "|" + (j.w < MCOL ? pname(w.sides[j.a], w.sides[j.b]) + " " + sv(j.s) : std::string(mname(w.kind[j.m]))), info); } }
}
VH_MAIN

// The same queries in single and double precision.
#include "sidex.h"
#include "flt.h"
typedef fcl::Transform3f TFf;

static V rnd(const V& v) { return V((float)v.x, (float)v.y, (float)v.z); }
static T rnd(const T& t) { T o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.R.m[i][j] = (float)t.R.m[i][j]; o.t = rnd(t.t); return o; }
static Shape rnd(Shape s) { s.p = rnd(s.p); s.d = (float)s.d; for (auto& q : s.pts) q = rnd(q); return s; }
// A side whose numbers single precision represents exactly, and its single-precision twin.
struct Twin { Side d; std::shared_ptr<CGf> f; int type = 0; };
static Side randTwin(Rng& r, int& type) {
  for (;;) {
    T tf = randPose(r, 2); int k = r.below(10); type = 0;
    if (k < 5) return shapeSide(rnd(randShape(r, scene::randKind(r), .2, 1.5)), tf);
    if (k < 8) { Mesh m = goodMesh(r, r.chance(.2) ? 40 : 12, r.uni(.3, 1.2)); for (auto& v : m.v) v = rnd(v); type = r.below(8); return meshSide(r, m, type, tf); }
    if (k < 9) return octSide(r, randOct(r, 6, r.uni(.3, 1.2), r.chance(.3)), tf);
    return shapeSide(rnd(randShape(r, r.chance(.5) ? HALFSPACE : PLANE, .2, 1.2)), tf);
  }
}
static std::shared_ptr<CGf> twin(const Side& s, int type) {
  if (s.kind == 1) return flt::mesh(s.mesh, type);
  if (s.kind == 2) { auto g = std::make_shared<fcl::OcTree<float>>(std::shared_ptr<const octomap::OcTree>(s.oct.t)); if (s.oct.occ) g->setOccupancyThres(octomap::probability(s.oct.occ)); if (s.oct.fre) g->setFreeThres(octomap::probability(s.oct.fre)); g->computeLocalAABB(); return g; }
  auto g = fg<float>(s.shape); g->computeLocalAABB(); return g;
}
static Cont collideF(const CGf* a, const TFf& ta, const CGf* b, const TFf& tb, int s) {
  fcl::CollisionRequest<float> q(100000, true, 1, false, true, solver(s)); fcl::CollisionResult<float> res; Cont o; o.ret = flt::collide(a, ta, b, tb, q, res);
  for (size_t i = 0; i < res.numContacts(); ++i) { auto& k = res.getContact(i); bool fwd = k.o1 == a && k.o2 == b, rev = k.o1 == b && k.o2 == a; if (!fwd && !rev) { o.named = false; continue; } Ct x{fwd ? k.b1 : k.b2, fwd ? k.b2 : k.b1, rv(k.pos), fwd ? rv(k.normal) : -rv(k.normal), k.penetration_depth}; o.c.push_back(x); o.by[{x.a, x.b}].push_back(x); }
  return o;
}
static Ds distF(const CGf* a, const TFf& ta, const CGf* b, const TFf& tb, int s, bool sgn) {
  fcl::DistanceRequest<float> q(true, sgn, 0, 0, 1e-6f, solver(s)); fcl::DistanceResult<float> res; Ds o; o.ret = flt::distance(a, ta, b, tb, q, res); o.d = res.min_distance; if (o.d > 1e38) o.d = 1e301;
  bool fwd = res.o1 == a && res.o2 == b, rev = res.o1 == b && res.o2 == a; o.named = fwd || rev; int k = fwd ? 0 : 1; o.p[0] = rv(res.nearest_points[k]); o.p[1] = rv(res.nearest_points[1 - k]); o.id[0] = k ? res.b2 : res.b1; o.id[1] = k ? res.b1 : res.b2; return o;
}

// Against planes and half-spaces, features within the library's flatness tolerance of the plane count as lying in it; that of
// single precision is 1e-4 of the cosine, so up to .015 rad.
static bool nearlyFlat(const Prim& p, const Prim& q) {
  if (p.s.bounded() == q.s.bounded()) return false; const Prim &u = p.s.bounded() ? q : p, &o = p.s.bounded() ? p : q; V n = u.tf.R * u.s.p; n = n * (1 / norm(n));
  if (u.s.k == PLANE && (o.s.k == CAPSULE || o.s.k == CYLINDER || o.s.k == CONE)) return true;   // the side it reaches least
  if (o.s.k == BOX) { for (int i = 0; i < 3; ++i) { V e(i == 0, i == 1, i == 2); if (std::fabs(dot(o.tf.R * e, n)) < .02) return true; } return false; }
  if (o.s.k == CYLINDER || o.s.k == CONE || o.s.k == CAPSULE) { double x = std::fabs(dot(o.tf.R * V(0, 0, 1), n)); return x < .02 || x > 1 - 3e-4 || (o.s.k == CONE && std::fabs(x - o.s.p.x / std::hypot((double)o.s.p.x, (double)o.s.p.y)) < .03); }
  return false;
}
VH_PROP(X03) {
  auto& r = c.rng; Quiet quiet; const double M = 2e-3; int ka, kb; Side a = randTwin(r, ka), b = randTwin(r, kb); if (a.kind == 3 && b.kind == 3) return; placeNear(r, a, b); if (a.p.empty() || b.p.empty()) return;
  movePrims(a, rnd(a.tf)); movePrims(b, rnd(b.tf)); auto fa = twin(a, ka), fb = twin(b, kb); TF ta = ft<double>(a.tf), tb = ft<double>(b.tf); TFf ga = ft<float>(a.tf), gb = ft<float>(b.tf);
  int s = r.below(2); std::string pn = pname(a, b), key = pn + " " + sv(s), info = key + " " + a.info + " | " + b.info + ref::str(b.tf); vh::Hash h; h.add(info); c.observe(h.h); double sc = 1 + sideScale(a) + sideScale(b);
  auto refused = [&](const char* what, const std::function<void()>& f) { try { f(); return false; } catch (const std::exception& e) { c.count(std::string("refused, ") + what); c.violation(std::string("refused|") + what + "|" + key, std::string(e.what()).substr(0, 300) + " " + info); return true; } };
  Cont cd, cf; c.phase("X03 collide %s", key.c_str()); if (refused("double collide", [&] { cd = collideNamed(a, ta, b, tb, false, s); }) | refused("single collide", [&] { cf = collideF(fa.get(), ga, fb.get(), gb, s); })) return;
  if (!cd.named || !cf.named) { c.violation("objects named|" + pn, info); return; }
  c.count("collisions"); if (!cd.c.empty()) c.count("meeting");
  for (int dir = 0; dir < 2; ++dir) for (auto& kv : dir ? cf.by : cd.by) {
    auto& other = dir ? cd.by : cf.by; if (other.count(kv.first)) continue;
    const Prim *p = primOf(a, kv.first.first), *q = primOf(b, kv.first.second); if (!p || !q) { c.violation("primitive id|" + key, info); return; }
    int w = judge2(*p, *q, M); if (!w) { c.count("too close to call"); continue; }
    c.violation(std::string("pair only in ") + (dir ? "single" : "double") + " precision|" + key, vh::fmt("pair %lld %lld, truth %d ", (long long)kv.first.first, (long long)kv.first.second, w) + info); break;
  }
  int left = 8; std::vector<Cont> jig;
  for (auto& kv : cd.by) {
    auto it = cf.by.find(kv.first); if (it == cf.by.end()) continue; if (--left < 0) break; auto &x = kv.second, &y = it->second; Ct p = top(x), q = top(y); bool single = x.size() == 1 && y.size() == 1;
    double ed = std::fabs(p.d - q.d), en = norm(p.n - q.n), ep = norm(p.p - q.p); bool ex = exactPair(a, b); c.count("contacts compared"); c.count(ex ? "contacts by formula" : "contacts by iteration"); double td = 2e-4 * sc + 2e-3 * p.d + (s || ex ? 0 : 0);
    int what = ed > td ? 1 : single && en > .05 ? 2 : single && ep > .02 ? 3 : 0; if (!what) { c.count("contacts agree"); c.maxi("depth off", ed); continue; }
    if (jig.empty()) for (int i = 0; i < 10; ++i) jig.push_back(collideNamed(a, ta, b, ft<double>(jiggle(r, b.tf, i & 1 ? 1e-6 : 1e-5)), false, s));
    bool unstable = false; for (auto& J : jig) { auto jt = J.by.find(kv.first); if (jt == J.by.end() || jt->second.size() != x.size()) { unstable = true; break; } Ct z = top(jt->second); if (std::fabs(z.d - p.d) > td * .5 || norm(z.n - p.n) > .02 || norm(z.p - p.p) > .01) unstable = true; }
    if (unstable) { c.count("contacts with several answers"); continue; }
    if (ex && (a.kind == 3 || b.kind == 3)) { const Prim *pp = primOf(a, kv.first.first), *qq = primOf(b, kv.first.second); if (pp && qq && nearlyFlat(*pp, *qq) && ed <= .03 * std::min(1e3, (double)(a.kind == 3 ? qq->rad : pp->rad)) + 2e-4 * sc) { c.count("contacts of nearly flat features"); continue; } }
    bool gross = ed > .4 * p.d + .02 || en > 1.45 || ep > .6 * sc; bool boxes = ex && a.kind != 3 && b.kind != 3 && ed <= .06 * p.d;
    c.violation((ex && !boxes ? "" : gross ? "gross|" : "approximate|") + std::string(what == 1 ? "depth|" : what == 2 ? "normal|" : "position|") + key, vh::fmt("depth %.9g %.9g normal off %.3g position off %.3g pair %lld %lld ", p.d, q.d, en, ep, (long long)p.a, (long long)p.b) + info);
  }
  if (a.kind == 3 || b.kind == 3) return;
  bool sgn = r.chance(.4); Ds dd, df; c.phase("X03 distance %s", key.c_str()); const char* w1 = sgn ? "double signed distance" : "double distance"; const char* w2 = sgn ? "single signed distance" : "single distance";
  if (refused(w1, [&] { dd = distNamed(a, ta, b, tb, false, s, true, sgn); }) | refused(w2, [&] { df = distF(fa.get(), ga, fb.get(), gb, s, sgn); })) return;
  if (!dd.named || !df.named) { if (dd.named != df.named) c.violation("support differs|" + key, info); else c.count("distance unsupported"); return; }
  c.count("distances");
  if ((dd.d <= 0) != (df.d <= 0)) { if (judgeSides(a, b, M)) c.violation("distance verdict|" + key, vh::fmt("%.9g %.9g ", dd.d, df.d) + info); else c.count("too close to call"); return; }
  double e = std::fabs(dd.d - df.d) / sc;
  if (dd.d <= 0) { if (!sgn) return; bool ex = exactPair(a, b); c.count("signed overlaps compared"); if (!(e <= 1e-3)) { bool unstable = false; for (int i = 0; i < 8 && !unstable; ++i) { Ds z = distNamed(a, ta, b, ft<double>(jiggle(r, b.tf, i & 1 ? 1e-6 : 1e-5)), false, s, true, true); unstable = std::fabs(z.d - dd.d) > 5e-4 * sc; } if (unstable) { c.count("signed distances with several answers"); return; } }
    bool single = a.kind == 0 && b.kind == 0 && !s; std::string how = single ? "" : ex ? "" : std::fabs(dd.d - df.d) > .4 * std::fabs(dd.d) + .02 ? "gross|" : "approximate|"; if (!(e <= 1e-3)) c.violation(how + "signed distance|" + key, vh::fmt("%.9g %.9g ", dd.d, df.d) + info); else c.maxi(std::string("signed distance off ") + sv(s), e); return; }
  c.count("separations compared"); if (!(e <= 5e-4)) c.violation("distance|" + key, vh::fmt("%.9g %.9g ", dd.d, df.d) + info); else c.maxi(std::string("distance off ") + sv(s), e);
  double o[2]; for (int k = 0; k < 2; ++k) { double m = 1e300; for (auto& p : (k ? b : a).p) m = std::min(m, (double)pointOut(df.p[k], p.s, p.tf)); o[k] = m; }
  c.count("nearest points checked"); double g = std::fabs(norm(df.p[0] - df.p[1]) - df.d), w = std::max(g, std::max(o[0], o[1])); if (!(w <= 3e-3 * sc)) c.violation("nearest points|" + key, vh::fmt("off the objects by %.3g %.3g, apart %.6g, distance %.6g ", o[0], o[1], norm(df.p[0] - df.p[1]), df.d) + info); else c.maxi(std::string("nearest points off ") + sv(s), w);
}
VH_MAIN

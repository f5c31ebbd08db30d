// Scene generators shared by the modules: shape pairs in chosen relative placements.
#pragma once
#include "fx.h"
namespace scene {
using namespace ref;
enum Place { GAP, SHALLOW, DEEP, CONCENTRIC, ANY };
inline const char* plname(int p) { static const char* n[] = {"gap", "shallow", "deep", "concentric", "any"}; return n[p]; }
struct Pair { Shape a, b; T ta, tb; int place; Dist d; double want; std::string str() const { return "A=" + a.str() + " tA=" + ref::str(ta) + " B=" + b.str() + " tB=" + ref::str(tb); } };
static const Kind BOUNDED[7] = {SPHERE, BOX, ELLIPSOID, CAPSULE, CONE, CYLINDER, CONVEX};
inline Kind randKind(Rng& r) { return BOUNDED[r.below(7)]; }

inline void putGap(Pair& p, const V& u, double want) {
  p.tb.t = p.ta.t + u * (p.a.radius() + p.b.radius() + 1); p.d = distance(p.a, p.ta, p.b, p.tb);
  for (int i = 0; i < 8; ++i) { p.tb.t = p.tb.t - p.d.n * (p.d.lo - want); p.d = distance(p.a, p.ta, p.b, p.tb); if (p.d.overlap) break; if (std::fabs(p.d.lo - want) < 1e-12) break; }
}
inline Pair randPair(Rng& r, Kind ka, Kind kb, int place, double lo = 0.2, double hi = 3) {
  Pair p; p.place = place;
  bool same = r.chance(.05);
  p.a = randShape(r, ka, lo, hi); p.b = same && ka == kb ? p.a : randShape(r, kb, lo, hi);
  p.ta = randPose(r, 4); p.tb = randPose(r, 4);
  if (r.chance(.15)) p.tb.R = p.ta.R;                                  // parallel features
  else if (r.chance(.1)) p.tb.R = p.ta.R * randRot(r, 2);              // quarter turns
  if (r.chance(.05)) p.ta = T();
  V u = randUnit(r); if (r.chance(.25)) { V e; e[r.below(3)] = r.chance(.5) ? 1 : -1; u = p.ta.R * e; }
  switch (place) {
    case GAP: p.want = r.chance(.5) ? r.logu(1e-3, .1) : r.logu(.1, 8); putGap(p, u, p.want); break;
    case SHALLOW: { putGap(p, u, 0.05); double s = r.logu(2e-3, .3) * std::min(1.0, p.a.minDim() + p.b.minDim() + .05); p.want = -s; V n = p.d.n; double g = p.d.lo; p.tb.t = p.tb.t - n * (g + s); p.d = distance(p.a, p.ta, p.b, p.tb); break; }
    case DEEP: p.tb.t = p.ta.t + randIn(r, .6 * (p.a.minDim() + p.b.minDim()) + .05); p.d = distance(p.a, p.ta, p.b, p.tb); break;
    case CONCENTRIC: p.tb.t = p.ta.t; if (r.chance(.5)) { V e; e[r.below(3)] = r.uni(-.3, .3); p.tb.t = p.ta.t + p.ta.R * e; } p.d = distance(p.a, p.ta, p.b, p.tb); break;
    default: p.tb.t = p.ta.t + randIn(r, p.a.radius() + p.b.radius()); p.d = distance(p.a, p.ta, p.b, p.tb); break;
  }
  return p;
}
// certified classification: +1 overlap with at least margin depth, -1 apart by at least margin, 0 undecided
inline int verdict(const Pair& p, double gapMargin, double depthMargin) {
  if (!p.d.overlap) return p.d.lo > gapMargin ? -1 : 0;
  Depth q = depth(p.a, p.ta, p.b, p.tb, depthMargin * .2);
  return q.lo > depthMargin ? 1 : 0;
}
inline uint64_t hash(const Pair& p, int extra) { vh::Hash h; h.add(p.str()); h.add(extra); return h.h; }
}  // namespace scene

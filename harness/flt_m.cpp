#include "fcl/geometry/bvh/BVH_model.h"
#include "flt.h"
template <class B> static std::shared_ptr<CGf> build(const bvx::Mesh& m) {
  auto g = std::make_shared<fcl::BVHModel<B>>(); std::vector<fcl::Vector3f> v; for (auto& x : m.v) v.push_back(fx::fv<float>(x)); std::vector<fcl::Triangle> t; for (auto& x : m.t) t.emplace_back(x[0], x[1], x[2]);
  g->beginModel(); g->addSubModel(v, t); g->endModel(); g->computeLocalAABB(); return g;
}
std::shared_ptr<CGf> flt::mesh(const bvx::Mesh& m, int t) {
  using namespace fcl;
  switch (t) { case 0: return build<AABB<float>>(m); case 1: return build<OBB<float>>(m); case 2: return build<RSS<float>>(m); case 3: return build<OBBRSS<float>>(m); case 4: return build<kIOS<float>>(m); case 5: return build<KDOP<float, 16>>(m); case 6: return build<KDOP<float, 18>>(m); default: return build<KDOP<float, 24>>(m); }
}

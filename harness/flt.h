// Single-precision queries and models, instantiated in sources of their own (they take long to compile).
#pragma once
#include "fcl/common/types.h"
#include "fcl/narrowphase/collision_request.h"
#include "fcl/narrowphase/collision_result.h"
#include "fcl/narrowphase/distance_request.h"
#include "fcl/narrowphase/distance_result.h"
#include "bvx.h"
typedef fcl::CollisionGeometry<float> CGf;
namespace flt {
size_t collide(const CGf* a, const fcl::Transform3f& ta, const CGf* b, const fcl::Transform3f& tb, const fcl::CollisionRequest<float>& q, fcl::CollisionResult<float>& r);
float distance(const CGf* a, const fcl::Transform3f& ta, const CGf* b, const fcl::Transform3f& tb, const fcl::DistanceRequest<float>& q, fcl::DistanceResult<float>& r);
std::shared_ptr<CGf> mesh(const bvx::Mesh& m, int type);
}

#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/collision-inl.h"
#include "flt.h"
size_t flt::collide(const CGf* a, const fcl::Transform3f& ta, const CGf* b, const fcl::Transform3f& tb, const fcl::CollisionRequest<float>& q, fcl::CollisionResult<float>& r) { return fcl::collide(a, ta, b, tb, q, r); }

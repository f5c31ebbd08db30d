#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/distance-inl.h"
#include "flt.h"
float flt::distance(const CGf* a, const fcl::Transform3f& ta, const CGf* b, const fcl::Transform3f& tb, const fcl::DistanceRequest<float>& q, fcl::DistanceResult<float>& r) { return fcl::distance(a, ta, b, tb, q, r); }

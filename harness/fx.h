// Adapter: reference shapes -> FCL geometries
#pragma once
#include "ref.h"
#include <memory>
#include "shapes.h"
namespace fx {
using namespace ref;
template <class S> fcl::Vector3<S> fv(const V& v) { return fcl::Vector3<S>((S)v.x, (S)v.y, (S)v.z); }
template <class X> V rv(const X& v) { return V((double)v[0], (double)v[1], (double)v[2]); }
template <class S> fcl::Transform3<S> ft(const T& t) {
  fcl::Transform3<S> f = fcl::Transform3<S>::Identity();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f.linear()(i, j) = (S)t.R.m[i][j];
  f.translation() = fv<S>(t.t); return f;
}
template <class S> T rt(const fcl::Transform3<S>& f) {
  T t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.R.m[i][j] = f.linear()(i, j); t.t = rv(f.translation()); return t;
}
template <class S> std::shared_ptr<fcl::CollisionGeometry<S>> fg(const Shape& s) {
  using namespace fcl;
  switch (s.k) {
    case SPHERE: return std::make_shared<Sphere<S>>((S)s.p.x);
    case BOX: return std::make_shared<Box<S>>((S)s.p.x, (S)s.p.y, (S)s.p.z);
    case ELLIPSOID: return std::make_shared<Ellipsoid<S>>((S)s.p.x, (S)s.p.y, (S)s.p.z);
    case CAPSULE: return std::make_shared<Capsule<S>>((S)s.p.x, (S)s.p.y);
    case CONE: return std::make_shared<Cone<S>>((S)s.p.x, (S)s.p.y);
    case CYLINDER: return std::make_shared<Cylinder<S>>((S)s.p.x, (S)s.p.y);
    case HALFSPACE: return std::make_shared<Halfspace<S>>(fv<S>(s.p), (S)s.d);
    case PLANE: return std::make_shared<Plane<S>>(fv<S>(s.p), (S)s.d);
    case TRI: return std::make_shared<TriangleP<S>>(fv<S>(s.pts[0]), fv<S>(s.pts[1]), fv<S>(s.pts[2]));
    case CONVEX: {
      auto v = std::make_shared<std::vector<Vector3<S>>>(); for (auto& q : s.pts) v->push_back(fv<S>(q));
      auto f = std::make_shared<std::vector<int>>(); for (auto& t : s.tris) { f->push_back(3); for (int i : t) f->push_back(i); }
      return std::make_shared<Convex<S>>(std::shared_ptr<const std::vector<Vector3<S>>>(v), (int)s.tris.size(), std::shared_ptr<const std::vector<int>>(f), true);
    }
    default: return nullptr;
  }
}
}  // namespace fx

// Every broad-phase manager.
#pragma once
#include "fx.h"
#include <set>
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
typedef fcl::CollisionObject<double> O; typedef fcl::BroadPhaseCollisionManager<double> Mgr; typedef fcl::AABB<double> A;
typedef fcl::detail::SimpleHashTable<A, O*, fcl::detail::SpatialHash<double>> SHT;
typedef fcl::detail::SparseHashTable<A, O*, fcl::detail::SpatialHash<double>> PHT;
using namespace ref;
static const int NM = 14;
static const char* mname(int m) { static const char* n[] = {"BruteForce", "SSaP", "SaP", "IntervalTree", "SpatialHash", "SparseHash", "AABBTree", "AABBTreeArray", "AABBTree init1", "AABBTree init2", "AABBTree init3", "AABBTree topdown1", "AABBTreeArray init1-3", "AABBTreeArray topdown1"}; return n[m]; }
struct HashCfg { V lo, hi; double cell; unsigned table; };
static Mgr* make(int m, const HashCfg& h, int extra) {
  using namespace fcl;
  switch (m) {
    case 0: return new NaiveCollisionManager<double>(); case 1: return new SSaPCollisionManager<double>(); case 2: return new SaPCollisionManager<double>();
    case 3: return new IntervalTreeCollisionManager<double>();
    case 4: return new SpatialHashingCollisionManager<double, SHT>(h.cell, fx::fv<double>(h.lo), fx::fv<double>(h.hi), h.table);
    case 5: return new SpatialHashingCollisionManager<double, PHT>(h.cell, fx::fv<double>(h.lo), fx::fv<double>(h.hi), h.table);
    case 7: case 12: case 13: { auto* t = new DynamicAABBTreeCollisionManager_Array<double>(); if (m == 12) t->tree_init_level = 1 + extra % 3; if (m == 13) { t->tree_topdown_level = 1; t->max_tree_nonbalanced_level = extra % 2 ? -5 : 10; } return t; }
    default: { auto* t = new DynamicAABBTreeCollisionManager<double>(); if (m >= 8 && m <= 10) t->tree_init_level = m - 7; if (m == 11) { t->tree_topdown_level = 1; t->max_tree_nonbalanced_level = extra % 2 ? -5 : 10; } return t; }
  }
}

// The installed solver replaced LocalParameterization by Manifold; the kinematic calibration still uses the old names.
#pragma once
#include <ceres/manifold.h>
#include <ceres/problem.h>
#define SetParameterization SetManifold
namespace ceres
{
using LocalParameterization = Manifold;
using SubsetParameterization = SubsetManifold;
}  // namespace ceres

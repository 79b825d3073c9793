// Shared alphabets and the independent reference geometry used as oracle.
// Nothing here calls the code under test (only its plain data types are used).
#pragma once
#include "vf.h"
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <rct_optimizations/types.h>

namespace kit
{
using Iso = Eigen::Isometry3d;
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using rct_optimizations::CameraIntrinsics;
using Corr2 = rct_optimizations::Correspondence2D3D;
using Corr3 = rct_optimizations::Correspondence3D3D;

constexpr double PI = 3.14159265358979323846;
inline double deg(double d) { return d * PI / 180.0; }

/** Rotation about a (not necessarily unit) axis by an angle, written out (Rodrigues) */
inline Eigen::Matrix3d rot(V3 axis, double angle)
{
  axis /= std::sqrt(axis.dot(axis));
  double c = std::cos(angle), s = std::sin(angle), t = 1 - c;
  double x = axis[0], y = axis[1], z = axis[2];
  Eigen::Matrix3d R;
  R << t * x * x + c, t * x * y - s * z, t * x * z + s * y,  //
      t * x * y + s * z, t * y * y + c, t * y * z - s * x,   //
      t * x * z - s * y, t * y * z + s * x, t * z * z + c;
  return R;
}
inline Iso make(const Eigen::Matrix3d& R, const V3& t)
{
  Iso p = Iso::Identity();
  p.linear() = R;
  p.translation() = t;
  return p;
}
inline Iso make(const V3& axis, double angle, const V3& t) { return make(rot(axis, angle), t); }
inline Iso rpyxyz(double r, double p, double y, double tx, double ty, double tz)
{
  return make(rot({ 0, 0, 1 }, y) * rot({ 0, 1, 0 }, p) * rot({ 1, 0, 0 }, r), { tx, ty, tz });
}

/** inverse written out, so that the oracle does not depend on Isometry tricks */
inline Iso inv(const Iso& a) { return make(a.linear().transpose(), -(a.linear().transpose() * a.translation())); }
inline V3 xf(const Iso& a, const V3& p) { return a.linear() * p + a.translation(); }

/** pinhole reference */
inline V2 project(const CameraIntrinsics& k, const V3& p)
{
  return V2(k.values[0] * p[0] / p[2] + k.values[2], k.values[1] * p[1] / p[2] + k.values[3]);
}

inline CameraIntrinsics intr(double fx, double fy, double cx, double cy)
{
  CameraIntrinsics k;
  k.values = { fx, fy, cx, cy };
  return k;
}
inline std::vector<CameraIntrinsics> intrinsics()
{
  return { intr(550, 550, 320, 240), intr(1200, 900, 610.5, 377.25), intr(400, 700, 12, -25) };
}

/** planar grid of points on z=0 (row-major) */
inline std::vector<V3> grid(int rows, int cols, double s, double ox = 0, double oy = 0)
{
  std::vector<V3> v;
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c)
      v.emplace_back(ox + c * s, oy + r * s, 0.0);
  return v;
}
inline std::vector<V3> grid3d(double s)
{
  std::vector<V3> v;
  for (int i = 0; i < 8; ++i)
    v.emplace_back((i & 1) * s, ((i >> 1) & 1) * s * 0.8, ((i >> 2) & 1) * s * 0.6);
  return v;
}

inline double rotDist(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) { return (a - b).norm(); }

inline void requireRigid(vf::Ctx& c, const Iso& p, double tol, const std::string& what)
{
  double e = (p.linear().transpose() * p.linear() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
  c.require(e <= tol, what, " is not a rotation (orthonormality error ", e, ")");
  c.require(std::fabs(p.linear().determinant() - 1.0) <= tol, what, " has determinant ", p.linear().determinant());
  for (int i = 0; i < 4; ++i)
    c.near(p.matrix()(3, i), i == 3 ? 1.0 : 0.0, 0.0, what + " bottom row");
}
inline void requireSame(vf::Ctx& c, const Iso& got, const Iso& want, double tol_t, double tol_r, const std::string& what)
{
  requireRigid(c, got, 1e-9, what);
  double et = (got.translation() - want.translation()).norm();
  double er = rotDist(got.linear(), want.linear());
  c.require(et <= tol_t, what, ": position off by ", et, " (tolerance ", tol_t, ")");
  c.require(er <= tol_r, what, ": orientation off by ", er, " (tolerance ", tol_r, ")");
}

/** all k-element subsets of {0..n-1}, lexicographic */
inline std::vector<std::vector<int>> subsets(int n, int k)
{
  std::vector<std::vector<int>> out;
  std::vector<int> cur;
  std::function<void(int)> rec = [&](int from) {
    if ((int)cur.size() == k)
    {
      out.push_back(cur);
      return;
    }
    for (int i = from; i < n; ++i)
    {
      cur.push_back(i);
      rec(i + 1);
      cur.pop_back();
    }
  };
  rec(0);
  return out;
}
/** all permutations of {0..n-1} */
inline std::vector<std::vector<int>> permutations(int n)
{
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i)
    p[i] = i;
  std::vector<std::vector<int>> out;
  do
    out.push_back(p);
  while (std::next_permutation(p.begin(), p.end()));
  return out;
}
template <class T>
uint64_t sigOf(uint64_t h, const T& m)
{
  for (Eigen::Index i = 0; i < m.size(); ++i)
    h = vf::mix(h, (uint64_t)(int64_t)std::llround(m(i) * 1e4));
  return h;
}
inline std::string str(int i) { return std::to_string(i); }
template <class T, class = std::enable_if_t<!std::is_integral<T>::value>>
std::string str(const T& v)
{
  std::ostringstream ss;
  ss.precision(12);
  ss << v;
  return ss.str();
}
template <class F>
bool throws(F f, std::string* what = nullptr)
{
  try
  {
    f();
  }
  catch (const std::exception& e)
  {
    if (what)
      *what = e.what();
    return true;
  }
  return false;
}
}  // namespace kit

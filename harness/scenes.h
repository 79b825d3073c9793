// Scene generators (noise-free problems with known answers) and reference residuals, shared by the calibration checks.
// The residual functions are written from the documentation of the problems, not from the code under test.
#pragma once
#include "kit.h"
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/pnp.h>

namespace kit
{
namespace ro = rct_optimizations;
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;

// ---------------------------------------------------------------- six-vectors (rx ry rz x y z), reference version
inline Iso iso6(const double* v)
{
  V3 r(v[0], v[1], v[2]);
  double a = r.norm();
  Eigen::Matrix3d R = a < 1e-300 ? Eigen::Matrix3d::Identity().eval() : rot(r, a);
  return make(R, V3(v[3], v[4], v[5]));
}
inline void vec6(const Iso& p, double* v)
{
  // rotation vector from the matrix (log map), robust near 0 and pi
  Eigen::Quaterniond q(p.linear());
  if (q.w() < 0)
    q.coeffs() *= -1;
  double n = q.vec().norm();
  V3 r = n < 1e-15 ? V3(2 * q.vec()) : V3(q.vec() / n * 2 * std::atan2(n, q.w()));
  for (int i = 0; i < 3; ++i)
  {
    v[i] = r[i];
    v[3 + i] = p.translation()[i];
  }
}

// ---------------------------------------------------------------- views: camera -> target transforms
/** The target is roughly in the middle of the image, at different tilts and distances. n <= 10 */
inline std::vector<Iso> views(double dist, const V3& target_centre)
{
  struct W
  {
    double r, p, y, x, ty, z;
  };
  const W w[] = { { 0.35, 0.0, 0.1, 0.02, -0.03, 1.0 },  { -0.3, 0.25, -0.5, -0.05, 0.02, 1.15 }, { 0.1, -0.45, 1.2, 0.04, 0.03, 0.9 },
                  { 0.4, 0.3, 2.4, -0.02, -0.04, 1.05 }, { -0.2, -0.35, -1.9, 0.03, 0.0, 1.3 },   { 0.0, 0.5, 0.6, -0.04, 0.05, 0.95 },
                  { -0.5, 0.05, 3.0, 0.0, 0.02, 1.1 },   { 0.25, -0.2, -2.7, 0.05, -0.05, 0.85 }, { 0.15, 0.4, -1.1, -0.03, 0.04, 1.2 },
                  { -0.4, -0.3, 0.3, 0.02, -0.02, 1.0 } };
  std::vector<Iso> v;
  for (auto& q : w)
  {
    Iso p = rpyxyz(q.r, q.p, q.y, 0, 0, 0);
    V3 c = p.linear() * target_centre;
    p.translation() = V3(q.x * dist, q.ty * dist, q.z * dist) - c;
    v.push_back(p);
  }
  return v;
}
inline V3 centre(const std::vector<V3>& pts)
{
  V3 c(0, 0, 0);
  for (auto& p : pts)
    c += p;
  return c / double(pts.size());
}

/** any number of views: the base views, turned about the camera axis and moved a little further each time round */
inline std::vector<Iso> manyViews(double dist, const V3& c, int n)
{
  auto b = views(dist, c);
  std::vector<Iso> v;
  for (int i = 0; i < n; ++i)
  {
    int k = i / (int)b.size();
    Iso p = make(V3(0, 0, 1), 0.37 * k, V3(0, 0, 0.02 * k)) * b[i % b.size()];
    v.push_back(p);
  }
  return v;
}

/** views for the intrinsic calibration: the target's normal points to the camera (as its built-in guess assumes), any in-plane
 *  turn up to `turn`, tilts up to half a radian, distances around dist. n <= 18 */
inline std::vector<Iso> frontViews(double dist, const V3& target_centre, int n, double turn = 0.6)
{
  const double t[18][5] = { { 0.35, 0.1, -0.2, 0.05, 1.0 },   { -0.3, 0.3, 0.5, -0.08, 1.1 },   { 0.1, -0.45, 1.0, 0.06, 0.9 },
                            { 0.4, 0.3, -0.7, -0.04, 1.05 },  { -0.2, -0.35, 0.2, 0.08, 1.2 },  { 0.05, 0.5, -1.0, -0.06, 0.95 },
                            { -0.5, 0.05, 0.8, 0.02, 1.1 },   { 0.25, -0.2, -0.4, 0.07, 0.85 }, { 0.15, 0.4, 0.0, -0.03, 1.15 },
                            { -0.4, -0.3, 0.6, 0.04, 1.0 },   { 0.3, -0.4, -0.9, -0.05, 1.0 },  { -0.1, 0.25, 0.4, 0.09, 0.9 },
                            { 0.45, -0.1, 0.9, 0.0, 1.05 },   { -0.25, 0.45, -0.6, 0.05, 1.1 }, { 0.2, 0.2, 0.7, -0.09, 0.95 },
                            { -0.45, 0.2, -0.3, 0.03, 0.92 }, { 0.0, -0.3, 0.3, -0.02, 1.12 },  { 0.5, 0.15, -0.5, 0.01, 1.02 } };
  std::vector<Iso> v;
  for (int i = 0; i < n; ++i)
  {
    Iso p = make(rot({ 1, 0, 0 }, t[i][0]) * rot({ 0, 1, 0 }, t[i][1]) * rot({ 1, 0, 0 }, PI) * rot({ 0, 0, 1 }, t[i][2] * turn), V3::Zero());
    V3 c = p.linear() * target_centre;
    p.translation() = V3(t[i][3] * dist, t[(i + 5) % 18][3] * dist, t[i][4] * dist) - c;
    v.push_back(p);
  }
  return v;
}

// ---------------------------------------------------------------- hand eye
enum Mount
{
  MovingCamera,
  MovingTarget,
  BothMoving,
  MovingCameraTargetAtBase,  // static mount is exactly the identity
  MovingTargetCameraAtBase
};
struct HandEyeTruth
{
  Iso cam, tgt;  // camera_mount_to_camera, target_mount_to_target
};
inline std::vector<Iso> mountPoses()
{
  return { rpyxyz(0.2, -0.1, 0.4, 1, 0.2, 0.5),   rpyxyz(-0.7, 0.3, 1.4, 0.8, -0.3, 0.9), rpyxyz(1.1, 0.6, -2.0, -0.5, 0.7, 0.2),
           rpyxyz(2.5, -0.8, 0.1, 0.3, 0.3, -1.1), rpyxyz(-1.5, 1.0, 2.8, 0, 0, 0.6),     rpyxyz(0.5, 0.5, 0.5, -1.2, 0.1, 0.4),
           rpyxyz(-2.2, -0.4, -0.9, 0.6, -0.9, 1.3) };
}
template <class Obs>
std::vector<Obs> handEyeMounts(Mount m, const HandEyeTruth& t, const std::vector<Iso>& cam_to_tgt)
{
  std::vector<Obs> out;
  auto mp = mountPoses();
  for (size_t i = 0; i < cam_to_tgt.size(); ++i)
  {
    Obs o;
    // world_cam * cam_to_tgt = world_tgt ; world_cam = cam_mount * t.cam ; world_tgt = tgt_mount * t.tgt
    Iso fixed = m >= MovingCameraTargetAtBase ? Iso::Identity() : mp[m == MovingCamera ? 0 : 1];
    if (m == MovingCamera || m == MovingCameraTargetAtBase)
    {
      o.to_target_mount = fixed;
      o.to_camera_mount = fixed * t.tgt * inv(cam_to_tgt[i]) * inv(t.cam);
    }
    else if (m == MovingTarget || m == MovingTargetCameraAtBase)
    {
      o.to_camera_mount = fixed;
      o.to_target_mount = fixed * t.cam * cam_to_tgt[i] * inv(t.tgt);
    }
    else
    {
      o.to_camera_mount = mp[i % mp.size()];
      o.to_target_mount = mp[i % mp.size()] * t.cam * cam_to_tgt[i] * inv(t.tgt);
    }
    out.push_back(o);
  }
  return out;
}
inline V3 handEyePoint(const Iso& cm, const Iso& tm, const Iso& cam, const Iso& tgt, const V3& p)
{
  return xf(inv(cam), xf(inv(cm), xf(tm, xf(tgt, p))));
}
inline VX residuals(const ro::ExtrinsicHandEyeProblem2D3D& p, const Iso& cam, const Iso& tgt)
{
  std::vector<double> r;
  for (auto& o : p.observations)
    for (auto& c : o.correspondence_set)
    {
      V2 e = project(p.intr, handEyePoint(o.to_camera_mount, o.to_target_mount, cam, tgt, c.in_target)) - c.in_image;
      r.insert(r.end(), { e[0], e[1] });
    }
  return Eigen::Map<VX>(r.data(), r.size());
}
inline VX residuals(const ro::ExtrinsicHandEyeProblem3D3D& p, const Iso& cam, const Iso& tgt)
{
  std::vector<double> r;
  for (auto& o : p.observations)
    for (auto& c : o.correspondence_set)
    {
      V3 e = handEyePoint(o.to_camera_mount, o.to_target_mount, cam, tgt, c.in_target) - c.in_image;
      r.insert(r.end(), { e[0], e[1], e[2] });
    }
  return Eigen::Map<VX>(r.data(), r.size());
}

// ---------------------------------------------------------------- multi static cameras
inline VX residuals(const ro::ExtrinsicMultiStaticCameraMovingTargetProblem& p, const std::vector<Iso>& cams, const Iso& wt)
{
  std::vector<double> r;
  for (size_t c = 0; c < cams.size(); ++c)
    for (size_t i = 0; i < p.wrist_poses[c].size(); ++i)
      for (auto& q : p.image_observations[c][i])
      {
        V2 e = project(p.intr[c], xf(inv(cams[c]), xf(p.wrist_poses[c][i], xf(wt, q.in_target)))) - q.in_image;
        r.insert(r.end(), { e[0], e[1] });
      }
  return Eigen::Map<VX>(r.data(), r.size());
}
inline VX residuals(const ro::ExtrinsicMultiStaticCameraOnlyProblem& p, const std::vector<Iso>& cams, const std::vector<Iso>& tgts)
{
  std::vector<double> r;
  for (size_t c = 0; c < cams.size(); ++c)
    for (size_t i = 0; i < tgts.size(); ++i)
      for (auto& q : p.image_observations[c][i])
      {
        V2 e = project(p.intr[c], xf(inv(cams[c]), xf(tgts[i], q.in_target))) - q.in_image;
        r.insert(r.end(), { e[0], e[1] });
      }
  return Eigen::Map<VX>(r.data(), r.size());
}
/** cams are the corrected camera poses */
inline VX residuals(const ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem& p,
                    const std::vector<Iso>& cams,
                    const Iso& wt)
{
  std::vector<double> r;
  for (size_t c = 0; c < cams.size(); ++c)
    for (size_t i = 0; i < p.wrist_poses.size(); ++i)
      for (auto& q : p.image_observations[c][i])
      {
        V2 e = project(p.intr[c], xf(inv(cams[c]), xf(p.wrist_poses[i], xf(wt, q.in_target)))) - q.in_image;
        r.insert(r.end(), { e[0], e[1] });
      }
  return Eigen::Map<VX>(r.data(), r.size());
}

// ---------------------------------------------------------------- pnp
inline VX residuals(const ro::PnPProblem& p, const Iso& ct)
{
  std::vector<double> r;
  for (auto& q : p.correspondences)
  {
    V2 e = project(p.intr, xf(ct, q.in_target)) - q.in_image;
    r.insert(r.end(), { e[0], e[1] });
  }
  return Eigen::Map<VX>(r.data(), r.size());
}
inline VX residuals(const ro::PnPProblem3D& p, const Iso& ct)
{
  std::vector<double> r;
  for (auto& q : p.correspondences)
  {
    V3 e = xf(ct, q.in_target) - q.in_image;
    r.insert(r.end(), { e[0], e[1], e[2] });
  }
  return Eigen::Map<VX>(r.data(), r.size());
}
inline VX residuals(const ro::MultiCameraPnPProblem& p, const Iso& bt)
{
  std::vector<double> r;
  for (size_t c = 0; c < p.base_to_camera.size(); ++c)
    for (auto& q : p.image_observations[c])
    {
      V2 e = project(p.intr[c], xf(inv(p.base_to_camera[c]), xf(bt, q.in_target))) - q.in_image;
      r.insert(r.end(), { e[0], e[1] });
    }
  return Eigen::Map<VX>(r.data(), r.size());
}

// ---------------------------------------------------------------- intrinsics (OpenCV model)
inline V2 projectDistorted(const std::array<double, 9>& k, const V3& p)
{
  double x = p[0] / p[2], y = p[1] / p[2], r2 = x * x + y * y;
  double radial = 1 + k[4] * r2 + k[5] * r2 * r2 + k[8] * r2 * r2 * r2;
  double xd = x * radial + 2 * k[6] * x * y + k[7] * (r2 + 2 * x * x);
  double yd = y * radial + k[6] * (r2 + 2 * y * y) + 2 * k[7] * x * y;
  return V2(k[0] * xd + k[2], k[1] * yd + k[3]);
}
inline VX residuals(const std::vector<Corr2::Set>& obs, const std::array<double, 9>& k, const std::vector<Iso>& poses)
{
  std::vector<double> r;
  for (size_t i = 0; i < obs.size(); ++i)
    for (auto& q : obs[i])
    {
      V2 e = projectDistorted(k, xf(poses[i], q.in_target)) - q.in_image;
      r.insert(r.end(), { e[0], e[1] });
    }
  return Eigen::Map<VX>(r.data(), r.size());
}

// ---------------------------------------------------------------- circle
inline VX residuals(const ro::CircleFitProblem& p, double x, double y, double rad)
{
  VX r(p.observations.size());
  for (size_t i = 0; i < p.observations.size(); ++i)
  {
    double dx = p.observations[i][0] - x, dy = p.observations[i][1] - y;
    r[i] = rad * rad - dx * dx - dy * dy;
  }
  return r;
}

// ---------------------------------------------------------------- numeric differentiation
using ResFn = std::function<VX(const VX&)>;
inline MX jacobian(const ResFn& f, const VX& x)
{
  VX r0 = f(x);
  MX J(r0.size(), x.size());
  for (Eigen::Index k = 0; k < x.size(); ++k)
  {
    double h = 1e-5 * std::max(1.0, std::fabs(x[k]));
    auto at = [&](double d) {
      VX y = x;
      y[k] += d;
      return f(y);
    };
    // 4th order central difference
    J.col(k) = (8.0 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12.0 * h);
  }
  return J;
}
inline double halfMean(const VX& r) { return 0.5 * r.squaredNorm() / double(r.size()); }

/** reported cost must be half the mean squared residual */
inline void requireCost(vf::Ctx& c, double reported, const VX& r, const std::string& what, double floor_ = 1e-12)
{
  double want = halfMean(r);
  c.require(std::fabs(reported - want) <= 1e-6 * want + floor_, what, ": reported ", reported, ", true ", want);
}
/** gradient J^T r is small compared with what its terms could give */
inline void requireStationary(vf::Ctx& c, const ResFn& f, const VX& x, const std::string& what, double tol = 1e-3)
{
  VX r = f(x);
  MX J = jacobian(f, x);
  VX g = J.transpose() * r;
  double rn = r.norm();
  for (Eigen::Index k = 0; k < g.size(); ++k)
  {
    double scale = J.col(k).norm() * rn;
    if (scale < 1e-9)
      continue;
    c.require(std::fabs(g[k]) <= tol * scale, what, ": not a stationary point, relative gradient ", g[k] / scale,
              " in parameter ", k);
  }
}
}  // namespace kit

// ---------------------------------------------------------------- multi-camera scenes
namespace kit
{
struct MultiScene
{
  std::vector<V3> pts;
  std::vector<CameraIntrinsics> intr;  // per camera
  std::vector<Iso> cams;               // base -> camera
  std::vector<Iso> tgts;               // base -> target, per image
  Iso wt;                              // wrist -> target
  std::vector<Iso> wrists;             // base -> wrist, per image
};
inline MultiScene multiScene(int ncam, int nimg, int target, int wt_idx, int variant = 0)
{
  MultiScene s;
  s.pts = target == 0 ? grid(4, 5, 0.04) : target == 1 ? grid3d(0.12) : grid(2, 2, 0.2, 0.3, -0.4);
  V3 ctr = centre(s.pts);
  auto K = intrinsics();
  Iso T0 = variant == 0 ? rpyxyz(0.3, -0.2, 0.5, 1.0, 0.4, 0.7) : rpyxyz(2.8, 0.9, -1.7, -0.5, 2.0, -1.2);
  const double w[12][6] = { { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 },     { 0.3, -0.1, 0.4, 0.05, -0.02, 0.04 }, { -0.25, 0.3, -0.6, -0.04, 0.05, -0.03 },
                            { 0.1, 0.35, 1.0, 0.02, 0.06, 0.05 }, { -0.4, -0.2, 1.8, -0.06, 0.01, 0.02 }, { 0.2, 0.2, -1.4, 0.03, -0.05, -0.05 },
                            { 0.35, 0.1, 2.6, 0.0, 0.03, 0.03 },  { -0.1, -0.4, -2.2, 0.04, 0.02, -0.02 }, { 0.15, -0.3, 0.9, -0.02, -0.03, 0.05 },
                            { -0.3, 0.15, -0.2, 0.05, 0.05, 0.0 }, { 0.05, 0.25, 3.0, -0.05, -0.05, 0.01 }, { 0.25, -0.35, -0.9, 0.01, 0.0, -0.04 } };
  for (int i = 0; i < nimg; ++i)
  {
    const double* q = w[i % 12];
    Iso d = rpyxyz(q[0], q[1], q[2] + 0.2 * (i / 12), q[3], q[4], q[5]);
    // turn about the target centre
    s.tgts.push_back(T0 * make(Eigen::Matrix3d::Identity(), ctr) * d * make(Eigen::Matrix3d::Identity(), -ctr));
  }
  auto v = views(1.0, ctr);
  for (int c = 0; c < ncam; ++c)
  {
    s.cams.push_back(T0 * inv(v[c % v.size()]));
    s.intr.push_back(K[(c + variant) % K.size()]);
  }
  const Iso wts[] = { Iso::Identity(), rpyxyz(0.2, 0.4, -0.7, 0.05, 0.1, 0.2), rpyxyz(PI - 0.02, 0.1, 1.5, -0.3, 0.2, 0.1) };
  s.wt = wts[wt_idx];
  for (auto& t : s.tgts)
    s.wrists.push_back(t * inv(s.wt));
  return s;
}
/** pattern 0: every feature; 1: some left out, in reverse order; 10 + k: the odd cameras see only k features of each image;
 *  20 + k: every camera does */
inline Corr2::Set see(const MultiScene& s, int c, int i, int pattern = 0)
{
  Corr2::Set set;
  for (size_t j = 0; j < s.pts.size(); ++j)
  {
    if (pattern > 10 && (pattern > 20 || c % 2) && (j * 7 + i * 5 + c) % s.pts.size() >= size_t(pattern % 10))
      continue;
    if (pattern == 1 && (j + c + i) % 3 == 0 && s.pts.size() > 6)
      continue;
    Corr2 q;
    q.in_target = s.pts[j];
    q.in_image = project(s.intr[c], xf(inv(s.cams[c]), xf(s.tgts[i], s.pts[j])));
    set.push_back(q);
  }
  if (pattern == 1)
    std::reverse(set.begin(), set.end());
  return set;
}
}  // namespace kit

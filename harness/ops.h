// The alphabet of API operations of the history (C21) and schedule (C22) checks.
// Every operation has a slot (an object or group of objects that keeps its addresses), variants of the data to put into the
// slot, the call itself, and labelled results.  The variants collide on purpose: same sizes, same first values.
#pragma once
#include "scenes.h"
#include <ceres/ceres.h>
#include <iostream>
#include <memory>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/imgproc.hpp>
#include <optional>
#include <pluginlib/class_list_macros.h>
#include <rct_common/print_utils.h>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/circle_detector.h>
#include <rct_image_tools/image_utils.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/covariance_analysis.h>
#include <rct_optimizations/dh_chain.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/eigen_conversions.h>
#include <rct_optimizations/maximum_likelihood.h>
#include <rct_optimizations/serialization/problems.h>
#include <rct_optimizations/serialization/types.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/console.h>
#include <ros/node_handle.h>

namespace ops
{
using namespace kit;
namespace ri = rct_image_tools;
namespace rr = rct_ros_tools;

/** labelled numbers (compared with a tolerance) and text (compared exactly) */
struct Res
{
  std::vector<std::pair<std::string, double>> v;
  std::string text;
  void put(const std::string& l, double x) { v.emplace_back(l, x); }
  template <class D>
  void put(const std::string& l, const Eigen::DenseBase<D>& m)
  {
    put(l + ".rows", m.rows());
    for (Eigen::Index c = 0; c < m.cols(); ++c)
      for (Eigen::Index r = 0; r < m.rows(); ++r)
        put(l + "(" + str((int)r) + "," + str((int)c) + ")", (double)m(r, c));
  }
  void put(const std::string& l, const Iso& p) { put(l, p.matrix()); }
  void put(const std::string& l, const ro::CovarianceResult& c)
  {
    for (auto& p : c.standard_deviations)
      put(l + ".std " + p.names.first + "/" + p.names.second, p.value);
    for (auto& p : c.covariances)
      put(l + ".cov " + p.names.first + "/" + p.names.second, p.value);
    for (auto& p : c.correlation_coeffs)
      put(l + ".cor " + p.names.first + "/" + p.names.second, p.value);
    put(l + ".matrix.rows", c.covariance_matrix.rows());
    put(l + ".matrix.trace", c.covariance_matrix.rows() ? c.covariance_matrix.trace() : 0);
  }
  void put(const std::string& l, const ro::CameraIntrinsics& k)
  {
    for (int i = 0; i < 4; ++i)
      put(l + str(i), k.values[i]);
  }
  template <Eigen::Index A, Eigen::Index B>
  void put(const std::string& l, const std::vector<ro::Correspondence<A, B>>& s)
  {
    put(l + ".size", (double)s.size());
    for (auto& q : s)
    {
      put(l + "i", q.in_image);
      put(l + "t", q.in_target);
    }
  }
  template <Eigen::Index A, Eigen::Index B>
  void put(const std::string& l, const std::vector<ro::Observation<A, B>>& s)
  {
    put(l + ".size", (double)s.size());
    for (auto& o : s)
    {
      put(l + "c", o.to_camera_mount);
      put(l + "m", o.to_target_mount);
      put(l + "s", o.correspondence_set);
    }
  }
  template <class T>
  void put(const std::string& l, const std::vector<T>& s)
  {
    put(l + ".size", (double)s.size());
    for (auto& q : s)
      put(l, q);
  }
  void put(const std::string& l, const ri::TargetFeatures& f)
  {
    for (auto& kv : f)
      for (auto& p : kv.second)
        put(l + str((int)kv.first), p);
  }
  void put(const std::string& l, const cv::Mat& m)
  {
    cv::Mat c = m.isContinuous() ? m : m.clone();
    size_t n = c.total() * c.elemSize();
    uint64_t h = vf::hashStr(std::string((const char*)c.data, n));
    text += l + ":" + str(m.rows) + "x" + str(m.cols) + "t" + str(m.type()) + "#" + std::to_string(h) + ";";
  }
  void put(const std::string& l, const std::string& s) { text += l + "=" + s + ";"; }
  void put(const std::string& l, const char* s) { text += l + "=" + s + ";"; }
  void put(const std::string& l, const ro::DHChain& c)
  {
    put(l + ".table", c.getDHTable());
    put(l + ".base", c.getBaseOffset());
    for (auto t : c.getJointTypes())
      put(l + ".type", (double)(unsigned)t);
    for (auto& a : c.getParamLabels())
      for (auto& s : a)
        put(l + ".label", s);
  }
  /** empty if the same up to rounding */
  static std::string diff(const Res& a, const Res& b, double rel = 1e-7)
  {
    if (a.text != b.text)
    {
      size_t i = 0;
      while (i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i])
        ++i;
      i = i > 30 ? i - 30 : 0;
      return "'..." + a.text.substr(i, 120) + "' instead of '..." + b.text.substr(i, 120) + "'";
    }
    if (a.v.size() != b.v.size())
      return std::to_string(a.v.size()) + " values instead of " + std::to_string(b.v.size());
    auto x = a.v, y = b.v;
    auto less = [](const auto& p, const auto& q) { return p.first < q.first; };
    std::stable_sort(x.begin(), x.end(), less);
    std::stable_sort(y.begin(), y.end(), less);
    for (size_t i = 0; i < x.size(); ++i)
    {
      if (x[i].first != y[i].first)
        return x[i].first + " instead of " + y[i].first;
      double s = std::max(std::fabs(x[i].second), std::fabs(y[i].second));
      bool same = x[i].second == y[i].second || (std::isnan(x[i].second) && std::isnan(y[i].second)) ||
                  std::fabs(x[i].second - y[i].second) <= rel * s + 1e-10;
      if (!same)
        return x[i].first + " is " + str(x[i].second) + " instead of " + str(y[i].second);
    }
    return "";
  }
};

struct Op
{
  std::string type, variant;
  std::function<void()> load;                      // put this variant's data into the slot
  std::function<std::function<Res()>()> run;       // the call; its value reads the result
  std::function<Res()> inputs;                     // what is in the slot
  bool shareable = true;                           // the slot may be used by several calls at once (const use only)
  std::string name() const { return type + "/" + variant; }
};

template <class In>
struct Variant
{
  std::string name;
  std::function<In()> make;
};
/** one slot per variant instead of one for all: all inputs exist side by side */
inline bool separate_slots = false;
template <class In, class Call, class Show, class Inputs>
void add(std::vector<Op>& out, const std::string& type, const std::vector<Variant<In>>& vs, Call call, Show show, Inputs inputs, bool shareable = true)
{
  auto slot = std::make_shared<std::optional<In>>();
  for (auto& v : vs)
  {
    if (separate_slots)
      slot = std::make_shared<std::optional<In>>();
    Op o;
    o.type = type;
    o.variant = v.name;
    o.shareable = shareable;
    auto make = v.make;
    o.load = [slot, make] {
      slot->reset();
      slot->emplace(make());
    };
    o.run = [slot, call, show]() -> std::function<Res()> {
      using R = std::decay_t<decltype(call(**slot))>;
      std::shared_ptr<R> r;
      std::string err;
      cv::theRNG().state = 0x2545F4914F6CDD1Dull;  // detected circles are drawn in random colours of the vision library's generator
      try
      {
        r = std::make_shared<R>(call(**slot));
      }
      catch (const std::exception& e)
      {
        err = e.what();
      }
      return [r, err, show] {
        Res x;
        if (r)
          show(x, *r);
        else
          x.put("exception", err);
        return x;
      };
    };
    o.inputs = [slot, inputs] {
      Res x;
      inputs(x, **slot);
      return x;
    };
    out.push_back(o);
  }
}

// ---------------------------------------------------------------- data
/** reproducible disturbance */
inline double noise(int seed, int k, double amp) { return amp * std::sin(12.9898 * (seed + 1) + 78.233 * (k + 1) + 0.37 * seed * k); }
/** what distinguishes the variants */
struct Var
{
  int data = 0;         // scene, noise
  bool last = false;    // the last number of the data differs
  bool guess = false;   // another guess
  bool intr = false;    // other intrinsics
  int size = 0;         // other shape
  std::string name;
};
inline std::vector<Var> variants(const std::string& which = "abligc")
{
  std::vector<Var> v;
  for (char c : which)
  {
    Var x;
    switch (c)
    {
      case 'a': x.name = "a"; break;
      case 'b': x.name = "b", x.data = 1; break;
      case 'l': x.name = "last", x.last = true; break;
      case 'g': x.name = "guess", x.guess = true; break;
      case 'i': x.name = "intr", x.intr = true; break;
      case 'c': x.name = "smaller", x.size = 1; break;
      case 'x': x.name = "refused", x.size = -1; break;
    }
    v.push_back(x);
  }
  return v;
}
template <class In, class F>
std::vector<Variant<In>> make(F f, const std::string& which = "abligc")
{
  std::vector<Variant<In>> out;
  for (auto& v : variants(which))
    out.push_back({ v.name, [f, v] { return f(v); } });
  return out;
}
inline CameraIntrinsics cam(const Var& v) { return v.intr ? intr(560, 540, 330, 236) : intrinsics()[v.data]; }
inline Iso nudged(const Iso& p, const Var& v)
{
  double s = v.guess ? -1.3 : 1;
  return p * rpyxyz(0.02 * s, -0.03 * s, 0.025 * s, 0.01 * s, -0.015 * s, 0.02 * s);
}
inline Corr2::Set see2(const CameraIntrinsics& k, const Iso& ct, const std::vector<V3>& pts, const Var& v, int seed = 0)
{
  Corr2::Set s;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    V2 p = project(k, xf(ct, pts[i]));
    s.emplace_back(V2(p[0] + noise(seed + 10 * v.data, 2 * i, 0.4), p[1] + noise(seed + 10 * v.data, 2 * i + 1, 0.4)), pts[i]);
  }
  return s;
}
inline Corr3::Set see3(const Iso& ct, const std::vector<V3>& pts, const Var& v, int seed = 0)
{
  Corr3::Set s;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    V3 p = xf(ct, pts[i]);
    for (int d = 0; d < 3; ++d)
      p[d] += noise(seed + 10 * v.data, 3 * i + d, 0.002);
    s.emplace_back(p, pts[i]);
  }
  return s;
}
inline void bump(Corr2::Set& s) { s.back().in_image[1] += 3; }
inline void bump(Corr3::Set& s) { s.back().in_image[2] += 0.02; }
inline std::vector<V3> board(const Var& v) { return grid(3, v.size == 1 ? 3 : 4, 0.06); }

// ---------------------------------------------------------------- calibrations
inline HandEyeTruth handEyeTruth() { return { rpyxyz(0.3, -0.2, 0.6, 0.05, 0.1, 0.08), rpyxyz(-0.2, 0.4, 1.0, 0.3, 0.1, 0.02) }; }
inline ro::ExtrinsicHandEyeProblem2D3D handEye2(const Var& v)
{
  ro::ExtrinsicHandEyeProblem2D3D p;
  auto t = handEyeTruth();
  p.intr = cam(v);
  auto pts = board(v);
  auto w = views(0.7, centre(pts));
  w.resize(v.size == 1 ? 4 : 5);
  p.observations = handEyeMounts<ro::Observation2D3D>(v.data ? MovingTarget : MovingCamera, t, w);
  for (size_t i = 0; i < w.size(); ++i)
    p.observations[i].correspondence_set = see2(cam(v), w[i], pts, v, i);
  if (v.last)
    bump(p.observations.back().correspondence_set);
  p.camera_mount_to_camera_guess = nudged(t.cam, v);
  p.target_mount_to_target_guess = nudged(t.tgt, v);
  if (v.size < 0)
    p.observations.clear();
  return p;
}
inline ro::ExtrinsicHandEyeProblem3D3D handEye3(const Var& v)
{
  ro::ExtrinsicHandEyeProblem3D3D p;
  auto t = handEyeTruth();
  auto pts = board(v);
  auto w = views(0.7, centre(pts));
  w.resize(v.size == 1 ? 4 : 5);
  p.observations = handEyeMounts<ro::Observation3D3D>(v.data ? MovingTarget : MovingCamera, t, w);
  for (size_t i = 0; i < w.size(); ++i)
    p.observations[i].correspondence_set = see3(w[i], pts, v, i);
  if (v.last)
    bump(p.observations.back().correspondence_set);
  p.camera_mount_to_camera_guess = nudged(t.cam, v);
  p.target_mount_to_target_guess = nudged(t.tgt, v);
  return p;
}
template <class P>
struct Pnp  // the problems cannot be assigned, but they can be built in place
{
  CameraIntrinsics intr;
  std::vector<decltype(P::correspondences)> sets;
  Iso guess;
};
inline ro::PnPProblem pnp2(const Var& v, int view = 0)
{
  ro::PnPProblem p;
  p.intr = cam(v);
  auto pts = board(v);
  Iso ct = views(0.7, centre(pts))[view + v.data];
  p.correspondences = see2(p.intr, ct, pts, v, view);
  if (v.last)
    bump(p.correspondences);
  p.camera_to_target_guess = nudged(ct, v);
  if (v.size < 0)
    p.correspondences.clear();
  return p;
}
inline ro::PnPProblem3D pnp3(const Var& v, int view = 0)
{
  ro::PnPProblem3D p;
  auto pts = board(v);
  Iso ct = views(0.7, centre(pts))[view + v.data];
  p.correspondences = see3(ct, pts, v, view);
  if (v.last)
    bump(p.correspondences);
  p.camera_to_target_guess = nudged(ct, v);
  return p;
}
inline MultiScene multi(const Var& v, int ncam = 2, int nimg = 4)
{
  MultiScene s = multiScene(ncam, v.size == 1 ? nimg - 1 : nimg, 0, 1, v.data);
  s.pts = board(v);
  if (v.intr)
    for (auto& k : s.intr)
      k = intr(k.fx() + 10, k.fy() - 10, k.cx() + 5, k.cy() - 3);
  return s;
}
inline Corr2::Set seeMulti(const MultiScene& s, int c, int i, const Var& v)
{
  return see2(s.intr[c], inv(s.cams[c]) * s.tgts[i], s.pts, v, 3 * c + i);
}
inline ro::MultiCameraPnPProblem mcPnp(const Var& v)
{
  MultiScene s = multi(v);
  ro::MultiCameraPnPProblem p;
  p.intr = s.intr;
  p.base_to_camera = s.cams;
  for (int c = 0; c < 2; ++c)
    p.image_observations.push_back(seeMulti(s, c, 0, v));
  if (v.last)
    bump(p.image_observations.back());
  p.base_to_target_guess = nudged(s.tgts[0], v);
  if (v.size < 0)
    p.image_observations.pop_back();
  return p;
}
inline ro::ExtrinsicMultiStaticCameraMovingTargetProblem msMoving(const Var& v)
{
  MultiScene s = multi(v);
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.intr = s.intr;
  for (int c = 0; c < 2; ++c)
  {
    p.wrist_poses.push_back(s.wrists);
    p.image_observations.emplace_back();
    for (size_t i = 0; i < s.wrists.size(); ++i)
      p.image_observations[c].push_back(seeMulti(s, c, i, v));
    p.base_to_camera_guess.push_back(nudged(s.cams[c], v));
  }
  if (v.last)
    bump(p.image_observations.back().back());
  p.wrist_to_target_guess = nudged(s.wt, v);
  if (v.size < 0)
    p.wrist_poses.pop_back();
  return p;
}
inline ro::ExtrinsicMultiStaticCameraOnlyProblem msOnly(const Var& v)
{
  MultiScene s = multi(v);
  ro::ExtrinsicMultiStaticCameraOnlyProblem p;
  p.intr = s.intr;
  p.fix_first_camera = true;
  for (int c = 0; c < 2; ++c)
  {
    p.image_observations.emplace_back();
    for (size_t i = 0; i < s.tgts.size(); ++i)
      p.image_observations[c].push_back(seeMulti(s, c, i, v));
    p.base_to_camera_guess.push_back(c ? nudged(s.cams[c], v) : s.cams[c]);
  }
  for (auto& t : s.tgts)
    p.base_to_target_guess.push_back(nudged(t, v));
  if (v.last)
    bump(p.image_observations.back().back());
  if (v.size < 0)
    p.base_to_target_guess.clear();
  return p;
}
inline ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem msWrist(const Var& v)
{
  MultiScene s = multi(v);
  ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
  p.intr = s.intr;
  p.wrist_poses = s.wrists;
  for (int c = 0; c < 2; ++c)
  {
    p.image_observations.emplace_back();
    for (size_t i = 0; i < s.wrists.size(); ++i)
      p.image_observations[c].push_back(seeMulti(s, c, i, v));
    p.base_to_camera_guess.push_back(s.cams[c]);
  }
  if (v.last)
    bump(p.image_observations.back().back());
  p.wrist_to_target_guess = nudged(s.wt, v);
  if (v.size < 0)
    p.wrist_poses.pop_back();
  return p;
}
inline ro::IntrinsicEstimationProblem intrinsic(const Var& v)
{
  ro::IntrinsicEstimationProblem p;
  auto pts = grid(4, v.size == 1 ? 4 : 5, 0.05);
  auto w = frontViews(0.5, centre(pts), v.size == 1 ? 5 : 6, 0.3);
  auto k = v.data ? intr(640, 620, 310, 250) : intr(550, 550, 320, 240);
  for (size_t i = 0; i < w.size(); ++i)
    p.image_observations.push_back(see2(k, w[i], pts, v, i));
  if (v.last)
    bump(p.image_observations.back());
  p.intrinsics_guess = v.intr ? intr(600, 600, 330, 250) : intr(570, 565, 325, 238);
  p.use_extrinsic_guesses = v.guess;
  if (v.guess)
    p.extrinsic_guesses = w;
  if (v.size < 0)
    p.use_extrinsic_guesses = true;
  return p;
}
inline ro::CircleFitProblem circle(const Var& v)
{
  ro::CircleFitProblem p;
  double x = v.data ? 4.2 : 1.0, y = v.data ? -3.1 : 2.0, r = v.data ? 2.7 : 1.4;
  for (int i = 0; i < (v.size == 1 ? 7 : 9); ++i)
    p.observations.emplace_back(x + r * std::cos(0.6 * i) + noise(v.data, i, 0.02), y + r * std::sin(0.6 * i) + noise(v.data + 3, i, 0.02));
  if (v.last)
    p.observations.back()[1] += 0.1;
  p.x_center_initial = x + (v.guess ? -0.3 : 0.2);
  p.y_center_initial = y + (v.guess ? 0.1 : -0.1);
  p.radius_initial = r * (v.guess ? 1.2 : 0.9);
  if (v.size < 0)
    p.observations.clear();
  return p;
}
// ---------------------------------------------------------------- kinematics
inline ro::DHChain chain(int data, int n, bool last = false)
{
  const double d[3][4] = { { 0.3, 0.1, 0.2, PI / 2 }, { 0.1, -0.4, 0.5, 0.2 }, { 0.2, 0.3, 0.1, -PI / 2 } };
  std::vector<ro::DHTransform> t;
  for (int i = 0; i < n; ++i)
  {
    Eigen::Vector4d q(d[i][0], d[i][1], d[i][2], d[i][3]);
    if (data)
      q += Eigen::Vector4d(0.05, -0.1, 0.07, 0.03);
    if (last && i == n - 1)
      q[3] += 0.05;
    t.emplace_back(q, i == 1 && data ? ro::DHJointType::LINEAR : ro::DHJointType::REVOLUTE, "j" + str(i), 42 + i);
  }
  return ro::DHChain(t, rpyxyz(0.1, 0.2, 0.3, 0.4 + data, 0.5, 0.6));
}
inline VX joints(int n, int k)
{
  VX q(n);
  for (int i = 0; i < n; ++i)
    q[i] = 0.4 * std::sin(1.7 * k + 2.3 * i + 0.5);
  return q;
}
struct KinTruth
{
  ro::DHChain cam, tgt;
  Iso mc, mt, base;
};
template <class P>
P kin(const Var& v)
{
  ro::DHChain cc = chain(0, 1), tc = chain(0, 2);
  P p(cc, tc);
  p.camera_mount_to_camera_guess = Iso::Identity();
  p.target_mount_to_target_guess = rpyxyz(0.1, -0.1, 0.3, 0.05, 0.02, 0.1);
  p.camera_base_to_target_base_guess = rpyxyz(0.2, 0.1, -0.3, 0.5, 0.2, 1.5);
  // only the target mount is free; every other block is masked completely or fixed
  Eigen::Array<bool, Eigen::Dynamic, 4> mc = Eigen::Array<bool, Eigen::Dynamic, 4>::Constant(1, 4, true);
  Eigen::Array<bool, Eigen::Dynamic, 4> mt = Eigen::Array<bool, Eigen::Dynamic, 4>::Constant(2, 4, true);
  mt(1, 2) = false;
  p.mask[0] = ro::createDHMask(mc);
  p.mask[1] = ro::createDHMask(mt);
  for (int i : { 2, 3 })
    p.mask[i] = { 0, 1, 2 };
  p.mask[6] = p.mask[7] = { 0, 1, 2 };
  return p;
}
template <class P>
std::vector<Iso> kinViews(P& p, const Var& v, int n)
{
  std::vector<Iso> out;
  Iso mt = p.target_mount_to_target_guess;
  for (int k = 0; k < n; ++k)
  {
    Iso cb = p.camera_chain.template getFK<double>(joints(1, k)) * p.camera_mount_to_camera_guess;
    Iso tb = p.camera_base_to_target_base_guess * p.target_chain.template getFK<double>(joints(2, k + 3)) * mt;
    out.push_back(inv(cb) * tb);
  }
  p.target_mount_to_target_guess = nudged(mt, v);
  return out;
}
inline ro::KinematicCalibrationProblemPose6D kin6(const Var& v)
{
  auto p = kin<ro::KinematicCalibrationProblemPose6D>(v);
  int n = v.size == 1 ? 5 : 6;
  auto w = kinViews(p, v, n);
  for (int k = 0; k < n; ++k)
  {
    ro::KinematicMeasurement m;
    m.camera_chain_joints = joints(1, k);
    m.target_chain_joints = joints(2, k + 3);
    m.camera_to_target = w[k] * rpyxyz(noise(v.data, 6 * k, 0.003), noise(v.data, 6 * k + 1, 0.003), 0, noise(v.data, 6 * k + 2, 0.003), 0, v.last && k == n - 1 ? 0.02 : 0);
    p.observations.push_back(m);
  }
  if (v.size < 0)
    p.mask[1] = { 0, 99 };
  return p;
}
inline ro::KinematicCalibrationProblem2D3D kin2(const Var& v)
{
  auto p = kin<ro::KinematicCalibrationProblem2D3D>(v);
  int n = v.size == 1 ? 5 : 6;
  auto w = kinViews(p, v, n);
  p.intr = cam(v);
  auto pts = grid(2, 3, 0.1);
  for (int k = 0; k < n; ++k)
  {
    ro::KinObservation2D3D m;
    m.camera_chain_joints = joints(1, k);
    m.target_chain_joints = joints(2, k + 3);
    m.correspondence_set = see2(p.intr, w[k], pts, v, k);
    if (v.last && k == n - 1)
      bump(m.correspondence_set);
    p.observations.push_back(m);
  }
  if (v.size < 0)
    p.mask[1] = { 0, 99 };
  return p;
}
template <class T>
void showKin(Res& x, const T& r)
{
  x.put("converged", r.converged);
  x.put("initial", r.initial_cost_per_obs);
  x.put("final", r.final_cost_per_obs);
  x.put("mc", r.camera_mount_to_camera);
  x.put("mt", r.target_mount_to_target);
  x.put("base", r.camera_base_to_target_base);
  x.put("dc", r.camera_chain_dh_offsets);
  x.put("dt", r.target_chain_dh_offsets);
  x.put("cov", r.covariance);
}
template <class T>
void showCosts(Res& x, const T& r)
{
  x.put("converged", r.converged);
  x.put("initial", r.initial_cost_per_obs);
  x.put("final", r.final_cost_per_obs);
}

// ---------------------------------------------------------------- images
inline cv::Mat warp(const cv::Mat& m, double a, double tilt, int w, int h)
{
  cv::Mat out;
  cv::Point2f s[4] = { { 0, 0 }, { (float)m.cols, 0 }, { (float)m.cols, (float)m.rows }, { 0, (float)m.rows } }, d[4];
  for (int i = 0; i < 4; ++i)
  {
    double x = s[i].x - m.cols / 2.0, y = s[i].y - m.rows / 2.0;
    double u = x * std::cos(a) - y * std::sin(a), v = x * std::sin(a) + y * std::cos(a), k = 1 / (1 + tilt * v / h);
    d[i] = cv::Point2f(w / 2.0 + u * k, h / 2.0 + v * k);
  }
  cv::warpPerspective(m, out, cv::getPerspectiveTransform(s, d), cv::Size(w, h), cv::INTER_AREA, cv::BORDER_CONSTANT, cv::Scalar(255));
  return out;
}
inline cv::Mat circleImage(const Var& v)
{
  int rows = v.size == 1 ? 3 : 4, cols = 5;
  cv::Mat big(rows * 32, cols * 32, CV_8UC1, cv::Scalar(255));
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c)
      cv::circle(big, cv::Point(16 + 32 * c, 16 + 32 * r), r == rows - 1 && c == 0 ? 13 : 7, cv::Scalar(0), -1, cv::LINE_AA);
  cv::Mat m = warp(big, v.data ? 0.25 : 0.05, v.last ? 0.1 : 0.05, 210, 180);
  if (v.intr)
    cv::cvtColor(m, m, cv::COLOR_GRAY2BGR);
  if (v.size < 0)
    m.setTo(cv::Scalar::all(200));
  return m;
}
/** discs close to the limits of the detector's filters: grey level (number of thresholds that see them), size, shape, distance */
inline cv::Mat marginalDiscs(const Var& v)
{
  const int cols = 7, w = 30, rows = 6;
  cv::Mat big(rows * w, cols * w, CV_8UC1, cv::Scalar(255));
  auto at = [&](int r, int c) { return cv::Point(w / 2 + w * c, w / 2 + w * r); };
  auto grey = [](int g) { return cv::Scalar(g); };
  for (int c = 0; c < cols; ++c)
  {
    cv::circle(big, at(0, c), 9, grey(216 - 9 * c), -1);                                              // seen by few thresholds
    cv::circle(big, at(1, c), 1 + c, grey(20), -1, cv::LINE_AA);                                      // small
    cv::ellipse(big, at(2, c), cv::Size(13, 13 - c * 1.6), 20 * c, 0, 360, grey(20), -1, cv::LINE_AA);  // long
    cv::circle(big, at(3, c), 10, grey(20), -1);                                                      // with a bite
    cv::circle(big, at(3, c) + cv::Point(10, 0), c, grey(255), -1);
    cv::circle(big, at(4, c) - cv::Point(6, 0), 4, grey(20), -1);  // near each other
    cv::circle(big, at(4, c) + cv::Point(c - 1, 0), 4, grey(20), -1);
    cv::circle(big, at(5, c), 11, grey(120 + 10 * c), -1);  // one in the other
    cv::circle(big, at(5, c), 4 + c % 4, grey(20), -1);
  }
  return v.data ? warp(big, 0.2, 0.05, cols * w, rows * w) : big;
}
/** objects that live as long as the alphabet: the same finder sees one image after the other */
struct Keep
{
  std::map<std::string, std::shared_ptr<const void>> m;
  template <class T, class F>
  std::shared_ptr<const T> get(const std::string& key, F make)
  {
    auto& p = m[key];
    if (!p)
      p = make();
    return std::static_pointer_cast<const T>(p);
  }
};
using KeepPtr = std::shared_ptr<Keep>;
struct Circles
{
  ri::ModifiedCircleGridTarget target;
  std::shared_ptr<const ri::ModifiedCircleGridTargetFinder> finder;
  cv::Mat image;
  ri::TargetFeatures features;
};
inline Circles circles(const KeepPtr& keep, const Var& v)
{
  int rows = v.size == 1 ? 3 : 4, cols = 5;
  ri::ModifiedCircleGridTarget t(rows, cols, v.data ? 0.02 : 0.03);
  ri::TargetFeatures f;
  for (int i = 0; i < rows * cols - (v.last ? 1 : 0) - (v.size < 0 ? 3 : 0); ++i)
    f[i] = { Eigen::Vector2d(10.25 + 20 * (i % cols) + v.data, 12.5 + 20 * (i / cols)) };
  return { t, keep->get<ri::ModifiedCircleGridTargetFinder>("circles" + str(rows) + str(v.data), [&] { return std::make_shared<const ri::ModifiedCircleGridTargetFinder>(t); }), circleImage(v), f };
}
template <class T>
void showTarget(Res& x, const T& t)
{
  for (auto& kv : t.points)
    x.put("p" + str((int)kv.first), kv.second);
}
struct Arucos
{
  ri::ArucoGridTarget target;
  std::shared_ptr<const ri::ArucoGridBoardTargetFinder> finder;
  cv::Mat image;
  ri::TargetFeatures features;
};
inline Arucos arucos(const KeepPtr& keep, const Var& v)
{
  int rows = 2, cols = v.size == 1 ? 2 : 3;
  ri::ArucoGridTarget t(rows, cols, v.data ? 0.05f : 0.04f, 0.01f, v.data ? cv::aruco::DICT_4X4_50 : cv::aruco::DICT_6X6_250);
  cv::Mat m;
  auto b = cv::aruco::GridBoard::create(cols, rows, 0.04f, 0.01f, cv::aruco::getPredefinedDictionary(v.data ? cv::aruco::DICT_4X4_50 : cv::aruco::DICT_6X6_250));
  b->draw(cv::Size(cols * 90, rows * 90), m, 10);
  m = warp(m, v.last ? 0.2 : 0.1, 0.05, 360, 280);
  if (v.intr)
    cv::cvtColor(m, m, cv::COLOR_GRAY2BGR);
  if (v.size < 0)
    m.setTo(cv::Scalar::all(255));
  ri::TargetFeatures f;
  for (int i = 0; i < rows * cols - (v.last ? 1 : 0); ++i)
    for (int k = 0; k < 4; ++k)
      f[i].push_back(Eigen::Vector2d(20 + 30 * i + 10 * (k == 1 || k == 2) + v.data, 40 + 10 * (k / 2)));
  return { t, keep->get<ri::ArucoGridBoardTargetFinder>("aruco" + str(cols) + str(v.data), [&] { return std::make_shared<const ri::ArucoGridBoardTargetFinder>(t); }), m, f };
}
struct Charucos
{
  ri::CharucoGridTarget target;
  std::shared_ptr<const ri::CharucoGridBoardTargetFinder> finder;
  cv::Mat image;
  ri::TargetFeatures features;
};
inline Charucos charucos(const KeepPtr& keep, const Var& v)
{
  int rows = 3, cols = v.size == 1 ? 3 : 4;
  int dict = v.data ? cv::aruco::DICT_4X4_50 : cv::aruco::DICT_6X6_250;
  ri::CharucoGridTarget t(rows, cols, v.data ? 0.05f : 0.04f, 0.025f, dict);
  cv::Mat m;
  auto b = cv::aruco::CharucoBoard::create(cols, rows, 0.04f, 0.03f, cv::aruco::getPredefinedDictionary(dict));
  b->draw(cv::Size(cols * 80, rows * 80), m, 5);
  m = warp(m, v.last ? 0.2 : 0.1, 0.05, 380, 300);
  if (v.intr)
    cv::cvtColor(m, m, cv::COLOR_GRAY2BGR);
  if (v.size < 0)
    m.setTo(cv::Scalar::all(255));
  ri::TargetFeatures f;
  for (int i = 0; i < (rows - 1) * (cols - 1) - (v.last ? 1 : 0); ++i)
    f[i] = { Eigen::Vector2d(20 + 30 * i + v.data, 40 + 7 * i) };
  return { t, keep->get<ri::CharucoGridBoardTargetFinder>("charuco" + str(cols) + str(v.data), [&] { return std::make_shared<const ri::CharucoGridBoardTargetFinder>(t); }), m, f };
}
template <class S>
void image3(std::vector<Op>& out, const std::string& n, S build, std::function<void(Res&, const std::decay_t<decltype(build(Var()))>&)> target)
{
  using In = std::decay_t<decltype(build(Var()))>;
  auto inputs = [target](Res& x, const In& s) {
    target(x, s);
    x.put("image", s.image);
    x.put("features", s.features);
  };
  struct All
  {
    ri::TargetFeatures f;
    cv::Mat drawn;
    Corr2::Set cs;
  };
  add<In>(out, n + ".find", make<In>(build, "ablicx"), [](const In& s) { return s.finder->findTargetFeatures(s.image); },
          [](Res& x, const ri::TargetFeatures& f) { x.put("f", f); }, inputs);
  add<In>(out, n + ".draw", make<In>(build, "ablic"), [](const In& s) { return s.finder->drawTargetFeatures(s.image, s.features); },
          [](Res& x, const cv::Mat& f) { x.put("f", f); }, inputs);
  add<In>(out, n + ".corr", make<In>(build, "ablcx"), [](const In& s) { return s.finder->target().createCorrespondences(s.features); },
          [](Res& x, const Corr2::Set& f) { x.put("f", f); }, inputs);
}

/** grabs what goes to the standard output, and puts its formatting state into the result */
struct Printed
{
  std::string out;
};
struct PrintIn
{
  Iso a, b;
  std::string title;
};

struct MlIn
{
  ro::MaximumLikelihood f;
  Eigen::ArrayXXd at;
};
struct ProjIn
{
  ro::Observation2D3D::Set obs;
  CameraIntrinsics intr;
  Iso cam, tgt;
};
template <class C>
struct HomIn
{
  std::vector<C> set;
  std::shared_ptr<const ro::CorrespondenceSampler> sampler;
};
struct XmlIn
{
  std::string text;
};
struct FinderStub : ri::TargetFinder
{
  ri::ModifiedCircleGridTarget t{ 2, 3, 0.1 };
  ri::TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    if (m.at<uchar>(0, 0) == 0)
      throw std::runtime_error("nothing there");
    ri::TargetFeatures f;
    for (int i = 0; i < 6; ++i)
      f[i] = { Eigen::Vector2d(m.at<uchar>(0, i % m.cols), i) };
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const ri::TargetFeatures&) const override { return m; }
  const ri::Target& target() const override { return t; }
};
struct Line
{
  std::vector<std::pair<double, double>> xy;
  bool mask;
};
struct LineCost
{
  double x, y;
  template <class T>
  bool operator()(const T* a, const T* b, T* r) const
  {
    r[0] = a[0] + a[1] * x + b[0] * x * x - y;
    return true;
  }
};
struct SetIn
{
  std::vector<rr::ExtrinsicDataSet> sets;
  std::shared_ptr<const FinderStub> finder;
};

/** `full`: also the operations that touch files or the standard output (they are not meant to run concurrently) */
inline std::vector<Op> all(bool full, const std::string& scratch = "")
{
  std::vector<Op> o;
  auto keep = std::make_shared<Keep>();
  using namespace ro;
  // --- calibrations
  auto handEye = [](Res& x, const ExtrinsicHandEyeResult& r) {
    showCosts(x, r);
    x.put("cam", r.camera_mount_to_camera);
    x.put("tgt", r.target_mount_to_target);
    x.put("cov", r.covariance);
  };
  add<ExtrinsicHandEyeProblem2D3D>(o, "handeye2d", make<ExtrinsicHandEyeProblem2D3D>(handEye2), [](const ExtrinsicHandEyeProblem2D3D& p) { return optimize(p); }, handEye,
                                   [](Res& x, const ExtrinsicHandEyeProblem2D3D& p) {
                                     x.put("o", p.observations);
                                     x.put("i", p.intr);
                                     x.put("g1", p.camera_mount_to_camera_guess);
                                     x.put("g2", p.target_mount_to_target_guess);
                                   });
  add<ExtrinsicHandEyeProblem3D3D>(o, "handeye3d", make<ExtrinsicHandEyeProblem3D3D>(handEye3, "ablgc"), [](const ExtrinsicHandEyeProblem3D3D& p) { return optimize(p); }, handEye,
                                   [](Res& x, const ExtrinsicHandEyeProblem3D3D& p) {
                                     x.put("o", p.observations);
                                     x.put("g1", p.camera_mount_to_camera_guess);
                                     x.put("g2", p.target_mount_to_target_guess);
                                   });
  auto pnp = [](Res& x, const PnPResult& r) {
    showCosts(x, r);
    x.put("ct", r.camera_to_target);
    x.put("cov", r.covariance);
  };
  add<PnPProblem>(o, "pnp2d", make<PnPProblem>([](const Var& v) { return pnp2(v); }), [](const PnPProblem& p) { return optimize(p); }, pnp, [](Res& x, const PnPProblem& p) {
    x.put("i", p.intr);
    x.put("o", p.correspondences);
    x.put("g", p.camera_to_target_guess);
  });
  add<PnPProblem3D>(o, "pnp3d", make<PnPProblem3D>([](const Var& v) { return pnp3(v); }, "ablgc"), [](const PnPProblem3D& p) { return optimize(p); }, pnp,
                    [](Res& x, const PnPProblem3D& p) {
                      x.put("o", p.correspondences);
                      x.put("g", p.camera_to_target_guess);
                    });
  add<MultiCameraPnPProblem>(o, "mcpnp", make<MultiCameraPnPProblem>(mcPnp, "abligc"), [](const MultiCameraPnPProblem& p) { return optimize(p); },
                             [](Res& x, const MultiCameraPnPResult& r) {
                               showCosts(x, r);
                               x.put("bt", r.base_to_target);
                             },
                             [](Res& x, const MultiCameraPnPProblem& p) {
                               x.put("i", p.intr);
                               x.put("c", p.base_to_camera);
                               x.put("o", p.image_observations);
                               x.put("g", p.base_to_target_guess);
                             });
  auto multiIn = [](Res& x, const auto& p) {
    x.put("i", p.intr);
    x.put("o", p.image_observations);
    x.put("g", p.base_to_camera_guess);
  };
  auto multiMoving = [](Res& x, const auto& r) {
    showCosts(x, r);
    x.put("wt", r.wrist_to_target);
    x.put("bc", r.base_to_camera);
    x.put("cov", r.covariance);
  };
  add<ExtrinsicMultiStaticCameraMovingTargetProblem>(o, "msmoving", make<ExtrinsicMultiStaticCameraMovingTargetProblem>(msMoving, "abligc"),
                                                     [](const ExtrinsicMultiStaticCameraMovingTargetProblem& p) { return optimize(p); }, multiMoving,
                                                     [multiIn](Res& x, const ExtrinsicMultiStaticCameraMovingTargetProblem& p) {
                                                       multiIn(x, p);
                                                       x.put("w", p.wrist_poses);
                                                       x.put("wt", p.wrist_to_target_guess);
                                                     });
  add<ExtrinsicMultiStaticCameraOnlyProblem>(o, "msonly", make<ExtrinsicMultiStaticCameraOnlyProblem>(msOnly, "abligc"),
                                             [](const ExtrinsicMultiStaticCameraOnlyProblem& p) { return optimize(p); },
                                             [](Res& x, const ExtrinsicMultiStaticCameraOnlyResult& r) {
                                               showCosts(x, r);
                                               x.put("bt", r.base_to_target);
                                               x.put("bc", r.base_to_camera);
                                               x.put("cov", r.covariance);
                                             },
                                             [multiIn](Res& x, const ExtrinsicMultiStaticCameraOnlyProblem& p) {
                                               multiIn(x, p);
                                               x.put("t", p.base_to_target_guess);
                                             });
  add<ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem>(o, "mswrist", make<ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem>(msWrist, "abligc"),
                                                              [](const ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem& p) { return optimize(p); }, multiMoving,
                                                              [multiIn](Res& x, const ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem& p) {
                                                                multiIn(x, p);
                                                                x.put("w", p.wrist_poses);
                                                                x.put("wt", p.wrist_to_target_guess);
                                                              });
  add<IntrinsicEstimationProblem>(o, "intrinsic", make<IntrinsicEstimationProblem>(intrinsic, "abligcx"), [](const IntrinsicEstimationProblem& p) { return optimize(p); },
                                  [](Res& x, const IntrinsicEstimationResult& r) {
                                    showCosts(x, r);
                                    x.put("k", r.intrinsics);
                                    for (int i = 0; i < 5; ++i)
                                      x.put("d" + str(i), r.distortions[i]);
                                    x.put("t", r.target_transforms);
                                    x.put("cov", r.covariance);
                                  },
                                  [](Res& x, const IntrinsicEstimationProblem& p) {
                                    x.put("o", p.image_observations);
                                    x.put("i", p.intrinsics_guess);
                                    x.put("g", p.extrinsic_guesses);
                                  });
  add<CircleFitProblem>(o, "circle", make<CircleFitProblem>(circle, "ablgc"), [](const CircleFitProblem& p) { return optimize(p); },
                        [](Res& x, const CircleFitResult& r) {
                          showCosts(x, r);
                          x.put("x", r.x_center);
                          x.put("y", r.y_center);
                          x.put("r", r.radius);
                          x.put("cov", r.covariance);
                        },
                        [](Res& x, const CircleFitProblem& p) {
                          x.put("o", p.observations);
                          x.put("x", p.x_center_initial);
                          x.put("y", p.y_center_initial);
                          x.put("r", p.radius_initial);
                        });
  // --- kinematics
  add<KinematicCalibrationProblem2D3D>(o, "kin2d", make<KinematicCalibrationProblem2D3D>(kin2, "abligcx"), [](const KinematicCalibrationProblem2D3D& p) { return optimize(p); },
                                       [](Res& x, const KinematicCalibrationResult& r) { showKin(x, r); },
                                       [](Res& x, const KinematicCalibrationProblem2D3D& p) {
                                         x.put("c", p.camera_chain);
                                         x.put("t", p.target_chain);
                                         x.put("i", p.intr);
                                         x.put("g", p.target_mount_to_target_guess);
                                         for (auto& q : p.observations)
                                         {
                                           x.put("o", q.correspondence_set);
                                           x.put("jc", q.camera_chain_joints);
                                           x.put("jt", q.target_chain_joints);
                                         }
                                       });
  add<KinematicCalibrationProblemPose6D>(o, "kin6d", make<KinematicCalibrationProblemPose6D>(kin6, "ablgcx"), [](const KinematicCalibrationProblemPose6D& p) { return optimize(p); },
                                         [](Res& x, const KinematicCalibrationResult& r) { showKin(x, r); },
                                         [](Res& x, const KinematicCalibrationProblemPose6D& p) {
                                           x.put("c", p.camera_chain);
                                           x.put("t", p.target_chain);
                                           x.put("g", p.target_mount_to_target_guess);
                                           for (auto& q : p.observations)
                                           {
                                             x.put("o", q.camera_to_target);
                                             x.put("jc", q.camera_chain_joints);
                                             x.put("jt", q.target_chain_joints);
                                           }
                                         });
  struct Chain
  {
    std::shared_ptr<const DHChain> p;
    const DHChain& c;
    VX q;
    Eigen::MatrixX4d off;
  };
  auto chains = [keep](const Var& v) {
    int n = v.size == 1 ? 2 : 3;
    auto p = keep->get<DHChain>("chain" + str(v.data) + str(n) + str(v.last), [&] { return std::make_shared<const DHChain>(chain(v.data, n, v.last)); });
    Chain c{ p, *p, joints(v.size < 0 ? n + 1 : n, v.guess), Eigen::MatrixX4d::Constant(n, 4, 0.01 + 0.01 * v.intr) };
    return c;
  };
  auto chainIn = [](Res& x, const Chain& c) {
    x.put("c", c.c);
    x.put("q", c.q);
    x.put("off", c.off);
  };
  add<Chain>(o, "dh.fk", make<Chain>(chains, "abligcx"),
             [](const Chain& c) {
               std::vector<Iso> v{ c.c.getFK<double>(c.q), c.c.getFK<double>(c.q, c.off) };
               for (size_t i = 0; i < c.c.dof(); ++i)
                 v.push_back(c.c.getRelativeTransform(i, 0.3 + c.q[0]));
               v.push_back(c.c.getFK<double>(-c.q));
               v.push_back(c.c.getFK<double>(c.q));
               v.push_back(DHChain(c.c, c.off).getFK<double>(c.q));
               return v;
             },
             [](Res& x, const std::vector<Iso>& v) { x.put("fk", v); }, chainIn);
  add<Chain>(o, "dh.table", make<Chain>(chains, "ablc"), [](const Chain& c) { return DHChain(c.c, c.off); }, [](Res& x, const DHChain& c) { x.put("c", c); }, chainIn);
  add<Chain>(o, "dh.random", make<Chain>(chains, "abc"),
             [](const Chain& c) {
               VX q = c.c.createUniformlyRandomPose();
               // the generator's values are its own affair, their range is not
               return std::make_pair((int)q.size(), (q.array() >= -PI).all() && (q.array() <= PI).all());
             },
             [](Res& x, const std::pair<int, bool>& r) {
               x.put("n", r.first);
               x.put("inside", r.second);
             },
             chainIn);
  // --- validation
  auto hom2 = [](const Var& v) {
    HomIn<Corr2> h;
    int n = v.size == 1 ? 3 : 4;
    auto k = cam(v);
    h.set = see2(k, views(0.7, V3(0.06, 0.06, 0))[v.data], grid(4, n, 0.04), v, 0);
    if (v.last)
      bump(h.set);
    if (v.guess)
      h.sampler = std::make_shared<RandomCorrespondenceSampler>(4 * n, 5, 7);
    else if (v.size < 0)
      h.sampler = std::make_shared<GridCorrespondenceSampler>(9, n);
    else
      h.sampler = std::make_shared<GridCorrespondenceSampler>(4, n, 1);
    return h;
  };
  auto hom3 = [](const Var& v) {
    HomIn<Corr3> h;
    int n = v.size == 1 ? 3 : 4;
    h.set = see3(views(0.7, V3(0.06, 0.06, 0))[v.data], grid(4, n, 0.04), v, 0);
    if (v.last)
      bump(h.set);
    if (v.guess)
      h.sampler = std::make_shared<RandomCorrespondenceSampler>(4 * n, 5, 7);
    else if (v.size < 0)
      h.sampler = std::make_shared<GridCorrespondenceSampler>(9, n);
    else
      h.sampler = std::make_shared<GridCorrespondenceSampler>(4, n, 1);
    return h;
  };
  add<HomIn<Corr2>>(o, "homography2d", make<HomIn<Corr2>>(hom2, "ablgcx"), [](const HomIn<Corr2>& h) { return calculateHomographyError(h.set, *h.sampler); },
                    [](Res& x, const VX& e) { x.put("e", e); }, [](Res& x, const HomIn<Corr2>& h) { x.put("s", h.set); });
  add<HomIn<Corr3>>(o, "homography3d", make<HomIn<Corr3>>(hom3, "ablgcx"), [](const HomIn<Corr3>& h) { return calculateHomographyError(h.set, *h.sampler); },
                    [](Res& x, const VX& e) { x.put("e", e); }, [](Res& x, const HomIn<Corr3>& h) { x.put("s", h.set); });
  add<HomIn<Corr2>>(o, "sampler", make<HomIn<Corr2>>(hom2, "agc"), [](const HomIn<Corr2>& h) { return h.sampler->getSampleCorrespondenceIndices(); },
                    [](Res& x, const std::vector<size_t>& e) {
                      for (auto i : e)
                        x.put("i", (double)i);
                    },
                    [](Res& x, const HomIn<Corr2>& h) { x.put("s", h.set); });
  auto noiseShow = [](Res& x, const PnPNoiseStat& s) {
    x.put("pm", s.p_stat.mean);
    x.put("ps", s.p_stat.stdev);
    x.put("qm", s.q_stat.mean.toRotationMatrix());
    x.put("qs", s.q_stat.stdev);
  };
  using P2 = std::vector<PnPProblem>;
  using P3 = std::vector<PnPProblem3D>;
  add<P2>(o, "noise2d", make<P2>(
                            [](const Var& v) {
                              P2 p;
                              for (int i = 0; i < (v.size < 0 ? 0 : v.size == 1 ? 2 : 3); ++i)
                              {
                                Var w = v;
                                w.last = v.last && i == 2;
                                p.push_back(pnp2(w, i));
                              }
                              return p;
                            },
                            "abligcx"),
          [](const P2& p) { return qualifyNoise2D(p); }, noiseShow, [](Res& x, const P2& p) {
            for (auto& q : p)
              x.put("c", q.correspondences);
          });
  add<P3>(o, "noise3d", make<P3>(
                            [](const Var& v) {
                              P3 p;
                              for (int i = 0; i < (v.size < 0 ? 0 : v.size == 1 ? 2 : 3); ++i)
                              {
                                Var w = v;
                                w.last = v.last && i == 2;
                                p.push_back(pnp3(w, i));
                              }
                              return p;
                            },
                            "ablgcx"),
          [](const P3& p) { return qualifyNoise3D(p); }, noiseShow, [](Res& x, const P3& p) {
            for (auto& q : p)
              x.put("c", q.correspondences);
          });
  using Qs = std::vector<Eigen::Quaterniond>;
  add<Qs>(o, "quaternions", make<Qs>(
                                [](const Var& v) {
                                  Qs q;
                                  for (int i = 0; i < (v.size < 0 ? 0 : v.size == 1 ? 3 : 4); ++i)
                                    q.push_back(Eigen::Quaterniond(rot({ 1, 0.2 * i, -0.3 }, 0.5 + 0.02 * i + v.data + (v.last && i == 3 ? 0.1 : 0))));
                                  return q;
                                },
                                "ablcx"),
          [](const Qs& q) { return computeQuaternionStats(q); },
          [](Res& x, const QuaternionStats& s) {
            x.put("m", s.mean.toRotationMatrix());
            x.put("s", s.stdev);
          },
          [](Res& x, const Qs& q) {
            for (auto& i : q)
              x.put("q", i.coeffs());
          });
  auto proj = [](const Var& v) {
    auto h = handEye2(v);
    auto t = handEyeTruth();
    return ProjIn{ h.observations, h.intr, v.guess ? nudged(t.cam, v) : t.cam, t.tgt };
  };
  auto projIn = [](Res& x, const ProjIn& p) {
    x.put("o", p.obs);
    x.put("i", p.intr);
    x.put("c", p.cam);
    x.put("t", p.tgt);
  };
  add<ProjIn>(o, "virtualdiff", make<ProjIn>(proj, "ablic"),
              [](const ProjIn& p) { return measureVirtualTargetDiff(p.obs.back().correspondence_set, p.intr, views(0.7, V3(0, 0, 0))[p.obs.size() - 1], 50.0); },
              [](Res& x, const VirtualCorrespondenceResult& r) {
                x.put("t", r.t1_to_t2);
                x.put("p", r.positional_error);
                x.put("a", r.angular_error);
              },
              projIn);
  add<ProjIn>(o, "intrinsicaccuracy", make<ProjIn>(proj, "ablic"),
              [](const ProjIn& p) { return measureIntrinsicCalibrationAccuracy(p.obs, p.intr, p.cam, p.tgt, Iso::Identity(), 50.0); },
              [](Res& x, const IntrinsicCalibrationAccuracyResult& r) {
                x.put("p", r.pos_error.first);
                x.put("ps", r.pos_error.second);
                x.put("a", r.ang_error.first);
                x.put("as", r.ang_error.second);
              },
              projIn);
  add<ProjIn>(o, "projection", make<ProjIn>(proj, "abligc"),
              [](const ProjIn& p) { return std::make_pair(compute3DProjectionError(p.obs, p.intr, p.cam, p.tgt), compute3DProjectionError(p.obs.back(), p.intr, p.cam, p.tgt)); },
              [](Res& x, const std::pair<Eigen::ArrayXd, Eigen::ArrayXd>& r) {
                x.put("a", r.first);
                x.put("o", r.second);
              },
              projIn);
  struct Lp
  {
    V3 n, p, l, q;
    Eigen::MatrixX2d src;
    Iso pose;
    Eigen::Matrix3d k;
  };
  auto lpMake = [](const Var& v) {
    Lp l{ V3(0, 0.1 * v.data, 1), V3(0.1, 0.2, 1), v.size < 0 ? V3(1, 0, 0) : V3(0.1, 0.2, 1), V3(0, 0, v.last ? 0.1 : 0), Eigen::MatrixX2d::Constant(v.size == 1 ? 2 : 3, 2, 100), rpyxyz(0.1, 0.2 + 0.1 * v.data, 0.1, 0, 0, 1), Eigen::Matrix3d::Identity() };
    l.src(1, 1) = 150 + v.last;
    l.k << 500, 0, 320, 0, 510, 240, 0, 0, 1;
    return l;
  };
  add<Lp>(o, "lineplane", make<Lp>(lpMake, "ablcx"),
          [](const Lp& l) { return std::make_pair(computeLinePlaneIntersection(l.n, l.p, l.l, l.q), project3D(l.src, l.pose, l.k)); },
          [](Res& x, const std::pair<Eigen::Vector3d, Eigen::MatrixX3d>& r) {
            x.put("i", r.first);
            x.put("p", r.second);
          },
          [](Res& x, const Lp& l) {
            x.put("s", l.src);
            x.put("pose", l.pose);
            x.put("k", l.k);
          });
  struct Cov
  {
    MX m;
    std::vector<std::string> names;
  };
  auto covMake = [](const Var& v) {
    int n = v.size == 1 ? 2 : 3;
    MX a(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        a(i, j) = std::sin(1 + i + 2.3 * j + v.data);
    Cov c;
    c.m = a * a.transpose() + MX::Identity(n, n);
    if (v.last)
      c.m(n - 1, n - 1) *= 2;
    for (int i = 0; i < n; ++i)
      c.names.push_back((v.data ? "q" : "p") + str(i));
    if (v.size < 0)
      c.names.pop_back();
    return c;
  };
  add<Cov>(o, "covresults", make<Cov>(covMake, "ablcx"),
           [](const Cov& c) { return std::make_pair(computeCovarianceResults(c.m, c.names), computeCorrelationsFromCovariance(c.m)); },
           [](Res& x, const std::pair<CovarianceResult, MX>& r) {
             x.put("c", r.first);
             x.put("m", r.second);
             x.put("text", r.first.toString() + r.first.printCorrelationCoeffAboveThreshold(0.1));
           },
           [](Res& x, const Cov& c) {
             x.put("m", c.m);
             for (auto& n : c.names)
               x.put("n", n);
           });
  // a problem of the solver's own, with two named blocks, one of them partly masked
  add<Line>(o, "covariance", make<Line>(
                                 [](const Var& v) {
                                   Line l;
                                   for (int i = 0; i < (v.size == 1 ? 5 : 6); ++i)
                                     l.xy.emplace_back(i * (v.last && i == 5 ? 1.2 : 1) + v.data * 0.5, noise(v.data, i, 1));
                                   l.mask = v.guess;
                                   return l;
                                 },
                                 "ablgc"),
            [](const Line& l) {
              double a[2] = { 0.1, 0.2 }, b[1] = { 0.3 };
              ceres::Problem p;
              for (auto& q : l.xy)
                p.AddResidualBlock(new ceres::AutoDiffCostFunction<LineCost, 1, 2, 1>(new LineCost{ q.first, q.second }), nullptr, a, b);
              std::map<const double*, std::vector<std::string>> names{ { a, { "a0", "a1" } }, { b, { "b" } } };
              std::map<const double*, std::vector<int>> mask;
              if (l.mask)
                mask[a] = { 1 };
              return std::make_pair(computeCovariance(p, names, mask), computeCovariance(p, mask));
            },
            [](Res& x, const std::pair<CovarianceResult, CovarianceResult>& r) {
              x.put("c", r.first);
              x.put("d", r.second.covariance_matrix.rows());
            },
            [](Res& x, const Line& l) {
              for (auto& q : l.xy)
                x.put("q", q.first + 7 * q.second);
            });
  add<Iso>(o, "conversions", make<Iso>([](const Var& v) { return rpyxyz(0.3 + v.data, v.last ? 0.21 : 0.2, -0.5, v.size, 2, 3); }, "ablc"),
           [](const Iso& p) { return std::make_pair(poseEigenToCal(p), poseCalToEigen(poseEigenToCal(p))); },
           [](Res& x, const std::pair<Pose6d, Iso>& r) {
             for (double d : r.first.values)
               x.put("v", d);
             x.put("p", r.second);
           },
           [](Res& x, const Iso& p) { x.put("p", p); });
  add<MlIn>(o, "likelihood", make<MlIn>(
                                 [](const Var& v) {
                                   int n = v.size == 1 ? 2 : 3;
                                   MlIn m{ MaximumLikelihood(Eigen::ArrayXXd::Constant(n, 4, 0.5 + v.data), Eigen::ArrayXXd::Constant(n, 4, 0.2)), Eigen::ArrayXXd::Constant(n, 4, 0.7) };
                                   if (v.last)
                                     m.at(n - 1, 3) = 3;
                                   return m;
                                 },
                                 "ablc"),
            [](const MlIn& m) {
              Eigen::ArrayXXd r(m.at.rows(), 4);
              const double* p = m.at.data();
              m.f(&p, r.data());
              return r;
            },
            [](Res& x, const Eigen::ArrayXXd& r) { x.put("r", r); },
            [](Res& x, const MlIn& m) {
              x.put("m", m.f.mean);
              x.put("s", m.f.stdev);
              x.put("a", m.at);
            });
  // --- serialisation
  add<ExtrinsicHandEyeProblem2D3D>(o, "yaml.problem", make<ExtrinsicHandEyeProblem2D3D>(handEye2, "ablc"),
                                   [](const ExtrinsicHandEyeProblem2D3D& p) {
                                     std::stringstream s;
                                     s << YAML::Node(p);
                                     return YAML::Load(s.str()).as<ExtrinsicHandEyeProblem2D3D>();
                                   },
                                   [](Res& x, const ExtrinsicHandEyeProblem2D3D& p) {
                                     x.put("o", p.observations);
                                     x.put("g", p.camera_mount_to_camera_guess);
                                   },
                                   [](Res& x, const ExtrinsicHandEyeProblem2D3D& p) {
                                     x.put("o", p.observations);
                                     x.put("g", p.camera_mount_to_camera_guess);
                                   });
  add<XmlIn>(o, "yaml.chain", make<XmlIn>(
                                  [](const Var& v) {
                                    std::string s = "base_transform: {x: 1, y: " + std::to_string(v.data) + ", z: 3, qw: 1, qx: 0, qy: 0, qz: 0}\ndh_transforms:\n";
                                    for (int i = 0; i < (v.size == 1 ? 1 : 2); ++i)
                                      s += "- {type: " + std::string(v.data ? "0" : "1") + ", d: 0.1, theta: 0.2, r: 0.3, alpha: " + (v.last && i ? "0.5" : "0.4") + ", joint_name: k" + str(i) + "}\n";
                                    if (v.size < 0)
                                      s += "- {type: 7}\n";
                                    return XmlIn{ s };
                                  },
                                  "ablcx"),
             [](const XmlIn& i) { return YAML::Load(i.text).as<DHChain>(); }, [](Res& x, const DHChain& c) { x.put("c", c); }, [](Res& x, const XmlIn& i) { x.put("t", i.text); });
  // --- images
  image3(o, "circles", [keep](const Var& v) { return circles(keep, v); }, [](Res& x, const Circles& c) {
    x.put("p", dynamic_cast<const ri::ModifiedCircleGridTarget&>(c.finder->target()).createPoints());
    x.put("rows", c.target.rows);
    x.put("cols", c.target.cols);
  });
  image3(o, "aruco", [keep](const Var& v) { return arucos(keep, v); }, [](Res& x, const Arucos& c) {
    for (auto* t : { &c.target, dynamic_cast<const ri::ArucoGridTarget*>(&c.finder->target()) })
      for (auto& kv : t->points)
        for (auto& p : kv.second)
          x.put("p" + str(kv.first), p);
  });
  image3(o, "charuco", [keep](const Var& v) { return charucos(keep, v); }, [](Res& x, const Charucos& c) {
    showTarget(x, c.target);
    showTarget(x, dynamic_cast<const ri::CharucoGridTarget&>(c.finder->target()));
  });
  struct Det
  {
    cv::Mat image;
    ri::CircleDetectorParams par;
    cv::Ptr<ri::CircleDetector> d;
  };
  auto detMake = [keep](const Var& v) {
    Det d;
    d.image = circleImage(v);
    if (v.size >= 0 && !v.intr)
      d.image.push_back(marginalDiscs(v));
    if (v.guess)
      d.par.minThreshold = 100;
    auto k = keep->get<cv::Ptr<ri::CircleDetector>>("det" + str(v.guess), [&] { return std::make_shared<const cv::Ptr<ri::CircleDetector>>(ri::CircleDetector::create(d.par)); });
    d.d = *k;
    return d;
  };
  auto detIn = [](Res& x, const Det& d) { x.put("i", d.image); };
  add<Det>(o, "detector", make<Det>(detMake, "abligcx"),
           [](const Det& d) {
             std::vector<cv::KeyPoint> k;
             d.d->detect(d.image, k);
             return k;
           },
           [](Res& x, const std::vector<cv::KeyPoint>& k) {
             for (auto& q : k)
             {
               x.put("x", q.pt.x);
               x.put("y", q.pt.y);
               x.put("s", q.size);
             }
           },
           detIn, false);
  add<Det>(o, "detector.draw", make<Det>(detMake, "alc"), [](const Det& d) { return d.d->drawDetectedCircles(d.image); }, [](Res& x, const cv::Mat& m) { x.put("m", m); }, detIn, false);
  add<ProjIn>(o, "reprojections", make<ProjIn>(proj, "abic"),
              [](const ProjIn& p) {
                auto r = ri::getReprojections(views(0.7, V3(0, 0, 0))[0], p.intr, { V3(0, 0, 0), V3(0.1, 0.1, 0) });
                cv::Mat m(240, 320, CV_8UC3, cv::Scalar(0));
                ri::drawReprojections(r, 3, cv::Scalar(0, 0, 255), m);
                return std::make_pair(r, m);
              },
              [](Res& x, const std::pair<std::vector<cv::Point2d>, cv::Mat>& r) {
                for (auto& q : r.first)
                  x.put("x", q.x + 3 * q.y);
                x.put("m", r.second);
              },
              projIn);
  // --- data sets
  add<SetIn>(o, "dataset.build", make<SetIn>(
                                     [](const Var& v) {
                                       SetIn s;
                                       s.finder = std::make_shared<FinderStub>();
                                       for (int c = 0; c < 2; ++c)
                                       {
                                         rr::ExtrinsicDataSet d;
                                         for (int i = 0; i < (v.size == 1 ? 2 : 3); ++i)
                                         {
                                           cv::Mat m(4, 6, CV_8UC1, cv::Scalar(10 + 50 * c + i + 7 * v.data));
                                           if ((c + i + v.data) % 2 == 0)
                                             m.at<uchar>(0, 0) = 0;
                                           if (v.last && c == 1 && i == 2)
                                             m.at<uchar>(0, 5) = 99;
                                           d.images.push_back(m);
                                           d.tool_poses.push_back(Iso::Identity());
                                         }
                                         s.sets.push_back(d);
                                       }
                                       if (v.size < 0)
                                         s.sets[1].images.pop_back();
                                       return s;
                                     },
                                     "ablcx"),
             [](const SetIn& s) { return rr::ExtrinsicCorrespondenceDataSet(s.sets, *s.finder, false); },
             [](Res& x, const rr::ExtrinsicCorrespondenceDataSet& d) {
               for (size_t c = 0; c < d.getCameraCount(); ++c)
               {
                 x.put("n", (double)d.getCameraImageCount(c));
                 for (size_t i = 0; i < d.getImageCount(); ++i)
                 {
                   x.put("f", d.foundCorrespondence(c, i));
                   if (d.foundCorrespondence(c, i))
                     x.put("s", d.getCorrespondenceSet(c, i));
                 }
               }
             },
             [](Res& x, const SetIn& s) {
               for (auto& d : s.sets)
                 for (auto& m : d.images)
                   x.put("m", m);
             });
  add<XmlIn>(o, "plugin", make<XmlIn>(
                              [](const Var& v) {
                                return XmlIn{ "{rows: " + str(v.size == 1 ? 3 : 4) + ", cols: " + (v.size < 0 ? "0" : "5") + ", spacing: " + (v.data ? "0.02" : "0.03") + (v.last ? ", circle_detector_params: {minThreshold: x}" : "") + "}" };
                              },
                              "ablcx"),
             [](const XmlIn& i) {
               auto p = pluginlib::registry<rr::TargetFinderPlugin>()["rct_ros_tools::ModifiedCircleGridTargetFinderPlugin"]();
               p->init(YAML::Load(i.text));
               Var v;
               auto f = p->findTargetFeatures(circleImage(v));
               ri::TargetFeatures g;
               int n = dynamic_cast<const ri::ModifiedCircleGridTarget&>(p->target()).rows * 5;
               for (int k = 0; k < n; ++k)
                 g[k] = { Eigen::Vector2d(k, k) };
               return std::make_pair(f, p->target().createCorrespondences(g));
             },
             [](Res& x, const std::pair<ri::TargetFeatures, Corr2::Set>& r) {
               x.put("f", r.first);
               x.put("c", r.second);
             },
             [](Res& x, const XmlIn& i) { x.put("t", i.text); });
  if (!full)
    return o;
  // --- files, parameters, printing
  add<rr::ExtrinsicDataSet>(o, "dataset.files", make<rr::ExtrinsicDataSet>(
                                                    [](const Var& v) {
                                                      rr::ExtrinsicDataSet d;
                                                      for (int i = 0; i < (v.size == 1 ? 1 : 2); ++i)
                                                      {
                                                        cv::Mat m(5, 6, CV_8UC1);
                                                        for (int k = 0; k < 30; ++k)
                                                          m.data[k] = k * 3 + i + 40 * v.data;
                                                        if (v.last && i)
                                                          m.data[29] = 0;
                                                        d.images.push_back(m);
                                                        d.tool_poses.push_back(rpyxyz(0.1 * i, 0.2, v.data, 1, 2, 3));
                                                      }
                                                      return d;
                                                    },
                                                    "ablc"),
                            [scratch](const rr::ExtrinsicDataSet& d) {
                              std::string dir = scratch + "/set" + std::to_string(getpid());
                              bool ok = rr::saveToDirectory(dir, d);
                              auto r = rr::parseFromFile(dir + "/data.yaml");
                              return std::make_pair(ok, r ? *r : rr::ExtrinsicDataSet());
                            },
                            [](Res& x, const std::pair<bool, rr::ExtrinsicDataSet>& r) {
                              x.put("ok", r.first);
                              for (auto& m : r.second.images)
                                x.put("m", m);
                              x.put("p", r.second.tool_poses);
                            },
                            [](Res& x, const rr::ExtrinsicDataSet& r) {
                              for (auto& m : r.images)
                                x.put("m", m);
                              x.put("p", r.tool_poses);
                            });
  struct ParIn
  {
    double f;
    bool complete;
  };
  add<ParIn>(o, "parameters", { { "a", [] { return ParIn{ 500, true }; } }, { "b", [] { return ParIn{ 600, true }; } }, { "refused", [] { return ParIn{ 600, false }; } } },
             [](const ParIn& p) {
               ros::NodeHandle nh;
               XmlRpc::XmlRpcValue v, w;
               v["fx"] = p.f, v["fy"] = p.f + 1, v["cx"] = 320.0;
               if (p.complete)
                 v["cy"] = 240.0;
               for (auto k : { "x", "y", "z", "qx", "qy", "qz" })
                 w[k] = 0.1;
               w["x"] = p.f;
               w["qw"] = 0.95;
               nh.setParam("intr", v);
               nh.setParam("pose", w);
               CameraIntrinsics k{};
               Iso t = Iso::Identity();
               bool a = rr::loadIntrinsics(nh, "intr", k), b = rr::loadPose(nh, "pose", t);
               return std::make_tuple(a, b, k, t);
             },
             [](Res& x, const std::tuple<bool, bool, CameraIntrinsics, Iso>& r) {
               x.put("a", std::get<0>(r));
               x.put("b", std::get<1>(r));
               if (std::get<0>(r))
                 x.put("k", std::get<2>(r));
               x.put("t", std::get<3>(r));
             },
             [](Res& x, const ParIn& p) { x.put("f", p.f); });
  add<PrintIn>(o, "print", make<PrintIn>(
                               [](const Var& v) {
                                 return PrintIn{ rpyxyz(0.1, 0.2 + v.data, 0.3, 1.23456789, 2e-7, 3), rpyxyz(0.2, 0.1, 0.3, 1, v.last ? 2.5 : 2, 3e9), v.size == 1 ? "T" : "Title" };
                               },
                               "ablc"),
               [](const PrintIn& p) {
                 std::stringstream s;
                 auto* old = std::cout.rdbuf(s.rdbuf());
                 rct_common::printTitle(p.title);
                 rct_common::printTransform(p.a, "a", "b", "pose");
                 rct_common::printTransformDiff(p.a, p.b, "a", "b", "diff");
                 rct_common::printOptResults(true, 4.0, 0.0625);
                 rct_common::printCameraIntrinsics({ 1.5, 2, 3, 1e-9 }, "k");
                 rct_common::printCameraDistortion({ 1.5, 2, 3, 1e-9, 7 }, "d");
                 rct_common::printNewLine();
                 std::cout << 1.23456789123 << ' ' << 255 << ' ' << true;
                 std::cout.rdbuf(old);
                 return s.str();
               },
               [](Res& x, const std::string& s) { x.put("out", s); },
               [](Res& x, const PrintIn& p) {
                 x.put("a", p.a);
                 x.put("b", p.b);
               });
  return o;
}
}  // namespace ops

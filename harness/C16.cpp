// LIBS: kin
// C16: kinematic (DH) calibration.
#include "scenes.h"
#include "solver.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/maximum_likelihood.h>

using namespace kit;
using Names = std::vector<std::string>;
using Masks = std::array<std::vector<int>, 8>;

namespace rct_optimizations  // defined (not inline) in local_parameterization.h, linked from the library
{
void addSubsetParameterization(ceres::Problem& problem, const std::map<const double*, std::vector<int>>& param_masks);
}

struct Link
{
  bool rev;
  double d, th, r, al, q0, amp;
};
struct Chain
{
  std::vector<Link> l;
  Iso base = Iso::Identity();
  std::string tag;
  int n() const { return l.size(); }
};
static Chain abb()
{
  return { { { true, 0.615, 0, 0.1, -PI / 2, 0.0, 0.5 }, { true, 0, -PI / 2, 0.705, 0, 0.2, 0.3 }, { true, 0, 0, 0.135, -PI / 2, -0.1, 0.35 },
             { true, 0.755, 0, 0, PI / 2, 0.3, 0.8 }, { true, 0, 0, 0, -PI / 2, 0.6, 0.5 }, { true, 0.085, PI, 0, 0, 0.0, 1.2 } },
           Iso::Identity(), "cam" };
}
static Chain scara()
{
  return { { { true, 0.3, 0.2, 0.4, 0.7, 0.1, 0.6 }, { true, 0.05, -0.4, 0.35, 1.1, -0.3, 0.6 }, { false, 0.2, 0.5, 0.1, -0.8, 0.1, 0.08 } },
           rpyxyz(0.1, 0.3, -0.5, 0.2, 0.0, 0.4), "arm" };
}
static Chain pan(const std::string& tag)
{
  return { { { true, 0.2, 0.3, 0.1, PI / 2, 0.2, 0.5 }, { true, 0.1, -0.7, 0.25, -0.9, -0.3, 0.5 } }, rpyxyz(0, 0.2, 0.1, 0.1, 0.2, 0.3), tag };
}
static Chain slide(const std::string& tag)
{
  return { { { false, 0.3, 0.4, 0.1, 0.6, 0.05, 0.12 } }, Iso::Identity(), tag };
}
static Chain fixedChain(const std::string& tag) { return { {}, rpyxyz(0.3, 0.2, -0.1, 0.1, 0.1, 0.5), tag }; }

static Iso fk(const Chain& c, const VX& q, const double* off /* column major n x 4 */)
{
  Iso T = c.base;
  const int n = c.n();
  for (int i = 0; i < n; ++i)
  {
    double d = c.l[i].d + off[i], th = c.l[i].th + off[n + i], r = c.l[i].r + off[2 * n + i], al = c.l[i].al + off[3 * n + i];
    (c.l[i].rev ? th : d) += q[i];
    double ct = std::cos(th), st = std::sin(th), ca = std::cos(al), sa = std::sin(al);
    Iso L = Iso::Identity();
    L.linear() << ct, -st * ca, st * sa, st, ct * ca, -ct * sa, 0, sa, ca;
    L.translation() << r * ct, r * st, d;
    T = make(T.linear() * L.linear(), xf(T, L.translation()));
  }
  return T;
}
static Iso aaIso(const double* t, const double* a)
{
  V3 v(a[0], a[1], a[2]);
  double n = v.norm();
  return make(n > 0 ? rot(v, n) : Eigen::Matrix3d::Identity(), V3(t[0], t[1], t[2]));
}
static Iso mul(const Iso& a, const Iso& b) { return make(a.linear() * b.linear(), xf(a, b.translation())); }

/** a system: chains, truth parameters x (block order of the calibration), observations */
struct Sys
{
  Chain cc, tc;
  VX x;  // 4*nc + 4*nt + 18
  std::vector<VX> qc, qt;
  std::vector<V3> pts;
  CameraIntrinsics K;

  int off(int block) const
  {
    int a = 4 * cc.n(), b = 4 * tc.n();
    return block == 0 ? 0 : block == 1 ? a : a + b + 3 * (block - 2);
  }
  int size(int block) const { return block == 0 ? 4 * cc.n() : block == 1 ? 4 * tc.n() : 3; }
  int total() const { return off(7) + 3; }
  Iso frame(const VX& v, int k) const { return aaIso(v.data() + off(2 + 2 * k), v.data() + off(3 + 2 * k)); }
  Iso camToTarget(const VX& v, int i) const
  {
    Iso cam = mul(fk(cc, qc[i], v.data() + off(0)), frame(v, 0));
    Iso tgt = mul(mul(frame(v, 2), fk(tc, qt[i], v.data() + off(1))), frame(v, 1));
    return mul(inv(cam), tgt);
  }
};

static Sys makeSys(Chain cc, Chain tc, int nobs, int variant, double offsets)
{
  Sys s;
  s.cc = cc;
  s.tc = tc;
  s.pts = grid(3, 4, 0.06, -0.09, -0.06);
  s.pts[5][2] = 0.02;
  s.pts[10][2] = -0.03;
  s.K = intrinsics()[variant % 3];
  s.x = VX::Zero(s.total());
  for (int k = 0; k < 4 * cc.n() + 4 * tc.n(); ++k)
    s.x[k] = offsets * ((k % 3) - 1 + 0.3 * std::sin(k * 1.3));
  const double fr[2][2][6] = { { { 0.05, -0.03, 0.08, 0.3, -0.5, 0.4 }, { -0.04, 0.06, 0.12, -0.6, 0.2, 1.1 } },
                               { { -0.1, 0.04, 0.02, -1.9, 0.7, 0.6 }, { 0.07, 0.05, -0.03, 0.02, -0.03, 0.05 } } };
  for (int k = 0; k < 2; ++k)
    for (int j = 0; j < 6; ++j)
      s.x[s.off(2 + 2 * k) + j] = fr[variant % 2][k][j];
  auto joints = [](const Chain& c, int i, int salt) {
    VX q(c.n());
    for (int j = 0; j < c.n(); ++j)
      q[j] = c.l[j].q0 + (i < 0 ? 0.0 : c.l[j].amp * std::sin(1.0 + i * (1.7 + 0.61 * j) + 2.1 * j + salt));
    return q;
  };
  // the base-to-base transform puts the target in front of the camera in the nominal pose
  s.qc = { joints(cc, -1, 0) };
  s.qt = { joints(tc, -1, 3) };
  Iso view = rpyxyz(PI - 0.25, 0.2, 0.4, -0.02, 0.03, 1.1);
  Iso cam = mul(fk(cc, s.qc[0], s.x.data()), s.frame(s.x, 0));
  Iso bb = mul(mul(cam, view), inv(mul(fk(tc, s.qt[0], s.x.data() + s.off(1)), s.frame(s.x, 1))));
  Eigen::AngleAxisd a(bb.linear());
  for (int j = 0; j < 3; ++j)
  {
    s.x[s.off(6) + j] = bb.translation()[j];
    s.x[s.off(7) + j] = a.angle() * a.axis()[j];
  }
  s.qc.clear();
  s.qt.clear();
  for (int i = 0, made = 0; made < nobs && i < 40 * nobs; ++i)
  {
    s.qc.push_back(joints(cc, i, 0));
    s.qt.push_back(joints(tc, i, 3));
    Iso ct = s.camToTarget(s.x, s.qc.size() - 1);
    bool ok = true;
    for (auto& p : s.pts)
    {
      V3 v = xf(ct, p);
      ok = ok && v[2] > 0.25 && v.head<2>().norm() < 1.5 * v[2];
    }
    // shrink the motion until the target is seen
    for (double f = 0.5; !ok && f > 0.05; f *= 0.5)
    {
      ok = true;
      s.qc.back() = joints(cc, -1, 0) + f * (joints(cc, i, 0) - joints(cc, -1, 0));
      s.qt.back() = joints(tc, -1, 3) + f * (joints(tc, i, 3) - joints(tc, -1, 3));
      ct = s.camToTarget(s.x, s.qc.size() - 1);
      for (auto& p : s.pts)
      {
        V3 v = xf(ct, p);
        ok = ok && v[2] > 0.25 && v.head<2>().norm() < 1.5 * v[2];
      }
    }
    if (ok)
      ++made;
    else
    {
      s.qc.pop_back();
      s.qt.pop_back();
    }
  }
  return s;
}

static ro::DHChain lib(const Chain& c)
{
  std::vector<ro::DHTransform> t;
  for (int i = 0; i < c.n(); ++i)
    t.emplace_back(Eigen::Vector4d(c.l[i].d, c.l[i].th, c.l[i].r, c.l[i].al), c.l[i].rev ? ro::DHJointType::REVOLUTE : ro::DHJointType::LINEAR,
                   c.tag + "_j" + str(i));
  return ro::DHChain(t, c.base);
}

enum Kind
{
  FEATURE,
  POSE
};
constexpr double WEIGHT = 10.0;

/** reference residuals of measurement data taken at truth s.x, evaluated at v; smooth: full rotation vector instead of its norm */
static VX residuals(const Sys& s, const VX& v, Kind kind, bool smooth)
{
  std::vector<double> r;
  for (size_t i = 0; i < s.qc.size(); ++i)
  {
    Iso m = s.camToTarget(s.x, i), e = s.camToTarget(v, i);
    if (kind == FEATURE)
      for (auto& p : s.pts)
      {
        V2 d = project(s.K, xf(e, p)) - project(s.K, xf(m, p));
        r.push_back(d[0]);
        r.push_back(d[1]);
      }
    else
    {
      Iso d = mul(m, inv(e));
      for (int k = 0; k < 3; ++k)
        r.push_back(d.translation()[k]);
      Eigen::AngleAxisd a(d.linear());
      if (smooth)
        for (int k = 0; k < 3; ++k)
          r.push_back(WEIGHT * a.angle() * a.axis()[k]);
      else
        r.push_back(WEIGHT * a.angle());
    }
  }
  return Eigen::Map<VX>(r.data(), r.size());
}

struct Setup
{
  Masks mask;           // as handed over (any order, may hold duplicates)
  double stdev_c = 1e6, stdev_t = 1e6;
  int guess = 1;
  int salt = 0;
};
static std::vector<int> all(int n)
{
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i)
    v[i] = i;
  return v;
}
static bool masked(const Setup& u, int b, int k) { return std::find(u.mask[b].begin(), u.mask[b].end(), k) != u.mask[b].end(); }

template <class P>
static void fill(P& p, const Sys& s, const Setup& u, const VX& g)
{
  p.camera_mount_to_camera_guess = s.frame(g, 0);
  p.target_mount_to_target_guess = s.frame(g, 1);
  p.camera_base_to_target_base_guess = s.frame(g, 2);
  p.mask = u.mask;
  p.camera_chain_offset_stdev = u.stdev_c;
  p.target_chain_offset_stdev = u.stdev_t;
  p.label_camera_mount_to_camera = "cm2c";
  p.label_target_mount_to_target = "tm2t";
  p.label_camera_base_to_target = "cb2tb";
}
static ro::KinematicCalibrationResult solve(const Sys& s, const Setup& u, const VX& g, Kind kind)
{
  if (kind == FEATURE)
  {
    ro::KinematicCalibrationProblem2D3D p(lib(s.cc), lib(s.tc));
    p.intr = s.K;
    fill(p, s, u, g);
    for (size_t i = 0; i < s.qc.size(); ++i)
    {
      ro::KinObservation2D3D o;
      o.camera_chain_joints = s.qc[i];
      o.target_chain_joints = s.qt[i];
      for (auto& t : s.pts)
        o.correspondence_set.emplace_back(project(s.K, xf(s.camToTarget(s.x, i), t)), t);
      p.observations.push_back(o);
    }
    return ro::optimize(p);
  }
  ro::KinematicCalibrationProblemPose6D p(lib(s.cc), lib(s.tc));
  fill(p, s, u, g);
  for (size_t i = 0; i < s.qc.size(); ++i)
  {
    ro::KinematicMeasurement m;
    m.camera_chain_joints = s.qc[i];
    m.target_chain_joints = s.qt[i];
    m.camera_to_target = s.camToTarget(s.x, i);
    p.observations.push_back(m);
  }
  ceres::Solver::Options o;
  o.max_num_iterations = 500;
  o.function_tolerance = 1e-14;
  o.gradient_tolerance = 1e-14;
  o.parameter_tolerance = 1e-14;
  o.logging_type = ceres::SILENT;
  return ro::optimize(p, WEIGHT, o);
}

/** runs one problem; returns false if the masks leave it undetermined (nothing claimed then) */
static bool run(vf::Ctx& c, Sys s, const Setup& u, Kind kind, const std::string& w)
{
  const int nc = s.cc.n(), nt = s.tc.n();
  // what is masked in the chains keeps its nominal value; with a tight prior the true offsets are zero
  for (int b = 0; b < 2; ++b)
    for (int k = 0; k < s.size(b); ++k)
      if (masked(u, b, k) || (b ? u.stdev_t : u.stdev_c) < 1.0)
        s.x[s.off(b) + k] = 0.0;
  std::vector<int> freeIdx;
  Names names;
  const char* dh[] = { "_d", "_theta", "_r", "_alpha" };
  const char* fr[] = { "cm2c", "tm2t", "cb2tb" };
  const char* ax[2][3] = { { "_x", "_y", "_z" }, { "_rx", "_ry", "_rz" } };
  for (int b = 0; b < 8; ++b)
    for (int k = 0; k < s.size(b); ++k)
      if (!masked(u, b, k))
      {
        freeIdx.push_back(s.off(b) + k);
        if (b < 2)
        {
          const Chain& ch = b ? s.tc : s.cc;
          names.push_back(ch.tag + "_j" + str(k % ch.n()) + dh[k / ch.n()]);
        }
        else
          names.push_back(std::string(fr[(b - 2) / 2]) + ax[b % 2][k]);
      }
  auto full = [&](const VX& f) {
    VX v = s.x;
    for (size_t k = 0; k < freeIdx.size(); ++k)
      v[freeIdx[k]] = f[k];
    return v;
  };
  // prior: only for chains with joints of which at least one parameter is free
  bool pc = nc && !u.mask[0].empty() ? (int)std::set<int>(u.mask[0].begin(), u.mask[0].end()).size() < 4 * nc : nc > 0;
  bool pt = nt && !u.mask[1].empty() ? (int)std::set<int>(u.mask[1].begin(), u.mask[1].end()).size() < 4 * nt : nt > 0;
  auto res = [&](const VX& v, bool smooth) {
    VX r = residuals(s, v, kind, smooth);
    int n0 = r.size();
    r.conservativeResize(n0 + (pc ? 4 * nc : 0) + (pt ? 4 * nt : 0));
    int k = n0;
    if (pc)
      for (int i = 0; i < 4 * nc; ++i)
        r[k++] = v[i] / u.stdev_c;
    if (pt)
      for (int i = 0; i < 4 * nt; ++i)
        r[k++] = v[s.off(1) + i] / u.stdev_t;
    return r;
  };
  VX f0(freeIdx.size());
  for (size_t k = 0; k < freeIdx.size(); ++k)
    f0[k] = s.x[freeIdx[k]];
  double ratio = 1;
  MX J;
  if (!freeIdx.empty())
  {
    J = jacobian([&](const VX& f) { return res(full(f), true); }, f0);
    MX Jn = J;
    for (int k = 0; k < Jn.cols(); ++k)
    {
      double n = Jn.col(k).norm();
      if (n < 1e-6)
        return false;
      Jn.col(k) /= n;
    }
    if (Jn.cols() > Jn.rows())
      return false;
    VX sv = Eigen::JacobiSVD<MX>(Jn).singularValues();
    ratio = sv[sv.size() - 1] / sv[0];
    if (ratio < 1e-4)
      return false;
  }
  // guess: chains start at their nominal values, free frame parameters are displaced
  VX g = s.x;
  const double dt[] = { 0.0, 0.012, -0.02, 0.03 }, da[] = { 0.0, 0.02, -0.03, 0.05 };
  for (int b = 0; b < 8; ++b)
    for (int k = 0; k < s.size(b); ++k)
      if (b < 2)
        g[s.off(b) + k] = 0;
      else if (!masked(u, b, k))
        g[s.off(b) + k] += ((b + k + u.salt) % 3 ? 1 : -0.7) * (b % 2 ? da[u.guess] : dt[u.guess]);
  solved = false;
  auto r = solve(s, u, g, kind);
  if (solved)
    c.require(r.converged == (ended == ceres::CONVERGENCE), w, ": reported as ", r.converged ? "" : "not ", "converged, the solver ended with ",
              ceres::TerminationTypeToString(ended));
  if (limit < 0)
    c.require(r.converged, w, ": did not converge");
  c.require(r.camera_chain_dh_offsets.rows() == nc && r.target_chain_dh_offsets.rows() == nt, w, ": offsets have ",
            r.camera_chain_dh_offsets.rows(), " and ", r.target_chain_dh_offsets.rows(), " rows, the chains have ", nc, " and ", nt, " joints");
  requireCost(c, r.initial_cost_per_obs, res(g, true), w + ": initial cost", 1e-12);
  if (limit < 0)
    c.require(r.final_cost_per_obs >= 0 && r.final_cost_per_obs <= 1e-10, w, ": final cost ", r.final_cost_per_obs);
  // parameters
  const double tol = 1e-6;
  VX got = s.x;
  for (int k = 0; k < 4 * nc; ++k)
    got[k] = r.camera_chain_dh_offsets(k % nc, k / nc);
  for (int k = 0; k < 4 * nt; ++k)
    got[s.off(1) + k] = r.target_chain_dh_offsets(k % nt, k / nt);
  const Iso* fs[] = { &r.camera_mount_to_camera, &r.target_mount_to_target, &r.camera_base_to_target_base };
  for (int k = 0; k < 3; ++k)
  {
    requireRigid(c, *fs[k], 1e-9, w + ": " + fr[k]);
    Eigen::AngleAxisd a(fs[k]->linear());
    for (int j = 0; j < 3; ++j)
    {
      got[s.off(2 + 2 * k) + j] = fs[k]->translation()[j];
      got[s.off(3 + 2 * k) + j] = a.angle() * a.axis()[j];
    }
  }
  for (int b = 0; b < 8; ++b)
    for (int k = 0; k < s.size(b); ++k)
    {
      int i = s.off(b) + k;
      if (masked(u, b, k))
        c.near(got[i], s.x[i], b >= 2 && b % 2 ? 1e-9 : 0.0, w, ": parameter ", k, " of block ", b, " was held fixed");
      else if (limit < 0)
        c.near(got[i], s.x[i], tol, w, ": parameter ", k, " of block ", b);
    }
  if (limit >= 0)
  {
    requireCost(c, r.final_cost_per_obs, res(got, true), w + ": final cost", 1e-12);
    c.require(r.final_cost_per_obs <= r.initial_cost_per_obs * (1 + 1e-12), w, ": final cost ", r.final_cost_per_obs, " exceeds initial cost ",
              r.initial_cost_per_obs);
    if (!r.converged)
    {
      c.eval(w + c.case_id);
      return true;
    }
  }
  // report
  c.require(r.covariance.standard_deviations.size() == names.size(), w, ": ", r.covariance.standard_deviations.size(),
            " standard deviations for ", names.size(), " free parameters");
  // blocks are reported in no particular order, the labels say which is which
  std::vector<int> at(names.size(), -1);
  for (size_t k = 0; k < names.size(); ++k)
  {
    auto it = std::find(names.begin(), names.end(), r.covariance.standard_deviations[k].names.first);
    c.require(it != names.end() && at[it - names.begin()] < 0, w, ": standard deviation ", k, " is labelled '",
              r.covariance.standard_deviations[k].names.first, "'");
    at[it - names.begin()] = k;
  }
  if (ratio > 3e-3 && !names.empty())
  {
    MX C = (J.transpose() * J).inverse();
    for (size_t a = 0; a < names.size(); ++a)
      for (size_t b = 0; b < names.size(); ++b)
        c.near(r.covariance.covariance_matrix(at[a], at[b]), C(a, b), 2e-3 * std::sqrt(C(a, a) * C(b, b)), w, ": covariance of ", names[a],
               " and ", names[b]);
  }
  uint64_t h = vf::hashStr(w + c.case_id);
  for (int i = 0; i < got.size(); ++i)
    h = vf::mix(h, (uint64_t)(int64_t)std::llround(got[i] * 1e4));
  c.eval(h);
  return true;
}

struct Pair
{
  const char* name;
  Chain cc, tc;
  int nobs;
};
static std::vector<Pair> pairs()
{
  return { { "arm6-fixed", abb(), fixedChain("fix"), 24 }, { "arm6-pan2", abb(), pan("pos"), 24 },     { "fixed-pan2", fixedChain("fix"), pan("pos"), 14 },
           { "arm3-slide1", scara(), slide("sl"), 18 },    { "pan2-arm3", pan("head"), scara(), 18 }, { "slide1-pan2", slide("sl"), pan("pos"), 18 }, { "fixed-fixed", fixedChain("fa"), fixedChain("fb"), 2 } };
}
static Masks constant(const Sys& s, bool dh = true)
{
  Masks m;
  for (int b = 0; b < 8; ++b)
    if (b >= 2 || dh)
      m[b] = all(s.size(b));
  return m;
}

void vf::define(vf::Suite& s_)
{
  vf::Suite& s = s_;
  s.property = "C16";
  s.rule = "For every chain pair (6+0, 6+2, 0+2, 3+1, 2+3, 1+2, 0+0 joints, revolute and linear, with base offsets), measurement kind and system "
           "variant: (frames) all 64 combinations of free/fixed frame blocks with the chains fixed; (parts) every one of the 8 masks of every "
           "frame block with the rest fixed, with permuted and repeated mask indices; (links) every single DH entry, every row, every column, every "
           "pair of entries of small chains, with and without the frame blocks that stay determined, with a wide prior and with the default prior. "
           "(stopped) the solver stopped after every number of iterations from 0 to 7 (19 thorough): costs, fixed values and the convergence flag. "
           "Undetermined combinations (reference Jacobian) are skipped. Each result is compared with the truth, the masked values, the "
           "reference costs, labels and the inverse normal matrix. (mask) all boolean DH masks up to 3x4. (prior) all shapes x means x spreads. "
           "(refuse) every wrong joint count, mask index and prior shape.";
  s.assumptions = { "the solver's current parameterization interface stands in for the one the code names (shim/ceres/local_parameterization.h)",
                    "double precision tolerances" };
  s.case_timeout = 300;
  auto ps = pairs();
  for (size_t pi = 0; pi < ps.size(); ++pi)
    for (Kind kind : { FEATURE, POSE })
      for (int variant = 0; variant < (s.thorough ? 2 : 1); ++variant)
      {
        const std::string base = std::string(ps[pi].name) + (kind == FEATURE ? "/feature" : "/pose") + "/v" + str(variant);
        Pair P = ps[pi];
        const bool thorough = s.thorough;
        // A: frame blocks
        for (int part = 0; part < 8; ++part)
          s.add("frames/" + base + "/" + str(part), [=](vf::Ctx& c) {
            Sys sys = makeSys(P.cc, P.tc, P.nobs, variant + kind, 0.0);
            int done = 0;
            for (int m = part; m < 64; m += 8)
              for (int guess : thorough ? std::vector<int>{ 0, 1, 2, 3 } : std::vector<int>{ 1 + m % 3 })
              {
                Setup u;
                u.mask = constant(sys);
                for (int b = 0; b < 6; ++b)
                  if (m >> b & 1)
                    u.mask[2 + b].clear();
                u.guess = guess;
                u.salt = m;
                done += run(c, sys, u, kind, "free blocks " + str(m) + " guess " + str(guess));
              }
            c.outcome(done ? "determined" : "nothing determined");
          });
        // many measurements
        if (pi >= 2)
          for (int n : { 65, 130 })
            s.add("large/" + base + "/" + str(n), [=](vf::Ctx& c) {
              Sys sys = makeSys(P.cc, P.tc, n, variant + kind, 0.0);
              int done = 0;
              for (int m : { 1, 2, 4, 8, 16, 32, 5, 48 })
              {
                Setup u;
                u.mask = constant(sys);
                for (int b = 0; b < 6; ++b)
                  if (m >> b & 1)
                    u.mask[2 + b].clear();
                u.guess = 1 + m % 3;
                u.salt = m;
                done += run(c, sys, u, kind, "free blocks " + str(m));
              }
              c.outcome(done ? "determined" : "nothing determined");
            });
        // B: parts of one block
        for (int b = 2; b < 8; ++b)
          s.add("parts/" + base + "/" + str(b), [=](vf::Ctx& c) {
            Sys sys = makeSys(P.cc, P.tc, std::min(P.nobs, 8), variant + kind, 0.0);
            for (int m = 0; m < 7; ++m)
              for (int dup = 0; dup < 2; ++dup)
              {
                Setup u;
                u.mask = constant(sys);
                u.mask[b].clear();
                for (int k = 2; k >= 0; --k)
                  if (m >> k & 1)
                  {
                    u.mask[b].push_back(k);
                    if (dup)
                      u.mask[b].insert(u.mask[b].begin(), k);
                  }
                u.guess = 1 + m % 3;
                c.require(run(c, sys, u, kind, "mask " + str(m) + (dup ? " repeated" : "")), "one frame block is always determined");
              }
          });
        // C: single links
        for (int ch = 0; ch < 2; ++ch)
        {
          const int n = ch ? P.tc.n() : P.cc.n();
          if (!n)
            continue;
          for (int e = 0; e < 4 * n + n + 4; ++e)
            s.add("links/" + base + "/" + str(ch) + "/" + str(e), [=](vf::Ctx& c) {
              Sys sys = makeSys(P.cc, P.tc, std::min(P.nobs, 14), variant + kind, kind == FEATURE ? 2e-3 : 4e-3);
              std::vector<std::vector<int>> sets;
              if (e < 4 * n)
              {
                sets.push_back({ e });
                if (n <= 2 || thorough)
                  for (int f = e + 1; f < 4 * n; ++f)
                    sets.push_back({ e, f });
              }
              else if (e < 5 * n)
              {
                sets.push_back({});
                for (int k = 0; k < 4; ++k)
                  sets.back().push_back(k * n + e - 4 * n);
              }
              else
              {
                sets.push_back({});
                for (int k = 0; k < n; ++k)
                  sets.back().push_back((e - 5 * n) * n + k);
              }
              for (auto& f : sets)
                for (int prior = 0; prior < 2; ++prior)
                  for (int fb : thorough ? std::vector<int>{ 0, 3, 12, 48 } : std::vector<int>{ 0, 3 << (2 * (e % 3)) })
                  {
                    Setup u;
                    u.mask = constant(sys);
                    for (int k : f)
                      u.mask[ch].erase(std::find(u.mask[ch].begin(), u.mask[ch].end(), k));
                    for (int b = 0; b < 6; ++b)
                      if (fb >> b & 1)
                        u.mask[2 + b].clear();
                    if (prior)
                      u.stdev_c = u.stdev_t = 1e-3;
                    std::string w = "free entries";
                    for (int k : f)
                      w += " " + str(k);
                    run(c, sys, u, kind, w + " free frame blocks " + str(fb) + (prior ? " default prior" : ""));
                  }
            });
        }
        // D: everything in the chains free, default prior (zero true offsets), different spreads
        for (int fb : { 0, 3, 12, 48, 15, 60, 51 })
          s.add("prior-all/" + base + "/" + str(fb), [=](vf::Ctx& c) {
            if (P.cc.n() + P.tc.n() == 0)
              return;
            Sys sys = makeSys(P.cc, P.tc, P.nobs, variant + kind, 0.0);
            for (int which = 1; which < 4; ++which)
            {
              Setup u;
              u.mask = constant(sys);
              if (which & 1)
                u.mask[0].clear();
              if (which & 2)
                u.mask[1].clear();
              if (!P.cc.n())
                u.mask[0].clear();
              for (int b = 0; b < 6; ++b)
                if (fb >> b & 1)
                  u.mask[2 + b].clear();
              u.stdev_c = 1e-3;
              u.stdev_t = 3e-3;
              run(c, sys, u, kind, "free chains " + str(which) + " free frame blocks " + str(fb));
            }
          });
        // the solver stopped after every number of iterations
        for (int n = 0; n < (thorough ? 20 : 8); ++n)
          s.add("stopped/" + base + "/" + str(n), [=](vf::Ctx& c) {
            Limit l(n);
            for (int fb : { 0, 12, 15, 60 })
              for (int which = 0; which < 4; ++which)
              {
                Sys sys = makeSys(P.cc, P.tc, P.nobs, variant + kind, 0.0);
                Setup u;
                u.mask = constant(sys);
                if (which & 1 && P.cc.n())
                  u.mask[0].clear();
                if (which & 2 && P.tc.n())
                  u.mask[1].clear();
                for (int b = 0; b < 6; ++b)
                  if (fb >> b & 1)
                    u.mask[2 + b].clear();
                u.stdev_c = u.stdev_t = 1e-3;
                u.guess = 3;
                u.salt = fb;
                run(c, sys, u, kind, "free chains " + str(which) + " free frame blocks " + str(fb));
              }
          });
        // E: a frame whose guess has no rotation at all
        for (int k = 0; k < 3; ++k)
          s.add("unrotated/" + base + "/" + str(k), [=](vf::Ctx& c) {
            for (int ax = 0; ax < 12; ++ax)
            {
              // 0-3: the guess has no rotation, 4-7: the frame itself turns by very little, 8-11: the same, and nothing is estimated
              const int what = ax / 4;
              Sys sys = makeSys(P.cc, P.tc, std::min(P.nobs, 8), variant + kind, 0.0);
              Setup u;
              u.mask = constant(sys);
              if (what < 2)
              {
                u.mask[2 + 2 * k].clear();
                u.mask[3 + 2 * k].clear();
              }
              // the truth turns by a little, the guess not at all: guess pattern 1 displaces by +-0.02, -0.014
              double* a = sys.x.data() + sys.off(3 + 2 * k);
              for (int j = 0; j < 3; ++j)
                a[j] = -((3 + 2 * k + j) % 3 ? 1 : -0.7) * (what == 0 ? 0.02 : ax % 2 ? 2e-4 : 3e-6 * (1 + ax % 4));
              u.guess = 1;
              u.salt = 0;
              // positions only matter through the camera; make sure the target is still seen, otherwise move the base
              Iso view = rpyxyz(PI - 0.25, 0.2 + 0.05 * (ax % 4), 0.4, -0.02, 0.03, 1.1);
              if (k != 2)
              {
                Iso cam = mul(fk(sys.cc, sys.qc[0], sys.x.data()), sys.frame(sys.x, 0));
                Iso bb = mul(mul(cam, view), inv(mul(fk(sys.tc, sys.qt[0], sys.x.data() + sys.off(1)), sys.frame(sys.x, 1))));
                Eigen::AngleAxisd q(bb.linear());
                for (int j = 0; j < 3; ++j)
                {
                  sys.x[sys.off(6) + j] = bb.translation()[j];
                  sys.x[sys.off(7) + j] = q.angle() * q.axis()[j];
                }
              }
              else
              {
                // base-to-base fixed by the case: rearrange the target mount instead
                Iso cam = mul(fk(sys.cc, sys.qc[0], sys.x.data()), sys.frame(sys.x, 0));
                Iso tm = mul(inv(mul(sys.frame(sys.x, 2), fk(sys.tc, sys.qt[0], sys.x.data() + sys.off(1)))), mul(cam, view));
                Eigen::AngleAxisd q(tm.linear());
                for (int j = 0; j < 3; ++j)
                {
                  sys.x[sys.off(4) + j] = tm.translation()[j];
                  sys.x[sys.off(5) + j] = q.angle() * q.axis()[j];
                }
              }
              sys.qc.resize(4, sys.qc[0]);
              sys.qt.resize(4, sys.qt[0]);
              for (int i = 1; i < 4; ++i)
              {
                sys.qc[i] = sys.qc[0].array() + 0.03 * i;
                sys.qt[i] = sys.qt[0].array() - 0.02 * i;
              }
              bool judged = run(c, sys, u, kind, "axis " + str(ax));
              c.require(judged || what == 2, "one frame is always determined");
            }
          });
      }

  // F: boolean masks
  for (int rows = 0; rows <= 3; ++rows)
    s.add("mask/" + str(rows), [=](vf::Ctx& c) {
      for (int m = 0; m < (1 << (4 * rows)); ++m)
      {
        Eigen::Array<bool, Eigen::Dynamic, 4> a(rows, 4);
        std::set<int> want;
        Eigen::MatrixX4d marks = Eigen::MatrixX4d::Zero(rows, 4);
        for (int k = 0; k < 4 * rows; ++k)
        {
          int r = k / 4, col = k % 4;
          a(r, col) = m >> k & 1;
          if (a(r, col))
          {
            marks(r, col) = 1;
            want.insert(col * rows + r);
          }
        }
        auto v = ro::createDHMask(a);
        c.require(v.size() == want.size() && std::set<int>(v.begin(), v.end()) == want, "mask ", m, " of ", rows, " rows gives the wrong indices");
        for (int k = 0; k < 4 * rows; ++k)
          c.require((marks.data()[k] == 1) == (want.count(k) == 1), "layout");
        c.eval(vf::mix(rows, m));
      }
    });

  // G: prior residual on its own
  for (int rows = 1; rows <= 3; ++rows)
    for (int cols = 1; cols <= 4; ++cols)
      s.add("prior/" + str(rows) + "x" + str(cols), [=](vf::Ctx& c) {
        for (int km = 0; km < 4; ++km)
          for (int ks = 0; ks < 4; ++ks)
            for (int kx = 0; kx < 3; ++kx)
            {
              Eigen::ArrayXXd mean(rows, cols), sd(rows, cols), x(rows, cols), x0;
              for (int r = 0; r < rows; ++r)
                for (int k = 0; k < cols; ++k)
                {
                  mean(r, k) = km == 0 ? 0.0 : km == 1 ? 1.5 : km == 2 ? r - 2.0 * k : 1e-3 * (r * 5 + k);
                  sd(r, k) = ks == 0 ? 1e-3 : ks == 1 ? 2.0 : ks == 2 ? 0.1 * (1 + r + 3 * k) : (r + k) % 2 ? 1e-2 : 4.0;
                  x(r, k) = kx == 0 ? mean(r, k) : kx == 1 ? 3.0 - r + k : -0.01 * (r + k);
                }
              x0 = x;
              std::string w = "mean " + str(km) + " spread " + str(ks) + " start " + str(kx);
              auto* ml = new ro::MaximumLikelihood(mean, sd);
              Eigen::ArrayXXd res(rows, cols);
              std::vector<double*> par{ x.data() };
              c.require((*ml)(par.data(), res.data()), w, ": evaluation failed");
              for (int r = 0; r < rows; ++r)
                for (int k = 0; k < cols; ++k)
                  c.near(res(r, k), (x(r, k) - mean(r, k)) / sd(r, k), 1e-9 * (1 + std::fabs(res(r, k))), w, ": residual");
              ceres::Problem pr;
              auto* cb = new ceres::DynamicAutoDiffCostFunction<ro::MaximumLikelihood>(ml);
              cb->AddParameterBlock(rows * cols);
              cb->SetNumResiduals(rows * cols);
              pr.AddResidualBlock(cb, nullptr, x.data());
              ceres::Solver::Options o;
              o.logging_type = ceres::SILENT;
              ceres::Solver::Summary sum;
              ceres::Solve(o, &pr, &sum);
              c.require(sum.termination_type == ceres::CONVERGENCE, w, ": did not converge");
              ceres::Covariance cov{ ceres::Covariance::Options() };
              c.require(cov.Compute(std::vector<const double*>{ x.data() }, &pr), w, ": no covariance");
              MX C(rows * cols, rows * cols);
              cov.GetCovarianceBlock(x.data(), x.data(), C.data());
              for (int r = 0; r < rows; ++r)
                for (int k = 0; k < cols; ++k)
                {
                  c.near(x(r, k), mean(r, k), 1e-3 * sd(r, k), w, ": estimate");
                  int i = k * rows + r;
                  c.near(std::sqrt(C(i, i)), sd(r, k), 1e-6 * sd(r, k), w, ": spread");
                }
              c.eval(w + c.case_id);
            }
        for (int r2 = 0; r2 <= 4; ++r2)
          for (int c2 = 0; c2 <= 5; ++c2)
          {
            bool thrown = throws([&] { ro::MaximumLikelihood(Eigen::ArrayXXd::Zero(rows, cols), Eigen::ArrayXXd::Ones(r2, c2)); });
            c.require(thrown == (r2 != rows || c2 != cols), "means ", rows, "x", cols, " with spreads ", r2, "x", c2, thrown ? " refused" : " accepted");
            c.eval(c.case_id + str(r2) + "/" + str(c2));
          }
      });

  // H: refusals
  for (size_t pi = 0; pi < ps.size(); ++pi)
    for (Kind kind : { FEATURE, POSE })
      s.add(std::string("refuse/") + ps[pi].name + (kind == FEATURE ? "/feature" : "/pose"), [=](vf::Ctx& c) {
        Pair P = ps[pi];
        auto attempt = [&](const Sys& sys, const Setup& u) {
          VX g = sys.x;
          std::string what;
          return throws([&] { solve(sys, u, g, kind); }, &what);
        };
        Sys sys = makeSys(P.cc, P.tc, 3, kind, 0.0);
        Setup ok;
        ok.mask = constant(sys);
        ok.mask[6].clear();
        c.require(!attempt(sys, ok), "a valid problem is refused");
        // joint values
        for (int i = 0; i < 3; ++i)
          for (int ch = 0; ch < 2; ++ch)
          {
            const int n = ch ? P.tc.n() : P.cc.n();
            for (int m = 0; m <= n + 2; ++m)
            {
              if (m == n)
                continue;
              // solve() computes the measurement from the joints, so hand the wrong vectors over directly
              auto direct = [&] {
                auto wrong = [&](VX v) {
                  VX q = VX::Constant(m, 0.1);
                  for (int k = 0; k < std::min<int>(m, v.size()); ++k)
                    q[k] = v[k];
                  return q;
                };
                if (kind == FEATURE)
                {
                  ro::KinematicCalibrationProblem2D3D p(lib(P.cc), lib(P.tc));
                  p.intr = sys.K;
                  fill(p, sys, ok, sys.x);
                  for (int o = 0; o < 3; ++o)
                  {
                    ro::KinObservation2D3D ob;
                    ob.camera_chain_joints = o == i && !ch ? wrong(sys.qc[o]) : sys.qc[o];
                    ob.target_chain_joints = o == i && ch ? wrong(sys.qt[o]) : sys.qt[o];
                    for (auto& t : sys.pts)
                      ob.correspondence_set.emplace_back(project(sys.K, xf(sys.camToTarget(sys.x, o), t)), t);
                    p.observations.push_back(ob);
                  }
                  ro::optimize(p);
                }
                else
                {
                  ro::KinematicCalibrationProblemPose6D p(lib(P.cc), lib(P.tc));
                  fill(p, sys, ok, sys.x);
                  for (int o = 0; o < 3; ++o)
                  {
                    ro::KinematicMeasurement me;
                    me.camera_chain_joints = o == i && !ch ? wrong(sys.qc[o]) : sys.qc[o];
                    me.target_chain_joints = o == i && ch ? wrong(sys.qt[o]) : sys.qt[o];
                    me.camera_to_target = sys.camToTarget(sys.x, o);
                    p.observations.push_back(me);
                  }
                  ro::optimize(p, WEIGHT);
                }
              };
              c.require(throws(direct), "observation ", i, " with ", m, " joint values for a chain of ", n, " was accepted");
              c.eval(c.case_id + str(i) + str(ch) + str(m));
            }
          }
        // mask indices
        for (int b = 0; b < 8; ++b)
          for (int bad : { -1, -7, sys.size(b), sys.size(b) + 1, 1000 })
          {
            if (b < 2 && sys.size(b) == 0 && bad >= 0 && bad < 4)
              continue;  // placeholder block of a chain without joints
            for (int pos = 0; pos < 2; ++pos)
            {
              Setup u = ok;
              u.mask[b].insert(pos ? u.mask[b].end() : u.mask[b].begin(), bad);
              c.require(attempt(sys, u), "mask index ", bad, " of block ", b, " was accepted");
              u.mask[b] = { bad };
              c.require(attempt(sys, u), "mask index ", bad, " alone in block ", b, " was accepted");
              c.eval(c.case_id + "mask" + str(b) + "/" + str(bad) + str(pos));
            }
          }
        // no observations at all
        Sys none = sys;
        none.qc.clear();
        none.qt.clear();
        c.require(attempt(none, ok), "no observations were accepted");
      });
}

// LIBS: opt
// C05: reported costs are the true costs and converged results are stationary points.
#include "scenes.h"
#include "solver.h"

using namespace kit;

static double jitter(int i, int salt) { return std::sin(12.9898 * i + 4.1 * salt + 0.5) + 0.5 * std::cos(3.7 * i * (salt + 1)); }

/** what a data set looks like: one displaced measurement (index, coordinate, size) or everything jittered */
struct Noise
{
  int index = -1;   // scalar measurement that is displaced; -1: all are jittered
  double size = 0;  // displacement / amplitude (in pixels; 3D: in 1/500 m)
  int salt = 0;
  bool twice = false;  // some measurements are listed more than once
  std::string str() const { return std::fabs(size) > 100 ? "gross" + std::to_string(index) : twice ? "twice" + std::to_string(salt) : index < 0 ? "jitter" + std::to_string(salt) + "x" + std::to_string(size) : "m" + std::to_string(index) + "x" + std::to_string(size); }
  double at(int i) const { return index < 0 ? size * jitter(i, salt) : i == index ? size : 0.0; }
};
/** repeats some of the entries, right after themselves and at the end */
template <class V>
static void twice(V& v, bool yes)
{
  if (!yes || v.empty())
    return;
  V o;
  for (size_t i = 0; i < v.size(); ++i)
  {
    o.push_back(v[i]);
    if (i % 3 == 1)
      o.push_back(v[i]);
  }
  o.push_back(v[0]);
  v = o;
}
static std::vector<Noise> noises(int n, int stride, std::initializer_list<double> sizes, bool gross = true)
{
  std::vector<Noise> v;
  for (int salt = 0; salt < 4; ++salt)
    for (double s : { 0.01, 0.3, 2.0 })
      v.push_back({ -1, s, salt });
  for (int i = 0; i < n; i += stride)
    for (double s : sizes)
      v.push_back({ i, (i & 1) ? -s : s, 0 });
  for (int salt = 0; salt < 2; ++salt)
    v.push_back({ -1, 0.7, salt, true });
  if (gross && n)  // a measurement that is wrong by hundreds of pixels
    for (int i : { 0, n / 2, n - 1 })
      v.push_back({ i, i % 2 ? -700. : 300., 0 });
  return v;
}

/** costs are those of the reference residuals; the result is a stationary point over the free poses / parameters */
static void judge(vf::Ctx& c, bool converged, double initial, double final_, const VX& r0, const VX& r1, const ResFn& f, const VX& x, const std::string& w,
                  double unit)
{
  requireCost(c, initial, r0, w + ": initial cost", 1e-12 * unit);
  // the minimum may be far below the initial cost: allow for cancellation in the prediction
  requireCost(c, final_, r1, w + ": final cost", 1e-11 * unit);
  c.require(final_ <= initial * (1 + 1e-12) + 1e-14 * unit, w, ": final cost ", final_, " exceeds initial cost ", initial);
  if (solved)
    c.require(converged == (ended == ceres::CONVERGENCE), w, ": reported as ", converged ? "" : "not ", "converged, the solver ended with ",
              ceres::TerminationTypeToString(ended), " (iteration limit ", limit, ")");
  solved = false;
  c.outcome(converged ? "converged" : "not converged");
  if (!converged || w.find("gross") != std::string::npos)  // with gross errors the solver may stop where it makes slow progress
    return;
  VX r = f(x);
  c.require((r - r1).norm() <= 1e-6 * (r1.norm() + 1e-6), w, ": harness parametrisation is inconsistent");
  if (halfMean(r) < 1e-9 * unit)
    return;  // zero cost is optimal anyway
  MX J = jacobian(f, x);
  VX g = J.transpose() * r;
  // cost that a Gauss-Newton step would still gain, relative to the cost
  for (Eigen::Index k = 0; k < J.cols(); ++k)
  {
    double nk = J.col(k).norm();
    if (nk > 0)
    {
      J.col(k) /= nk;
      g[k] /= nk;
    }
  }
  Eigen::CompleteOrthogonalDecomposition<MX> dec;
  dec.setThreshold(1e-6);  // directions without effect (free gauge) do not count
  dec.compute(J);
  double gain = g.dot(dec.solve(r).eval()) / r.squaredNorm();
  // the solver stops when a step gains less than 1e-6 of the cost, which is early where it makes slow progress (intrinsics)
  c.require(gain <= (c.case_id.compare(0, 9, "intrinsic") == 0 ? 5e-3 : 2e-4), w, ": not a stationary point, a step would still reduce the cost by the fraction ", gain);
}
static ResFn poseFn(const std::vector<Iso>& at, const std::function<VX(const std::vector<Iso>&)>& res)
{
  return [=](const VX& x) {
    std::vector<Iso> p = at;
    for (size_t k = 0; k < p.size(); ++k)
      p[k] = at[k] * iso6(x.data() + 6 * k);  // small motions about the result
    return res(p);
  };
}

template <class Problem, class Obs>
static void handEye(vf::Ctx& c, Mount m, int truth, int nview, int target, int part, int parts, bool thin = false)
{
  constexpr bool is2d = std::is_same<Problem, ro::ExtrinsicHandEyeProblem2D3D>::value;
  HandEyeTruth t{ truth ? rpyxyz(-0.6, 0.9, 1.5, 0.3, -0.2, 0.4) : rpyxyz(0.1, -0.2, 0.3, 0.05, 0.08, 0.12),
                  truth ? rpyxyz(0.7, -0.3, -1.1, 0.8, 0.1, -0.4) : rpyxyz(-0.3, 0.2, 0.5, 0.6, -0.2, 0.1) };
  auto pts = target ? grid3d(0.15) : grid(4, 4, 0.06);
  auto vw = manyViews(0.9, centre(pts), nview);
  Problem base;
  auto K = intrinsics()[(truth + target + 1) % 3];
  base.observations = handEyeMounts<Obs>(m, t, vw);
  if constexpr (is2d)
    base.intr = K;
  int n = 0;
  for (size_t i = 0; i < vw.size(); ++i)
    for (size_t j = 0; j < pts.size(); ++j)
    {
      if (thin && i > 1 ? j > i % 4 : i && (i + j) % 4 == 0)  // thin: most images show only one to four features
        continue;
      typename std::decay<decltype(base.observations[0].correspondence_set[0])>::type q;
      q.in_target = pts[j];
      V3 x = xf(vw[i], pts[j]);
      if constexpr (is2d)
        q.in_image = project(K, x);
      else
        q.in_image = x;
      n += q.in_image.size();
      base.observations[i].correspondence_set.push_back(q);
    }
  auto ns = noises(n, 1, { 5.0 });
  for (size_t k = part; k < ns.size(); k += parts)
  {
    Problem p = base;
    int s = 0;
    for (auto& o : p.observations)
      for (auto& q : o.correspondence_set)
        for (int d = 0; d < q.in_image.size(); ++d)
          q.in_image[d] += ns[k].at(s++) * (is2d ? 1.0 : 0.002);
    for (auto& o : p.observations)
      twice(o.correspondence_set, ns[k].twice && ns[k].salt == 0);
    twice(p.observations, ns[k].twice && ns[k].salt == 1);
    int g = k % 3;
    Iso off = g == 0 ? Iso::Identity() : g == 1 ? rpyxyz(0.03, -0.02, 0.04, 0.01, 0.02, -0.01) : rpyxyz(-0.04, 0.03, 0.02, -0.02, 0.01, 0.02);
    p.camera_mount_to_camera_guess = t.cam * off;
    p.target_mount_to_target_guess = t.tgt * off;
    auto r = ro::optimize(p);
    auto res = [&](const std::vector<Iso>& q) { return residuals(p, q[0], q[1]); };
    judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess),
          residuals(p, r.camera_mount_to_camera, r.target_mount_to_target), poseFn({ r.camera_mount_to_camera, r.target_mount_to_target }, res),
          VX::Zero(12), ns[k].str(), is2d ? 1.0 : 1e-5);
    c.eval(c.case_id + ns[k].str());
  }
}

static Iso small(int k) { return rpyxyz(0.02 * ((k % 3) - 1), 0.02 * ((k + 1) % 3 - 1), -0.015 * ((k + 2) % 3 - 1), 0.01 * (k % 2), -0.01, 0.008 * ((k + 1) % 2)); }
/** kind 0: robot-carried target; 1: free target, free cameras; 2: free target, first camera fixed; 3: common correction */
static void multi(vf::Ctx& c, int kind, int nc, int ni, int target, int variant, int part, int parts, bool thin = false)
{
  auto sc = multiScene(nc, ni, target, 1, variant);
  std::vector<std::vector<Corr2::Set>> obs(nc);
  int n = 0;
  for (int a = 0; a < nc; ++a)
    for (int i = 0; i < ni; ++i)
    {
      auto set = see(sc, a, i, (a + i) % 2);
      if (nc > 1 && (a + 2 * i) % 5 == 4)
        set.clear();
      if (thin && i > 1 && kind % 3 == 0)  // images of one to four features (free targets need three)
        set.resize(std::min(set.size(), size_t(1 + (a + i) % 4)));
      else if (thin && i > 1)
        set.resize(std::min(set.size(), size_t(3 + (a + i) % 2)));
      n += 2 * set.size();
      obs[a].push_back(set);
    }
  auto ns = noises(n, c.thorough ? 1 : 3, { 5.0 });
  for (size_t k = part; k < ns.size(); k += parts)
  {
    auto o = obs;
    int s = 0;
    for (auto& a : o)
      for (auto& i : a)
        for (auto& q : i)
          for (int d = 0; d < 2; ++d)
            q.in_image[d] += ns[k].at(s++);
    for (auto& a : o)
      for (auto& i : a)
        twice(i, ns[k].twice);
    bool g = k % 3 != 0;
    std::string w = ns[k].str();
    std::vector<Iso> cams;
    for (int a = 0; a < nc; ++a)
      cams.push_back(g && !(kind == 2 && a == 0) && kind != 3 ? Iso(sc.cams[a] * small(a + k)) : sc.cams[a]);
    if (kind == 3 && g)
      for (auto& q : cams)
        q = rpyxyz(0.01, -0.02, 0.02, 0.02, -0.01, 0.01) * q;
    Iso wt = g ? Iso(sc.wt * small(k + 7)) : sc.wt;
    std::vector<Iso> tg;
    for (int i = 0; i < ni; ++i)
      tg.push_back(g ? Iso(sc.tgts[i] * small(k + i + 3)) : sc.tgts[i]);
    if (kind == 0)
    {
      ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
      p.intr = sc.intr;
      p.base_to_camera_guess = cams;
      p.wrist_to_target_guess = wt;
      for (int a = 0; a < nc; ++a)
        p.wrist_poses.push_back(sc.wrists);
      p.image_observations = o;
      auto r = ro::optimize(p);
      auto at = r.base_to_camera;
      at.push_back(r.wrist_to_target);
      auto res = [&](const std::vector<Iso>& q) { return residuals(p, std::vector<Iso>(q.begin(), q.end() - 1), q.back()); };
      judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, cams, wt), res(at), poseFn(at, res), VX::Zero(6 * at.size()), w, 1);
    }
    else if (kind <= 2)
    {
      ro::ExtrinsicMultiStaticCameraOnlyProblem p;
      p.intr = sc.intr;
      p.fix_first_camera = kind == 2;
      p.base_to_camera_guess = cams;
      p.base_to_target_guess = tg;
      p.image_observations = o;
      auto r = ro::optimize(p);
      // with a free gauge the motion of everything together has no effect; the decomposition copes with that
      std::vector<Iso> at(r.base_to_camera.begin() + (kind == 2), r.base_to_camera.end());
      size_t ncf = at.size();
      at.insert(at.end(), r.base_to_target.begin(), r.base_to_target.end());
      auto res = [&](const std::vector<Iso>& q) {
        std::vector<Iso> cm(q.begin(), q.begin() + ncf), tt(q.begin() + ncf, q.end());
        if (kind == 2)
          cm.insert(cm.begin(), r.base_to_camera[0]);
        return residuals(p, cm, tt);
      };
      judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, cams, tg), res(at), poseFn(at, res), VX::Zero(6 * at.size()), w, 1);
    }
    else
    {
      ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
      p.intr = sc.intr;
      p.base_to_camera_guess = cams;
      p.wrist_to_target_guess = wt;
      p.wrist_poses = sc.wrists;
      p.image_observations = o;
      auto r = ro::optimize(p);
      std::vector<Iso> at{ Iso::Identity(), r.wrist_to_target };
      auto res = [&](const std::vector<Iso>& q) {
        std::vector<Iso> cm;
        for (auto& x : r.base_to_camera)
          cm.push_back(q[0] * x);
        return residuals(p, cm, q[1]);
      };
      judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, cams, wt), res(at), poseFn(at, res), VX::Zero(12), w, 1);
    }
    c.eval(c.case_id + w);
  }
}
static void pnp(vf::Ctx& c, int view, int target)
{
  auto pts = target == 0 ? grid(3, 4, 0.07) : target == 1 ? grid3d(0.2) : grid(2, 2, 0.2, 0.1, -0.2);
  auto truth = manyViews(0.9, centre(pts), 12)[view];
  auto K = intrinsics()[view % 3];
  auto ns = noises(2 * pts.size(), 1, { 1.0, 8.0 });
  for (size_t k = 0; k < ns.size(); ++k)
  {
    ro::PnPProblem p;
    ro::PnPProblem3D q;
    p.intr = K;
    int s = 0, s3 = 0;
    for (auto& x : pts)
    {
      Corr2 a;
      a.in_target = x;
      a.in_image = project(K, xf(truth, x));
      for (int d = 0; d < 2; ++d)
        a.in_image[d] += ns[k].at(s++);
      p.correspondences.push_back(a);
      Corr3 b;
      b.in_target = x;
      b.in_image = xf(truth, x);
      for (int d = 0; d < 3; ++d)
        b.in_image[d] += 0.002 * ns[k].at(s3++);
      q.correspondences.push_back(b);
    }
    twice(p.correspondences, ns[k].twice);
    twice(q.correspondences, ns[k].twice);
    p.camera_to_target_guess = q.camera_to_target_guess = truth * (k % 2 ? rpyxyz(0.05, -0.06, 0.1, 0.02, -0.02, 0.04) : Iso::Identity());
    std::string w = ns[k].str();
    auto r = ro::optimize(p);
    judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, p.camera_to_target_guess), residuals(p, r.camera_to_target),
          poseFn({ r.camera_to_target }, [&](const std::vector<Iso>& z) { return residuals(p, z[0]); }), VX::Zero(6), "2D " + w, 1);
    auto r3 = ro::optimize(q);
    judge(c, r3.converged, r3.initial_cost_per_obs, r3.final_cost_per_obs, residuals(q, q.camera_to_target_guess), residuals(q, r3.camera_to_target),
          poseFn({ r3.camera_to_target }, [&](const std::vector<Iso>& z) { return residuals(q, z[0]); }), VX::Zero(6), "3D " + w, 1e-5);
    c.eval("2" + c.case_id + w);
    c.eval("3" + c.case_id + w);
  }
}
static void multiPnp(vf::Ctx& c, int nc, int target, int variant)
{
  auto sc = multiScene(nc, 3, target, 0, variant);
  for (int img = 0; img < 3; ++img)
  {
    std::vector<Corr2::Set> obs;
    int n = 0;
    for (int a = 0; a < nc; ++a)
    {
      obs.push_back(see(sc, a, img, a % 2));
      n += 2 * obs.back().size();
    }
    auto ns = noises(n, 1, { 6.0 });
    for (size_t k = 0; k < ns.size(); ++k)
    {
      ro::MultiCameraPnPProblem p;
      p.intr = sc.intr;
      p.base_to_camera = sc.cams;
      p.image_observations = obs;
      int s = 0;
      for (auto& a : p.image_observations)
        for (auto& q : a)
          for (int d = 0; d < 2; ++d)
            q.in_image[d] += ns[k].at(s++);
      for (auto& a : p.image_observations)
        twice(a, ns[k].twice);
      p.base_to_target_guess = sc.tgts[img] * (k % 2 ? small(k) : Iso::Identity());
      auto r = ro::optimize(p);
      judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, p.base_to_target_guess), residuals(p, r.base_to_target),
            poseFn({ r.base_to_target }, [&](const std::vector<Iso>& z) { return residuals(p, z[0]); }), VX::Zero(6), ns[k].str(), 1);
      c.eval(c.case_id + str(img) + ns[k].str());
    }
  }
}
static void circle(vf::Ctx& c, int n, double rad, int part = 0, int parts = 1)
{
  auto all = noises(2 * n, 1, { 0.05, 0.4 }, false);
  for (size_t k = part; k < all.size(); k += parts)
    for (int g = 0; g < 3; ++g)
    {
      auto& nz = all[k];
      ro::CircleFitProblem p;
      int s = 0;
      for (int i = 0; i < n; ++i)
      {
        double a = 2 * PI * i / n * 0.9 + 0.3;
        p.observations.emplace_back(3 + rad * (std::cos(a) + 0.1 * nz.at(s)), -2 + rad * (std::sin(a) + 0.1 * nz.at(s + 1)));
        s += 2;
      }
      twice(p.observations, nz.twice);
      p.x_center_initial = 3 + 0.1 * g * rad;
      p.y_center_initial = -2 - 0.07 * g * rad;
      p.radius_initial = g == 2 ? 0.004 * rad : rad * (1 + 0.1 * g);  // the third guess has next to no radius
      auto r = ro::optimize(p);
      VX x(3);
      x << r.x_center, r.y_center, r.radius;
      double unit = std::pow(rad, 4);
      judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, residuals(p, p.x_center_initial, p.y_center_initial, p.radius_initial),
            residuals(p, r.x_center, r.y_center, r.radius), [&](const VX& y) { return residuals(p, y[0], y[1], y[2]); }, x, nz.str() + " guess " + str(g), unit);
      c.eval(c.case_id + nz.str() + str(g));
    }
}
static void intrinsic(vf::Ctx& c, int nv, int k, int d, int part, int parts)
{
  const double D[3][5] = { { 0, 0, 0, 0, 0 }, { 0.1, -0.05, 0.002, -0.001, 0.01 }, { -0.1, 0.04, -0.003, 0.002, 0 } };
  auto pts = grid(5, 6, 0.045);
  auto vw = frontViews(0.5, centre(pts), nv);
  auto K = intrinsics()[k];
  std::array<double, 9> truth{ K.values[0], K.values[1], K.values[2], K.values[3], D[d][0], D[d][1], D[d][2], D[d][3], D[d][4] };
  auto ns = noises(2 * nv * pts.size(), c.thorough ? 1 : 7, { 4.0 }, false);
  for (size_t m = part; m < ns.size(); m += parts)
  {
    ro::IntrinsicEstimationProblem p;
    p.intrinsics_guess = intr(K.values[0] * (1 + 0.02 * (m % 2)), K.values[1] * (1 - 0.01 * (m % 3)), K.values[2] + m % 4, K.values[3] - m % 5);
    int s = 0;
    for (auto& v : vw)
    {
      p.image_observations.emplace_back();
      for (auto& x : pts)
      {
        Corr2 q;
        q.in_target = x;
        q.in_image = projectDistorted(truth, xf(v, x)) + V2(ns[m].at(s), ns[m].at(s + 1));
        s += 2;
        p.image_observations.back().push_back(q);
      }
      twice(p.image_observations.back(), ns[m].twice);
    }
    auto r = ro::optimize(p);
    c.require((int)r.target_transforms.size() == nv, "number of target transforms");
    // the starting point: the given intrinsics without distortion and, per image, the best pose for them (found by the harness)
    std::array<double, 9> k0{}, k1{};
    for (int i = 0; i < 4; ++i)
    {
      k0[i] = p.intrinsics_guess.values[i];
      k1[i] = r.intrinsics.values[i];
    }
    for (int i = 0; i < 5; ++i)
      k1[4 + i] = r.distortions[i];
    std::vector<Iso> start;
    for (int i = 0; i < nv; ++i)
    {
      Iso q = vw[i];
      for (int it = 0; it < 8; ++it)
      {
        ResFn f = [&](const VX& x) { return residuals({ p.image_observations[i] }, k0, { q * iso6(x.data()) }); };
        VX z = VX::Zero(6);
        MX J = jacobian(f, z);
        VX st = -(J.transpose() * J).ldlt().solve(J.transpose() * f(z));
        q = q * iso6(st.data());
      }
      start.push_back(q);
    }
    double want0 = halfMean(residuals(p.image_observations, k0, start));
    std::string w = ns[m].str();
    c.require(std::fabs(r.initial_cost_per_obs - want0) <= 2e-3 * want0 + 1e-9, w, ": initial cost ", r.initial_cost_per_obs, ", true ", want0);
    VX r1 = residuals(p.image_observations, k1, r.target_transforms);
    VX x = VX::Zero(9 + 6 * nv);
    for (int i = 0; i < 9; ++i)
      x[i] = k1[i];
    auto f = [&](const VX& y) {
      std::array<double, 9> kk;
      for (int i = 0; i < 9; ++i)
        kk[i] = y[i];
      std::vector<Iso> ps;
      for (int i = 0; i < nv; ++i)
        ps.push_back(r.target_transforms[i] * iso6(y.data() + 9 + 6 * i));
      return residuals(p.image_observations, kk, ps);
    };
    VX r0(1);
    r0[0] = std::sqrt(2 * r.initial_cost_per_obs);
    judge(c, r.converged, r.initial_cost_per_obs, r.final_cost_per_obs, r0, r1, f, x, w, 1);
    c.eval(c.case_id + w);
  }
}

void vf::define(vf::Suite& s)
{
  s.property = "C05";
  s.rule = "for every calibration kind: every single scalar measurement displaced on its own (multi-camera: every third, intrinsic: every seventh in the "
           "quick tier), also with images of one to four features, and 12 data sets with all measurements jittered, for the listed scenes and guesses; and the solver stopped after every number of iterations from 0 to 20 (60 "
           "thorough) of every kind but the intrinsic one. Distinct = distinct data set.";
  using H2 = ro::ExtrinsicHandEyeProblem2D3D;
  using H3 = ro::ExtrinsicHandEyeProblem3D3D;
  for (int m = 0; m < 5; ++m)
    for (int t = 0; t < 2; ++t)
      for (int nv : { 5, 10 })
        for (int part = 0; part < 4; ++part)
        {
          int tg = (m + t + nv) % 2;
          std::string id = "/mount" + str(m) + "/truth" + str(t) + "/views" + str(nv) + "/part" + str(part);
          s.add("handeye2" + id, [=](vf::Ctx& c) { handEye<H2, ro::Observation2D3D>(c, Mount(m), t, nv, tg, part, 4); });
          s.add("handeye3" + id, [=](vf::Ctx& c) { handEye<H3, ro::Observation3D3D>(c, Mount(m), t, nv, tg, part, 4); });
          if (part == 0)
          {
            s.add("handeye2/few" + id, [=](vf::Ctx& c) { handEye<H2, ro::Observation2D3D>(c, Mount(m), t, nv, tg, 0, 1, true); });
            s.add("handeye3/few" + id, [=](vf::Ctx& c) { handEye<H3, ro::Observation3D3D>(c, Mount(m), t, nv, tg, 0, 1, true); });
          }
        }
  for (int kind = 0; kind < 4; ++kind)
    for (int nc = 1; nc <= 3; ++nc)
      for (int v = 0; v < 2; ++v)
        for (int part = 0; part < 3; ++part)
        {
          s.add("multi" + str(kind) + "/cams" + str(nc) + "/variant" + str(v) + "/part" + str(part),
                [=](vf::Ctx& c) { multi(c, kind, nc, 4 + nc % 2, v, v, part, 3); });
          if (part == 0)
            s.add("multi" + str(kind) + "/few/cams" + str(nc) + "/variant" + str(v), [=](vf::Ctx& c) { multi(c, kind, nc, 5 + nc, v, v, 0, 1, true); });
        }
  for (int v = 0; v < 12; ++v)
    for (int t = 0; t < 3; ++t)
      s.add("pnp/view" + str(v) + "/target" + str(t), [=](vf::Ctx& c) { pnp(c, v, t); });
  for (int nc = 1; nc <= 4; ++nc)
    for (int t = 0; t < 3; ++t)
      s.add("multipnp/cams" + str(nc) + "/target" + str(t), [=](vf::Ctx& c) { multiPnp(c, nc, t, t % 2); });
  for (int n : { 4, 5, 8, 20 })
    for (double r : { 0.05, 1.0, 30.0 })
      s.add("circle/n" + str(n) + "/r" + std::to_string(r), [=](vf::Ctx& c) { circle(c, n, r); });
  for (int nv : { 4, 8 })
    for (int k = 0; k < 3; ++k)
      for (int d = 0; d < 3; ++d)
        for (int part = 0; part < 2; ++part)
          s.add("intrinsic/views" + str(nv) + "/k" + str(k) + "/d" + str(d) + "/part" + str(part), [=](vf::Ctx& c) { intrinsic(c, nv, k, d, part, 2); });
  // the solver stopped after every number of iterations: data set number = part + k * parts
  for (int n = 0; n <= (s.thorough ? 60 : 20); ++n)
  {
    const int q = s.thorough ? 7 : 41;
    for (int m = 0; m < 5; ++m)
    {
      s.add("stopped/handeye2/after" + str(n) + "/mount" + str(m), [=](vf::Ctx& c) {
        Limit l(n);
        handEye<H2, ro::Observation2D3D>(c, Mount(m), m % 2, 5, m % 2, (n + m) % q, q);
      });
      s.add("stopped/handeye3/after" + str(n) + "/mount" + str(m), [=](vf::Ctx& c) {
        Limit l(n);
        handEye<H3, ro::Observation3D3D>(c, Mount(m), m % 2, 5, m % 2, (n + m) % q, q);
      });
    }
    for (int kind = 0; kind < 4; ++kind)
      s.add("stopped/multi" + str(kind) + "/after" + str(n), [=](vf::Ctx& c) {
        Limit l(n);
        for (int nc = 1; nc <= 3; ++nc)
          multi(c, kind, nc, 4, nc % 2, kind % 2, (n + nc) % q, q);
      });
    s.add("stopped/pnp/after" + str(n), [=](vf::Ctx& c) {
      Limit l(n);
      pnp(c, n % 12, n % 3);
    });
    s.add("stopped/multipnp/after" + str(n), [=](vf::Ctx& c) {
      Limit l(n);
      multiPnp(c, 2 + n % 2, n % 3, n % 2);
    });
    s.add("stopped/circle/after" + str(n), [=](vf::Ctx& c) {
      Limit l(n);
      for (int k : { 4, 8 })
        for (double r : { 0.05, 1.0, 30.0 })
          circle(c, k, r);
    });
  }
}

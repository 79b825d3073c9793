// LIBS: opt
// C13: intrinsic validation (displacement between the two halves of the target).
#include "scenes.h"
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>

using namespace kit;

struct Shape
{
  std::vector<V3> pts;
  std::string name;
};
static std::vector<Shape> shapes()
{
  std::vector<V3> odd = grid(5, 5, 0.05);
  std::vector<V3> cross;  // ring target, both halves are spread over the plane
  for (int i = 0; i < 14; ++i)
    cross.push_back(V3(0.12 * std::cos(1.9 * i), 0.12 * std::sin(1.9 * i) + 0.03 * (i % 3), 0));
  std::vector<V3> solid = grid3d(0.15), solid2 = grid3d(0.1);
  for (auto& p : solid2)
    solid.push_back(p + V3(0.02, 0.03, 0.01));
  return { { grid(6, 5, 0.05), "grid6x5" }, { odd, "grid5x5" }, { cross, "ring" }, { solid, "solid" } };
}
/** displacement of the second half: D maps nominal to displaced points (in the target frame) */
static std::vector<Iso> displacements()
{
  std::vector<Iso> v = { Iso::Identity() };
  for (double a : { 1e-5, 1e-3, 0.02 })
    for (int k = 0; k < 3; ++k)
    {
      V3 t = V3::Zero();
      t[k] = (k % 2 ? -1 : 1) * a;
      v.push_back(make(V3(1, 0, 0), 0, t));
      V3 ax = V3::Zero();
      ax[k] = 1;
      v.push_back(make(ax, a * (k == 1 ? -3 : 3), V3::Zero()));
    }
  v.push_back(make(V3(1, -2, 0.5), 0.06, V3(0.004, -0.006, 0.008)));
  v.push_back(make(V3(0.1, 0.2, -1), -0.1, V3(-0.01, -0.003, 0.015)));
  return v;
}
static Corr2::Set see(const CameraIntrinsics& k, const std::vector<V3>& pts, const Iso& ct, const Iso& D)
{
  Corr2::Set s;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    Corr2 c;
    c.in_target = pts[i];
    c.in_image = project(k, xf(ct, i < pts.size() / 2 ? pts[i] : xf(D, pts[i])));
    s.push_back(c);
  }
  return s;
}
static double angleOf(const Iso& p)
{
  V3 v(p(2, 1) - p(1, 2), p(0, 2) - p(2, 0), p(1, 0) - p(0, 1));
  return std::atan2(v.norm(), p.linear().trace() - 1);
}
static Iso nudge(const Iso& p, const V3& ctr, int k)
{
  return p * make(V3(1, 0, 0), 0, ctr) * make(V3(1, -1, 0.5 + k), k == 0 ? 0 : 0.04, k == 0 ? V3(0, 0, 0) : V3(0.004, -0.003, 0.02)) * make(V3(1, 0, 0), 0, -ctr);
}

void vf::define(Suite& s)
{
  s.property = "C13";
  s.rule = "all combinations of target shape x view x intrinsics x guess x displacement of the second half; all sequences of up to 3 "
           "displacements over the observations of a data set with all mount configurations; every failing observation position; every size mismatch";
  s.assumptions = { "pose estimation converges from guesses near the truth (C03)" };

  // ---------------------------------------------------------------- one observation
  auto SH = shapes();
  for (size_t sh = 0; sh < SH.size(); ++sh)
    for (int k = 0; k < 3; ++k)
      for (int guess = 0; guess < 2; ++guess)
        s.add("diff/" + SH[sh].name + "/k" + str(k) + "/g" + str(guess), [=](Ctx& c) {
          V3 ctr = centre(SH[sh].pts);
          auto V = views(0.9, ctr);
          auto D = displacements();
          int nv = c.thorough ? 10 : 5;
          for (int v = 0; v < nv; ++v)
            for (size_t d = 0; d < D.size(); ++d)
            {
              Corr2::Set set = see(intrinsics()[k], SH[sh].pts, V[v], D[d]);
              auto r = ro::measureVirtualTargetDiff(set, intrinsics()[k], nudge(V[v], ctr, guess), 1e-6);
              std::string w = "view " + str(v) + " displacement " + str((int)d);
              double tol = 2e-5;
              requireSame(c, r.t1_to_t2, D[d], tol, 5 * tol, w + ": half to half");
              c.near(r.positional_error, D[d].translation().norm(), tol, w + ": positional error");
              c.near(r.angular_error, angleOf(D[d]), 5 * tol, w + ": angular error");
              c.eval(sigOf(vf::hashStr(c.case_id + w), r.t1_to_t2.matrix()));
              c.outcome(d ? "displaced" : "consistent");
            }
        });

  // ---------------------------------------------------------------- data sets
  struct M
  {
    Mount m;
    const char* name;
  };
  const M mounts[] = { { MovingCamera, "camera" }, { MovingTarget, "target" }, { BothMoving, "both" } };
  for (auto& m : mounts)
    for (int base = 0; base < 2; ++base)
      for (int k = 0; k < 2; ++k)
        for (int n : s.thorough ? std::vector<int>{ 1, 2, 3, 4, 12, 33, 65, 130 } : std::vector<int>{ 1, 2, 3, 12, 33, 65, 130 })
          s.add(std::string("accuracy/") + m.name + "/base" + str(base) + "/k" + str(k) + "/n" + str(n), [=](Ctx& c) {
            auto pts = SH[k].pts;
            V3 ctr = centre(pts);
            auto V = n > 4 ? manyViews(0.9, ctr, n) : views(0.9, ctr);
            V.resize(n);
            HandEyeTruth t{ rpyxyz(0.1, 0.2, -0.4, 0.05, 0.1, 0.2), rpyxyz(0.3, -0.5, 1.0, 0.2, -0.1, 0.15) };
            Iso b = base ? rpyxyz(2.0, -0.6, 1.3, -1.5, 0.7, 0.3) : Iso::Identity();
            auto obs = handEyeMounts<ro::Observation2D3D>(m.m, t, V);
            for (auto& o : obs)
              o.to_target_mount = inv(b) * o.to_target_mount;
            auto D = displacements();
            const int al[] = { 0, 9, 12, 19, 20 };
            int na = 5;
            long total = 1;
            for (int i = 0; i < std::min(n, 4); ++i)
              total *= na;
            if (n > 4)
              total = 4;  // displacements in turn, and only the last observation displaced
            for (long code = 0; code < total; ++code)
            {
              std::vector<double> pe, ae;
              long q = code;
              for (int i = 0; i < n; ++i, q /= na)
              {
                const Iso& d = D[al[n <= 4 ? q % na : code == 0 ? 0 : code == 3 ? (i + 1 == n) * 2 : (i * code + 1) % na]];
                obs[i].correspondence_set = see(intrinsics()[k], pts, V[i], d);
                pe.push_back(d.translation().norm());
                ae.push_back(angleOf(d));
              }
              // the given calibration may be slightly off: it only serves as a guess
              Iso cam = code % 2 ? nudge(t.cam, V3::Zero(), 1) : t.cam;
              auto r = ro::measureIntrinsicCalibrationAccuracy(obs, intrinsics()[k], cam, t.tgt, b, 1e-6);
              auto stat = [&](const std::vector<double>& v, double& mean, double& dev) {
                mean = dev = 0;
                for (double x : v)
                  mean += x / v.size();
                for (double x : v)
                  dev += (x - mean) * (x - mean) / v.size();
                dev = std::sqrt(dev);
              };
              double mean, dev;
              std::string w = "displacements " + std::to_string(code);
              stat(pe, mean, dev);
              c.near(r.pos_error.first, mean, 2e-5, w + ": mean positional error");
              c.near(r.pos_error.second, dev, 4e-5, w + ": positional deviation");
              stat(ae, mean, dev);
              c.near(r.ang_error.first, mean, 1e-4, w + ": mean angular error");
              c.near(r.ang_error.second, dev, 2e-4, w + ": angular deviation");
              c.eval(vf::mix(vf::hashStr(c.case_id), code));
              c.outcome(code == 0 ? "consistent" : "displaced");
            }
          });

  // ---------------------------------------------------------------- residual threshold: exactly the estimates above it are refused
  s.add("threshold", [=](Ctx& c) {
    auto pts = SH[0].pts;
    V3 ctr = centre(pts);
    auto V = views(0.9, ctr);
    auto K = intrinsics()[0];
    for (int half = 0; half < 3; ++half)  // noise in the first, second, both halves
      for (double amp : { 0.3, 1.0, 5.0 })
        for (int v = 0; v < 3; ++v)
        {
          auto set = see(K, pts, V[v], Iso::Identity());
          size_t h = set.size() / 2;
          for (size_t i = 0; i < set.size(); ++i)
            if (half == 2 || (half == 0) == (i < h))
              set[i].in_image += amp * V2(std::sin(2.1 * i + v), std::cos(3.7 * i));
          double worst = 0;
          for (int p = 0; p < 2; ++p)
          {
            ro::PnPProblem pr;
            pr.intr = K;
            pr.camera_to_target_guess = V[v];
            pr.correspondences = Corr2::Set(set.begin() + (p ? h : 0), p ? set.end() : set.begin() + h);
            auto r = ro::optimize(pr);
            c.require(r.converged, "reference estimate failed");
            worst = std::max(worst, r.final_cost_per_obs);
          }
          std::string w = "half " + str(half) + " amplitude " + std::to_string(amp) + " view " + str(v);
          HandEyeTruth t{ rpyxyz(0.1, 0.2, -0.4, 0.05, 0.1, 0.2), rpyxyz(0.3, -0.5, 1.0, 0.2, -0.1, 0.15) };
          for (double f : { 1e-3, 0.5, 0.99, 1.01, 2.0, 1e3 })
          {
            bool refused = throws([&]() { ro::measureVirtualTargetDiff(set, K, V[v], worst * f); });
            c.require(refused == (f < 1), w, ": residual ", worst, " with threshold ", worst * f, refused ? " is refused" : " is accepted");
            for (int at = 0; at < 3; ++at)
            {
              auto obs = handEyeMounts<ro::Observation2D3D>(BothMoving, t, { V[v], V[v], V[v] });
              for (int i = 0; i < 3; ++i)
                obs[i].correspondence_set = i == at ? set : see(K, pts, V[v], Iso::Identity());
              bool refused = throws([&]() { ro::measureIntrinsicCalibrationAccuracy(obs, K, t.cam, t.tgt, Iso::Identity(), worst * f); });
              c.require(refused == (f < 1), w, ": data set with residual ", worst, " at ", at, ", threshold ", worst * f, refused ? " is refused" : " is accepted");
            }
            c.eval(w + std::to_string(f));
            c.outcome(f < 1 ? "refused" : "accepted");
          }
        }
  });
  // ---------------------------------------------------------------- default threshold is one squared pixel
  s.add("threshold/default", [=](Ctx& c) {
    auto pts = SH[0].pts;
    auto V = views(0.9, centre(pts));
    auto K = intrinsics()[0];
    for (double amp : { 0.2, 0.5, 20.0, 50.0 })
    {
      auto set = see(K, pts, V[0], Iso::Identity());
      for (size_t i = 0; i < set.size(); ++i)
        set[i].in_image += amp * V2(std::sin(2.1 * i), std::cos(3.7 * i));
      bool refused = throws([&]() { ro::measureVirtualTargetDiff(set, K, V[0]); });
      c.require(refused == (amp > 1), "noise of ", amp, " pixels with the default threshold ", refused ? "refused" : "accepted");
      c.eval(std::to_string(amp));
    }
  });

  // ---------------------------------------------------------------- noise: the reported statistics are those of the two halves, each estimated with all of its points
  for (size_t sh = 0; sh < SH.size(); ++sh)
    s.add("noisy/" + SH[sh].name, [=](Ctx& c) {
      auto V = views(0.9, centre(SH[sh].pts));
      for (int k = 0; k < 3; ++k)
        for (int v = 0; v < 4; ++v)
          for (int variant = 0; variant < (c.thorough ? 12 : 4); ++variant)
            for (int drop = 0; drop < 3; ++drop)
            {
              auto K = intrinsics()[k];
              auto set = see(K, SH[sh].pts, V[v], Iso::Identity());
              set.resize(set.size() - drop);
              for (size_t i = 0; i < set.size(); ++i)
                set[i].in_image += 0.6 * V2(std::sin(2.1 * i + v + variant), std::cos(3.7 * i * (1 + variant)));
              auto half = [&](size_t from, size_t to) {
                ro::PnPProblem pr;
                pr.intr = K;
                pr.camera_to_target_guess = V[v];
                pr.correspondences = Corr2::Set(set.begin() + from, set.begin() + to);
                auto r = ro::optimize(pr);
                c.require(r.converged, "reference estimate failed");
                return r.camera_to_target;
              };
              auto r = ro::measureVirtualTargetDiff(set, K, V[v], 1e3);
              // of an odd number of points either half may have the one in the middle
              size_t n = set.size();
              double best = 1e9;
              for (size_t h : { n / 2, n - n / 2 })
              {
                Iso d = inv(half(0, h)) * half(h, n);
                best = std::min(best, std::max((r.t1_to_t2.matrix() - d.matrix()).norm(),
                                               std::max(std::fabs(r.positional_error - d.translation().norm()), std::fabs(r.angular_error - angleOf(d)))));
              }
              std::string w = "k" + str(k) + " view " + str(v) + " noise " + str(variant) + ", " + std::to_string(n) + " points";
              c.require(best < 1e-6, w, ": differs by ", best, " from the poses of the two halves");
              c.eval(sigOf(vf::hashStr(c.case_id + w), r.t1_to_t2.matrix()));
              c.outcome("noisy");
            }
    });

  // ---------------------------------------------------------------- unequal sizes at every position, empty sets
  s.add("sizes", [=](Ctx& c) {
    auto pts = SH[0].pts;
    auto V = views(0.9, centre(pts));
    auto K = intrinsics()[0];
    HandEyeTruth t{ rpyxyz(0.1, 0.2, -0.4, 0.05, 0.1, 0.2), rpyxyz(0.3, -0.5, 1.0, 0.2, -0.1, 0.15) };
    for (int n = 2; n <= 5; ++n)
      for (int mask = 0; mask < (1 << n); ++mask)
        for (int drop : { 1, 4 })
        {
          auto obs = handEyeMounts<ro::Observation2D3D>(BothMoving, t, std::vector<Iso>(V.begin(), V.begin() + n));
          for (int i = 0; i < n; ++i)
          {
            obs[i].correspondence_set = see(K, pts, V[i], Iso::Identity());
            if (mask >> i & 1)
              obs[i].correspondence_set.resize(pts.size() - drop);
          }
          bool refused = throws([&]() { ro::measureIntrinsicCalibrationAccuracy(obs, K, t.cam, t.tgt, Iso::Identity(), 1e-6); });
          bool equal = mask == 0 || mask == (1 << n) - 1;
          c.require(refused == !equal, "observations with ", n, " sizes (mask ", mask, ") ", refused ? "refused" : "accepted");
          c.eval("sizes" + str(n) + "," + str(mask) + "," + str(drop));
          c.outcome(equal ? "accepted" : "refused");
        }
  });
  s.add("empty", [=](Ctx& c) {
    ro::IntrinsicCalibrationAccuracyResult r;
    bool refused = throws([&]() { r = ro::measureIntrinsicCalibrationAccuracy({}, intrinsics()[0], Iso::Identity(), Iso::Identity(), Iso::Identity(), 1.0); });
    c.require(refused || (!(std::fabs(r.pos_error.first) < 1e300)), "no observations, but a statistic: ", r.pos_error.first);
    c.eval(std::string("empty"));
  });
}

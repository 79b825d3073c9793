// LIBS: opt
// C03: PnP from 2D, 3D and several cameras.
#include "scenes.h"

using namespace kit;

static std::vector<Iso> poses(bool th)
{
  std::vector<Eigen::Matrix3d> R = { Eigen::Matrix3d::Identity(), rot({ 1, 0, 0 }, PI), rot({ 0, 1, 0 }, PI), rot({ 0, 0, 1 }, PI),
                                     rot({ 1, 0, 0 }, PI - 0.2),  rot({ 0, 0, 1 }, PI / 2), rot({ 0, 0, 1 }, -PI / 2), rot({ 1, 1, 0 }, 0.5),
                                     rot({ 1, -2, 3 }, 2.2),      rot({ 0.3, 1, 0.2 }, PI - 1e-4), rot({ 1, 0, 0 }, 1e-7), rot({ 1, 0, 0 }, 0.05) };
  if (th)
    for (int i = 0; i < 6; ++i)
      for (int k = 0; k < 3; ++k)
        R.push_back(rot(V3(1 + i, 2 - i, k - 1), 0.4 + 0.45 * i));
  std::vector<V3> t = { { 0, 0, 1 }, { 0.2, -0.15, 0.6 }, { -0.5, 0.4, 3.0 } };
  std::vector<Iso> v;
  for (auto& r : R)
    for (auto& x : t)
      v.push_back(make(r, x));
  return v;
}
static std::vector<std::vector<V3>> targets()
{
  std::vector<std::vector<V3>> v;
  v.push_back(grid(4, 5, 0.05, -0.1, -0.075));
  auto g3 = grid3d(0.25);
  for (auto& p : g3)
    p -= V3(0.12, 0.1, 0.07);
  v.push_back(g3);
  v.push_back({ { -0.15, -0.12, 0 }, { 0.14, -0.1, 0 }, { 0.12, 0.15, 0 }, { -0.13, 0.11, 0 } });
  v.push_back({ { -0.15, -0.1, 0.02 }, { 0.2, -0.1, -0.05 }, { 0.0, 0.2, 0.06 }, { 0.05, 0.02, -0.1 }, { -0.1, 0.1, 0.1 }, { 0.15, 0.15, 0.12 } });
  v.push_back(grid(10, 10, 0.03, -0.13, -0.12));
  return v;
}
static std::vector<std::pair<std::string, Iso>> offsets(bool th)
{
  std::vector<std::pair<std::string, Iso>> v = { { "none", Iso::Identity() } };
  int k = 0;
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
        if (x || y || z)
        {
          ++k;
          if (!th && k % 4 != 1)
            continue;
          v.push_back({ "rt" + str(k), rpyxyz(0.1 * x, 0.1 * y, 0.15 * z, 0.03 * z, 0.03 * x, 0.05 * y) });
        }
  return v;
}
static const double TOL = 2e-5, COST = 1e-6;

void vf::define(vf::Suite& s)
{
  s.property = "C03";
  s.rule = "full product of true pose (identity, half turns, near-identity, near-pi, generic) x target shape x intrinsic set x guess offset x "
           "point order for the 2D and 3D estimators; every rotation-free guess; every camera arrangement x visibility subset of (camera, "
           "point group) for the multi-camera estimator, which is also compared with the single-camera one";
  s.assumptions = { "guesses lie within about 0.25 rad and 8 cm of the truth; point sets contain at least four points in general position or on a plane" };
  bool th = s.thorough;
  auto P = poses(th);
  for (size_t pi = 0; pi < P.size(); ++pi)
    for (size_t ti = 0; ti < targets().size(); ++ti)
      for (size_t k = 0; k < intrinsics().size(); ++k)
      {
        Iso truth = P[pi];
        s.add("single/pose" + str(pi) + "/target" + str(ti) + "/k" + str(k), [=](vf::Ctx& c) {
          auto pts = targets()[ti];
          auto K = intrinsics()[k];
          auto off = offsets(th);
          if ((truth.linear() - Eigen::Matrix3d::Identity()).norm() < 0.2)
            off.push_back({ "no-rotation", inv(truth) * make(Eigen::Matrix3d::Identity(), truth.translation() + V3(0.02, -0.03, 0.05)) });
          for (auto& o : off)
            for (int order = 0; order < 2; ++order)
            {
              std::string w = "guess=" + o.first + " order=" + str(order);
              ro::PnPProblem p;
              ro::PnPProblem3D q;
              ro::MultiCameraPnPProblem m;
              p.intr = K;
              for (auto& x : pts)
              {
                Corr2 a;
                a.in_target = x;
                a.in_image = project(K, xf(truth, x));
                p.correspondences.push_back(a);
                Corr3 b;
                b.in_target = x;
                b.in_image = xf(truth, x);
                q.correspondences.push_back(b);
              }
              if (order)
              {
                std::rotate(p.correspondences.begin(), p.correspondences.begin() + 1, p.correspondences.end());
                std::reverse(q.correspondences.begin(), q.correspondences.end());
              }
              p.camera_to_target_guess = q.camera_to_target_guess = truth * o.second;
              if (o.first == "no-rotation")
                p.camera_to_target_guess.linear() = q.camera_to_target_guess.linear() = Eigen::Matrix3d::Identity();
              auto r2 = ro::optimize(p);
              c.require(r2.converged && r2.final_cost_per_obs < COST, "2D ", w, ": converged=", r2.converged, " cost ", r2.final_cost_per_obs);
              requireSame(c, r2.camera_to_target, truth, TOL, TOL, "2D " + w);
              auto r3 = ro::optimize(q);
              c.require(r3.converged && r3.final_cost_per_obs < COST, "3D ", w, ": converged=", r3.converged, " cost ", r3.final_cost_per_obs);
              requireSame(c, r3.camera_to_target, truth, TOL, TOL, "3D " + w);
              m.intr = { K };
              m.base_to_camera = { Iso::Identity() };
              m.image_observations = { p.correspondences };
              m.base_to_target_guess = p.camera_to_target_guess;
              auto rm = ro::optimize(m);
              c.require(rm.converged && rm.final_cost_per_obs < COST, "multi ", w, ": converged=", rm.converged, " cost ", rm.final_cost_per_obs);
              requireSame(c, rm.base_to_target, truth, TOL, TOL, "multi (one camera at the base) " + w);
              c.eval(c.case_id + w);
            }
        });
      }
  // many features, many cameras
  for (int n : { 100, 130, 260, 520, 1040 })
    for (size_t k = 0; k < intrinsics().size(); ++k)
      s.add("large/" + str(n) + "/k" + str(k), [=](vf::Ctx& c) {
        for (size_t pi = 0; pi < P.size(); pi += 5)
          for (int g = 0; g < 2; ++g)
          {
            Iso truth = P[pi];
            ro::PnPProblem p;
            ro::PnPProblem3D q;
            p.intr = intrinsics()[k];
            for (auto& x : grid(n / 10, 10, 0.3 / (n / 10), -0.1, -0.1))
            {
              Corr2 a;
              a.in_target = x;
              a.in_image = project(p.intr, xf(truth, x));
              p.correspondences.push_back(a);
              Corr3 b;
              b.in_target = x;
              b.in_image = xf(truth, x);
              q.correspondences.push_back(b);
            }
            // the only feature that tells the pose is the last one of the list
            if (g)
              for (int j = 0; j + 4 < n; ++j)
              {
                p.correspondences[j] = p.correspondences[j % 3 ? 0 : 1];
                q.correspondences[j] = q.correspondences[j % 3 ? 0 : 1];
              }
            p.camera_to_target_guess = q.camera_to_target_guess = truth * rpyxyz(0.05, -0.04, 0.06, 0.01, 0.01, 0.02);
            auto r2 = ro::optimize(p);
            std::string w = "pose " + str(pi) + " kind " + str(g);
            if (!g)
            {
              c.require(r2.converged && r2.final_cost_per_obs < COST, "2D ", w, ": converged=", r2.converged, " cost ", r2.final_cost_per_obs);
              requireSame(c, r2.camera_to_target, truth, TOL, TOL, "2D " + w);
            }
            auto r3 = ro::optimize(q);
            c.require(r3.converged && r3.final_cost_per_obs < COST, "3D ", w, ": converged=", r3.converged, " cost ", r3.final_cost_per_obs);
            requireSame(c, r3.camera_to_target, truth, 2 * TOL, 2 * TOL, "3D " + w);
            c.eval(c.case_id + w);
          }
      });
  for (int nc : { 4, 5, 8, 9, 13, 17 })
    for (int only = -1; only < nc; ++only)
      s.add("cameras/" + str(nc) + "/" + str(only), [=](vf::Ctx& c) {
        auto sc = multiScene(nc, 6, 0, 0, 0);
        for (int img = 0; img < 6; ++img)
        {
          ro::MultiCameraPnPProblem p;
          p.intr = sc.intr;
          p.base_to_camera = sc.cams;
          for (int a = 0; a < nc; ++a)
            p.image_observations.push_back(only < 0 || only == a ? see(sc, a, img) : Corr2::Set());
          p.base_to_target_guess = sc.tgts[img] * rpyxyz(0.05, -0.08, 0.1, 0.02, -0.02, 0.03);
          auto r = ro::optimize(p);
          std::string w = "image " + str(img);
          c.require(r.converged && r.final_cost_per_obs < COST, w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
          requireSame(c, r.base_to_target, sc.tgts[img], 5e-5, 5e-5, w);
          c.eval(c.case_id + w);
        }
      });
  // cameras that see next to nothing beside one that sees everything, at every place of the list
  for (int nc : { 2, 3, 4 })
    for (int few = 1; few <= 3; ++few)
      s.add("few/" + str(nc) + "/" + str(few), [=](vf::Ctx& c) {
        auto sc = multiScene(nc, 6, 0, 0, 0);
        for (int whole = 0; whole < nc; ++whole)
          for (int img = 0; img < 6; ++img)
          {
            ro::MultiCameraPnPProblem p;
            p.intr = sc.intr;
            p.base_to_camera = sc.cams;
            for (int a = 0; a < nc; ++a)
            {
              auto all = see(sc, a, img);
              if (a == whole)
                p.image_observations.push_back(all);
              else
                p.image_observations.emplace_back(all.begin() + (a + img) % 3, all.begin() + (a + img) % 3 + few);
            }
            p.base_to_target_guess = sc.tgts[img] * rpyxyz(0.05, -0.08, 0.1, 0.02, -0.02, 0.03);
            auto r = ro::optimize(p);
            std::string w = "whole " + str(whole) + " image " + str(img);
            c.require(r.converged && r.final_cost_per_obs < COST, w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
            requireSame(c, r.base_to_target, sc.tgts[img], 5e-5, 5e-5, w);
            c.eval(c.case_id + w);
          }
      });
  // several cameras: each camera sees a subset of the four quadrants of the target
  for (int nc = 1; nc <= 3; ++nc)
  {
    int groups = nc == 3 && !th ? 2 : nc == 3 ? 3 : 4;
    for (int mask = 1; mask < (1 << (nc * groups)); ++mask)
      s.add("multi/" + str(nc) + "/vis" + str(mask), [=](vf::Ctx& c) {
        for (int variant = 0; variant < 2; ++variant)
          for (int target = 0; target < 2; ++target)
          {
            auto sc = multiScene(nc, 6, target, 0, variant);
            if (variant == 1)
            {
              // first camera exactly at the base
              Iso g = inv(sc.cams[0]);
              for (auto& x : sc.cams)
                x = g * x;
              sc.cams[0] = Iso::Identity();
              for (auto& x : sc.tgts)
                x = g * x;
            }
            int img = (mask + variant) % 6;
            std::vector<int> order(nc);
            for (int i = 0; i < nc; ++i)
              order[i] = i;
            do
            {
              ro::MultiCameraPnPProblem p;
              size_t total = 0;
              for (int a : order)
              {
                p.intr.push_back(sc.intr[a]);
                p.base_to_camera.push_back(sc.cams[a]);
                Corr2::Set set;
                auto all = see(sc, a, img);
                for (size_t j = 0; j < all.size(); ++j)
                  if (mask >> (a * groups + int(j % groups)) & 1)
                    set.push_back(all[j]);
                total = std::max(total, set.size());
                p.image_observations.push_back(set);
              }
              if (total < 4)
                return;
              for (int g = 0; g < 2; ++g)
              {
                p.base_to_target_guess = sc.tgts[img] * (g ? rpyxyz(0.05, -0.08, 0.1, 0.02, -0.02, 0.03) : Iso::Identity());
                auto r = ro::optimize(p);
                std::string w = "variant=" + str(variant) + " target=" + str(target) + " guess=" + str(g) + " first=" + str(order[0]);
                c.require(r.converged && r.final_cost_per_obs < COST, w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
                requireSame(c, r.base_to_target, sc.tgts[img], 5e-5, 5e-5, w);
                c.eval(c.case_id + w + str(order.back()));
              }
            } while (std::next_permutation(order.begin(), order.end()));
          }
      });
  }
}

// LIBS: opt
// C01: hand-eye calibration recovers the truth (2D and 3D sensors, all mounts).
#include "scenes.h"

using namespace kit;

static std::vector<Iso> cams()
{
  return { Iso::Identity(), rpyxyz(0.1, -0.2, 0.3, 0.05, -0.03, 0.12), rpyxyz(PI, 0.05, -1.2, -0.2, 0.1, 0.3),
           rpyxyz(-1.6, 1.2, 2.9, 0.5, 0.6, -0.7) };
}
static std::vector<Iso> tgts()
{
  return { Iso::Identity(), rpyxyz(-0.4, 0.3, 0.9, 0.1, 0.2, -0.05), rpyxyz(0.02, PI - 0.01, 0.4, -0.6, 0.3, 0.8) };
}
static std::vector<Iso> offsets()
{
  return { Iso::Identity(), rpyxyz(0.08, 0, 0, 0.02, 0, 0), rpyxyz(0, -0.08, 0.05, 0, 0.02, -0.03), rpyxyz(-0.05, 0.05, -0.2, 0.01, -0.02, 0.04),
           rpyxyz(0, 0, 0, 0.03, -0.03, 0.05) };
}
struct Scene
{
  std::vector<V3> pts;
  std::vector<Iso> ct;
};
static Scene scene(int target, int nviews)
{
  Scene s;
  s.pts = target == 0 ? grid(4, 5, 0.04) : grid3d(0.12);
  s.ct = views(0.8, centre(s.pts));
  s.ct.resize(nviews);
  return s;
}
/** which features are visible in view i under feature pattern f */
static bool visible(int f, int i, int j, int n)
{
  if (f > 10)  // f - 10 features in each view, others in the next one
    return (j * 7 + i * 9) % n < f - 10;
  switch (f)
  {
    case 0:
      return true;
    case 1:
      return j != (i * 3) % n;  // one feature missing, another one in each view
    case 2:
      return (i + j) % 2 == 0;  // checkerboard
    case 3:
      return i != 1;  // one empty observation
    case 4:
      return i != 2 || j == 5 % n;  // one observation with a single feature
    default:
      return j >= i;  // ragged
  }
}
template <class Problem>
struct Sensor;
template <>
struct Sensor<ro::ExtrinsicHandEyeProblem2D3D>
{
  using Obs = ro::Observation2D3D;
  static void set(ro::ExtrinsicHandEyeProblem2D3D& p, const CameraIntrinsics& k) { p.intr = k; }
  static V2 see(const CameraIntrinsics& k, const V3& q) { return project(k, q); }
  using Corr = Corr2;
};
template <>
struct Sensor<ro::ExtrinsicHandEyeProblem3D3D>
{
  using Obs = ro::Observation3D3D;
  static void set(ro::ExtrinsicHandEyeProblem3D3D&, const CameraIntrinsics&) {}
  static V3 see(const CameraIntrinsics&, const V3& q) { return q; }
  using Corr = Corr3;
};

template <class Problem>
Problem build(Mount m, const HandEyeTruth& t, const Scene& s, const CameraIntrinsics& k, int pattern, int order)
{
  using S = Sensor<Problem>;
  Problem p;
  S::set(p, k);
  p.observations = handEyeMounts<typename S::Obs>(m, t, s.ct);
  int n = s.pts.size();
  for (size_t i = 0; i < s.ct.size(); ++i)
    for (int j = 0; j < n; ++j)
      if (visible(pattern, i, j, n))
      {
        typename S::Corr c;
        c.in_target = s.pts[j];
        c.in_image = S::see(k, xf(s.ct[i], s.pts[j]));
        p.observations[i].correspondence_set.push_back(c);
      }
  if (order == 1)
    std::reverse(p.observations.begin(), p.observations.end());
  if (order == 2)
  {
    std::rotate(p.observations.begin(), p.observations.begin() + 2, p.observations.end());
    for (auto& o : p.observations)
      std::reverse(o.correspondence_set.begin(), o.correspondence_set.end());
  }
  return p;
}

template <class Problem>
void addFamily(vf::Suite& s, const std::string& name, bool two_d)
{
  auto K = intrinsics();
  auto C = cams();
  auto T = tgts();
  auto G = offsets();
  std::vector<int> nv = s.thorough ? std::vector<int>{ 4, 6, 10 } : std::vector<int>{ 5 };
  for (int m = 0; m < 5; ++m)
    for (size_t ci = 0; ci < C.size(); ++ci)
      for (size_t ti = 0; ti < T.size(); ++ti)
        for (size_t gc = 0; gc < G.size(); ++gc)
          for (size_t k = 0; k < (two_d ? K.size() : 1); ++k)
          {
            std::string id = name + "/m" + str(m) + "/cam" + str(ci) + "/tgt" + str(ti) + "/guess" + str(gc) + "/k" + str(k);
            bool th = s.thorough;
            s.add(id, [=](vf::Ctx& c) {
              auto G = offsets();
              HandEyeTruth t{ cams()[ci], tgts()[ti] };
              for (int nviews : nv)
                for (int target = 0; target < 2; ++target)
                  for (int pattern = 0; pattern < 6; ++pattern)
                    for (int order = 0; order < 3; ++order)
                      for (size_t gt = (th ? 0 : (gc * 2) % G.size()); gt < (th ? G.size() : (gc * 2) % G.size() + 1); ++gt)
                      {
                        Scene sc = scene(target, nviews);
                        Problem p = build<Problem>((Mount)m, t, sc, intrinsics()[k], pattern, order);
                        p.camera_mount_to_camera_guess = t.cam * G[gc];
                        p.target_mount_to_target_guess = t.tgt * inv(G[gt]);
                        std::string w = "views=" + str(nviews) + " target=" + str(target) + " features=" + str(pattern) +
                                        " order=" + str(order) + " guess=" + str(gc) + "," + str(gt);
                        auto r = ro::optimize(p);
                        c.require(r.converged, w, ": did not converge");
                        c.require(r.final_cost_per_obs >= 0 && r.final_cost_per_obs < (two_d ? 1e-6 : 1e-10), w, ": final cost ",
                                  r.final_cost_per_obs);
                        requireSame(c, r.camera_mount_to_camera, t.cam, 2e-5, 2e-5, w + " camera");
                        requireSame(c, r.target_mount_to_target, t.tgt, 2e-5, 2e-5, w + " target");
                        c.eval(c.case_id + w);
                      }
            });
          }
}

/** every number of observations up to the bound, every feature count of the grid family, repeated observations */
template <class Problem>
void addSizes(vf::Suite& s, const std::string& name, bool two_d)
{
  int maxn = s.thorough ? 60 : 40;
  std::vector<int> sizes = { 64, 65, 100, 129, 257 };
  for (int n = maxn; n >= 3; --n)
    sizes.push_back(n);
  for (int n : sizes)
    for (int m = 0; m < 5; ++m)
      s.add(name + "/size/n" + str(n) + "/m" + str(m), [=](vf::Ctx& c) {
        for (int shape = n > 60 ? 3 : 0; shape < (n % 20 ? 4 : 5); ++shape)
          for (int dup = 0; dup < 2; ++dup)
          {
            HandEyeTruth t{ cams()[(n + m) % 4], tgts()[n % 3] };
            Scene sc;
            sc.pts = shape == 0 ? grid(2, 2, 0.15) : shape == 1 ? grid(3, 7, 0.03, -1.0, 2.0) : shape == 2 ? grid(11, 10, 0.02) : shape == 3 ? grid3d(0.1) : grid(18, 19, 0.015);
            sc.ct = manyViews(0.8, centre(sc.pts), n);
            if (dup)
              sc.ct.push_back(sc.ct[1]);
            auto p = build<Problem>((Mount)m, t, sc, intrinsics()[n % 3], 0, dup);
            p.camera_mount_to_camera_guess = t.cam * offsets()[3];
            p.target_mount_to_target_guess = t.tgt * offsets()[1];
            auto r = ro::optimize(p);
            std::string w = "shape=" + str(shape) + " duplicate=" + str(dup);
            c.require(r.converged, w, ": did not converge");
            c.require(r.final_cost_per_obs < (two_d ? 1e-6 : 1e-10), w, ": final cost ", r.final_cost_per_obs);
            requireSame(c, r.camera_mount_to_camera, t.cam, 2e-5, 2e-5, w + " camera");
            requireSame(c, r.target_mount_to_target, t.tgt, 2e-5, 2e-5, w + " target");
            c.eval(c.case_id + w);
          }
      });
  // one, two or three features in each view
  for (int few : { 1, 2, 3 })
    for (int m = 0; m < 5; ++m)
      for (int n : { 9, 16, 30 })
        s.add(name + "/few" + str(few) + "/n" + str(n) + "/m" + str(m), [=](vf::Ctx& c) {
          for (int target = 0; target < 2; ++target)
            for (size_t ci = 0; ci < cams().size(); ++ci)
              for (size_t g = 0; g < offsets().size(); ++g)
              {
                HandEyeTruth t{ cams()[ci], tgts()[(n + ci) % 3] };
                Scene sc;
                sc.pts = target == 0 ? grid(4, 5, 0.04) : grid3d(0.12);
                sc.ct = manyViews(0.8, centre(sc.pts), n);
                auto p = build<Problem>((Mount)m, t, sc, intrinsics()[n % 3], 10 + few, 0);
                p.camera_mount_to_camera_guess = t.cam * offsets()[g];
                p.target_mount_to_target_guess = t.tgt * inv(offsets()[(g * 2) % 5]);
                auto r = ro::optimize(p);
                std::string w = "target=" + str(target) + " cam=" + str(ci) + " guess=" + str(g);
                c.require(r.converged, w, ": did not converge");
                c.require(r.final_cost_per_obs < (two_d ? 1e-6 : 1e-10), w, ": final cost ", r.final_cost_per_obs);
                requireSame(c, r.camera_mount_to_camera, t.cam, 2e-5, 2e-5, w + " camera");
                requireSame(c, r.target_mount_to_target, t.tgt, 2e-5, 2e-5, w + " target");
                c.eval(c.case_id + w);
              }
        });
}

void vf::define(vf::Suite& s)
{
  s.property = "C01";
  s.rule = "full product of sensor kind x mount configuration x true camera pose x true target pose x guess offset x intrinsic set x "
           "target shape x feature pattern x observation/feature order (x number of views in the thorough tier); every tuple is a "
           "distinct problem with at least 3 non-degenerate views; plus every number of observations up to 40 (60), repeated observations and four target sizes; plus every (observation, feature, depth) placement of a feature at "
           "the image plane";
  s.assumptions = { "guesses lie within about 0.2 rad and 6 cm of the truth (the documented need for a reasonable guess)",
                    "views and target shapes come from a fixed alphabet of non-degenerate arrangements" };
  addFamily<ro::ExtrinsicHandEyeProblem2D3D>(s, "2d", true);
  addFamily<ro::ExtrinsicHandEyeProblem3D3D>(s, "3d", false);
  addSizes<ro::ExtrinsicHandEyeProblem2D3D>(s, "2d", true);
  addSizes<ro::ExtrinsicHandEyeProblem3D3D>(s, "3d", false);
  // visibility of the guess
  for (int m = 0; m < 3; ++m)
    for (int i = 0; i < 4; ++i)
      s.add("behind/m" + str(m) + "/obs" + str(i), [=](vf::Ctx& c) {
        HandEyeTruth t{ cams()[2], tgts()[1] };
        Scene sc = scene(0, 4);
        for (size_t g = 0; g < offsets().size(); ++g)
          for (int pos = 0; pos <= 20; pos += 5)
            for (double depth : { -1.0, -1e-3, -1e-8, 0.05, 0.3 })
            {
              auto p = build<ro::ExtrinsicHandEyeProblem2D3D>((Mount)m, t, sc, intrinsics()[1], 0, 0);
              p.camera_mount_to_camera_guess = t.cam * offsets()[g];
              p.target_mount_to_target_guess = t.tgt;
              // a point that lies at the given depth under the guess
              Iso ct = inv(p.camera_mount_to_camera_guess) * inv(p.observations[i].to_camera_mount) *
                       p.observations[i].to_target_mount * p.target_mount_to_target_guess;
              Corr2 q;
              q.in_target = xf(inv(ct), V3(0.01, 0.02, depth));
              q.in_image = V2(612, 380);
              auto& cs = p.observations[i].correspondence_set;
              cs.insert(cs.begin() + pos, q);
              bool refused = false;
              try
              {
                ro::optimize(p);
              }
              catch (const ro::CovarianceException&)
              {
              }
              catch (const std::exception&)
              {
                refused = true;
              }
              c.require(refused == (depth < 0), "feature ", pos, " of observation ", i, " at depth ", depth, " under the guess: ",
                        refused ? "refused" : "accepted");
              c.eval(c.case_id + str(g) + "/" + str(pos) + "/" + std::to_string(depth));
              c.outcome(refused ? "guess refused" : "guess accepted");
            }
      });
}

// LIBS: opt
// C04: intrinsic calibration recovers camera matrix, distortion and target poses.
#include "scenes.h"

using namespace kit;

struct Case
{
  int k, d, target, nview, guess, order;
  bool ext;
};
static const double DIST[][5] = { { 0, 0, 0, 0, 0 },
                                  { 0.1, 0, 0, 0, 0 },
                                  { -0.2, 0.1, 0, 0, 0 },
                                  { 0, 0, 0.004, 0, 0 },
                                  { 0, 0, 0, -0.006, 0 },
                                  { 0, 0, 0, 0, 0.05 },
                                  { 0, -0.08, 0, 0, 0 },
                                  { 0.08, -0.06, 0.003, -0.002, 0.02 },
                                  { -0.15, 0.05, -0.004, 0.005, -0.01 } };
static std::vector<CameraIntrinsics> cams()
{
  return { intr(550, 550, 320, 240), intr(1200, 900, 610.5, 377.25), intr(700, 760, 500, 380) };
}
static std::array<double, 9> truthOf(int k, int d)
{
  auto K = cams()[k];
  return { K.values[0], K.values[1], K.values[2], K.values[3], DIST[d][0], DIST[d][1], DIST[d][2], DIST[d][3], DIST[d][4] };
}
static CameraIntrinsics guessOf(int k, int g)
{
  auto K = cams()[k];
  const double f[][4] = { { 1, 1, 0, 0 }, { 1.03, 1.03, 8, -6 }, { 0.97, 1.02, -10, 10 }, { 1.05, 0.96, 0, 15 } };
  return intr(K.values[0] * f[g][0], K.values[1] * f[g][1], K.values[2] + f[g][2], K.values[3] + f[g][3]);
}
static std::vector<V3> targetOf(int t)
{
  return t == 0 ? grid(6, 8, 0.035) : t == 1 ? grid(9, 7, 0.03, -0.1, 0.05) : grid(5, 5, 0.05, -0.1, -0.1);
}
static std::vector<int> orderOf(int n, int o)
{
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i)
    v[i] = o == 0 ? i : o == 1 ? n - 1 - i : (i + n / 2) % n;
  return v;
}
static void check(vf::Ctx& c, const ro::IntrinsicEstimationResult& r, const std::array<double, 9>& truth, const std::vector<Iso>& poses,
                  const std::string& w)
{
  c.require(r.converged, w, ": not converged");
  for (int i = 0; i < 4; ++i)
    c.near(r.intrinsics.values[i], truth[i], 1e-3 * std::max(1.0, truth[i] / 500), w, ": intrinsic parameter ", i);
  const double tol[] = { 1e-4, 2e-3, 1e-5, 1e-5, 1e-2 };
  for (int i = 0; i < 5; ++i)
    c.near(r.distortions[i], truth[4 + i], tol[i], w, ": distortion coefficient ", i);
  c.require(r.final_cost_per_obs <= 1e-7, w, ": final cost ", r.final_cost_per_obs);
  c.require(r.target_transforms.size() == poses.size(), w, ": ", r.target_transforms.size(), " target transforms for ", poses.size(), " images");
  for (size_t i = 0; i < poses.size(); ++i)
    requireSame(c, r.target_transforms[i], poses[i], 1e-5, 1e-5, w + ": target pose " + str(i));
}
static ro::IntrinsicEstimationProblem problem(const std::array<double, 9>& truth, const std::vector<Iso>& poses, const std::vector<V3>& pts,
                                              int ragged)
{
  ro::IntrinsicEstimationProblem p;
  for (size_t i = 0; i < poses.size(); ++i)
  {
    Corr2::Set s;
    for (size_t j = 0; j < pts.size(); ++j)
    {
      if (ragged && (i + j) % 3 == 0)
        continue;
      Corr2 q;
      q.in_target = pts[j];
      q.in_image = projectDistorted(truth, xf(poses[i], pts[j]));
      s.push_back(q);
    }
    if (ragged)
      std::rotate(s.begin(), s.begin() + i % s.size(), s.end());
    p.image_observations.push_back(s);
  }
  return p;
}
static void run(vf::Ctx& c, const Case& k)
{
  auto pts = targetOf(k.target);
  auto truth = truthOf(k.k, k.d);
  auto base = frontViews(0.5, centre(pts), std::min(k.nview, 18));
  for (int i = 18; i < k.nview; ++i)
    base.push_back(make(V3(0, 0, 1), 0, V3(0, 0, 0.02 * (i / 18))) * base[i % 18]);
  std::vector<Iso> poses;
  for (int i : orderOf(k.nview, k.order))
    poses.push_back(base[i]);
  if (k.ext)
    for (auto& p : poses)  // with guesses any in-plane turn is possible
      p = make(V3(0, 0, 1), 2.2, V3::Zero()) * p;
  auto p = problem(truth, poses, pts, k.order);
  p.intrinsics_guess = guessOf(k.k, k.guess);
  if (k.ext)
  {
    p.use_extrinsic_guesses = true;
    for (size_t i = 0; i < poses.size(); ++i)
      p.extrinsic_guesses.push_back(poses[i] * rpyxyz(0.05, -0.04, 0.06 * (i % 3), 0.01, -0.01, 0.02));
  }
  auto r = ro::optimize(p);
  check(c, r, truth, poses, c.case_id);
  VX x = VX::Map(r.distortions.data(), 5);
  c.eval(sigOf(vf::hashStr(c.case_id), x));
}
/** an image whose pose cannot be estimated is skipped, whatever its place; the others are still estimated */
static void skipped(vf::Ctx& c, int k, int at, int how)
{
  auto pts = targetOf(0);
  auto truth = truthOf(k, 7);
  auto poses = frontViews(0.5, centre(pts), 6);
  auto p = problem(truth, poses, pts, 0);
  p.intrinsics_guess = guessOf(k, 1);
  auto& im = p.image_observations[at];
  if (how == 0)
    im.clear();
  else if (how == 1)
    im.resize(8);  // one row of the target only
  else
    std::fill(im.begin(), im.end(), im[3]);
  ro::IntrinsicEstimationResult r;
  try
  {
    r = ro::optimize(p);
  }
  catch (const std::exception&)
  {
    c.outcome("refused");
    c.eval(c.case_id);
    return;
  }
  // either reported as failure, or the right answer from the remaining images
  if (r.converged)
  {
    c.outcome("remaining images");
    for (int i = 0; i < 9; ++i)
      c.near(i < 4 ? r.intrinsics.values[i] : r.distortions[i - 4], truth[i], i < 4 ? 5e-3 : i == 8 ? 1e-2 : 2e-3, "parameter ", i);
    c.require(std::isfinite(r.final_cost_per_obs), "cost is not finite");
    c.require(r.target_transforms.size() == poses.size(), "number of target transforms");
    for (int i = 0; i < 6; ++i)
      if (i != at)
        requireSame(c, r.target_transforms[i], poses[i], 1e-5, 1e-5, "target pose " + str(i));
  }
  else
    c.outcome("not converged");
  c.eval(c.case_id);
}
/** guesses stay with their images when images are skipped: the views are turned so far apart that no other image's guess leads anywhere */
static void skippedGiven(vf::Ctx& c, int k, int mask, int turn)
{
  auto pts = targetOf(0);
  auto truth = truthOf(k, 7);
  const int n = 7;
  auto poses = frontViews(0.5, centre(pts), n);
  for (int i = 0; i < n; ++i)
    poses[i] = make(V3(0, 0, 1), turn ? PI * i : 2 * PI * i * 3 / n, V3::Zero()) * poses[i];
  auto p = problem(truth, poses, pts, 0);
  p.intrinsics_guess = guessOf(k, 1);
  p.use_extrinsic_guesses = true;
  for (int i = 0; i < n; ++i)
  {
    p.extrinsic_guesses.push_back(poses[i] * rpyxyz(0.05, -0.04, 0.06 * (i % 3), 0.01, -0.01, 0.02));
    if (mask >> i & 1)
      p.image_observations[i].clear();
  }
  auto r = ro::optimize(p);
  c.require(r.converged, "not converged");
  for (int i = 0; i < 9; ++i)
    c.near(i < 4 ? r.intrinsics.values[i] : r.distortions[i - 4], truth[i], i < 4 ? 5e-3 : i == 8 ? 1e-2 : 2e-3, "parameter ", i);
  c.require(r.target_transforms.size() == poses.size(), "number of target transforms");
  for (int i = 0; i < n; ++i)
    if (!(mask >> i & 1))
      requireSame(c, r.target_transforms[i], poses[i], 1e-5, 1e-5, "target pose " + str(i));
  c.eval(c.case_id);
}
/** some images show only a few points of the target */
static void few(vf::Ctx& c, int k, int mask, int points)
{
  auto pts = targetOf(0);
  auto truth = truthOf(k, 1);
  const int n = 6;
  auto poses = frontViews(0.5, centre(pts), n);
  auto p = problem(truth, poses, pts, 0);
  p.intrinsics_guess = guessOf(k, 1);
  // the corners of the grid first, then a spread over it
  std::vector<int> order = { 0, 7, 40, 47, 19, 28, 10, 37, 3, 44, 23, 24, 13, 34 };
  for (int i = 0; i < n; ++i)
    if (mask >> i & 1)
    {
      Corr2::Set s;
      for (int j = 0; j < points; ++j)
        s.push_back(p.image_observations[i][order[j]]);
      p.image_observations[i] = s;
    }
  auto r = ro::optimize(p);
  check(c, r, truth, poses, c.case_id);
  c.eval(c.case_id);
}
static void bad(vf::Ctx& c, int kind)
{
  auto pts = targetOf(0);
  auto truth = truthOf(0, 1);
  auto poses = frontViews(0.5, centre(pts), 4);
  auto p = problem(truth, poses, pts, 0);
  p.intrinsics_guess = guessOf(0, 0);
  if (kind == 0)
    p.image_observations.clear();
  if (kind == 1)
    for (auto& s : p.image_observations)
      s.clear();
  if (kind == 2)
  {
    p.use_extrinsic_guesses = true;
    p.extrinsic_guesses = std::vector<Iso>(poses.begin(), poses.end() - 1);
  }
  bool converged = false;
  std::string what;
  bool refused = throws([&] { converged = ro::optimize(p).converged; }, &what);
  c.require(refused || !converged, "bad data set ", kind, " is answered with a converged result");
  c.outcome(refused ? "refused" : "not converged");
  c.eval(c.case_id);
}

void vf::define(vf::Suite& s)
{
  s.property = "C04";
  s.rule = "3 cameras x 9 distortions x {3,4,6,10,18} views x 3 targets x 4 guesses x 3 image orders x built-in/given pose guesses, plus one "
           "unusable image at every position, up to three of seven images unusable with given guesses, images with few points, and undetermined data. Distinct = distinct configuration and answer.";
  for (int k = 0; k < 3; ++k)
    for (int d = 0; d < 9; ++d)
      for (int t = 0; t < 3; ++t)
        for (int n : { 3, 4, 6, 10, 18 })
          for (int g = 0; g < 4; ++g)
            for (int o = 0; o < 3; ++o)
            {
              bool ext = (g + o + d) % 2;
              s.add("cam" + str(k) + "/dist" + str(d) + "/target" + str(t) + "/views" + str(n) + "/guess" + str(g) + "/order" + str(o) +
                        (ext ? "/given" : "/builtin"),
                    [=](vf::Ctx& c) { run(c, { k, d, t, n, g, o, ext }); });
            }
  for (int k = 0; k < 3; ++k)
    for (int n : { 33, 65 })
      s.add("large/cam" + str(k) + "/views" + str(n), [=](vf::Ctx& c) { run(c, { k, 3 + k, k, n, 1, 0, true }); });
  for (int k = 0; k < 3; ++k)
    for (int at = 0; at < 6; ++at)
      for (int how = 0; how < 3; ++how)
        s.add("skipped/cam" + str(k) + "/image" + str(at) + "/how" + str(how), [=](vf::Ctx& c) { skipped(c, k, at, how); });
  for (int mask = 0; mask < 128; ++mask)
    if (__builtin_popcount(mask) <= 3)
      for (int turn = 0; turn < 2; ++turn)
        s.add("skipped-given/mask" + str(mask) + "/turn" + str(turn), [=](vf::Ctx& c) { skippedGiven(c, mask % 3, mask, turn); });
  for (int points : { 4, 5, 6, 8, 11, 14 })
    for (int mask = 1; mask < 64; ++mask)
      if (__builtin_popcount(mask) <= 2 || mask == 63)
        s.add("few-points/" + str(points) + "/mask" + str(mask), [=](vf::Ctx& c) { few(c, mask % 3, mask, points); });
  for (int kind = 0; kind < 3; ++kind)
    s.add("bad/" + str(kind), [=](vf::Ctx& c) { bad(c, kind); });
}

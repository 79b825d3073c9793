// LIBS: opt
// C02: the multi-static-camera calibrations.
#include "scenes.h"

using namespace kit;

static std::vector<Iso> offsets()
{
  return { Iso::Identity(), rpyxyz(0.05, -0.03, 0.04, 0.02, 0.01, -0.03), rpyxyz(-0.04, 0.05, -0.06, -0.02, 0.03, 0.02) };
}
static Iso off(int g, int k) { return g == 0 ? Iso::Identity() : offsets()[1 + (k + g) % 2]; }

static const double TOL = 2e-5, COST = 1e-6;

/** bit (c*nimg+i) of mask: camera c sees image i; true when every camera and image is connected to the rest */
static bool connected(int mask, int nc, int ni)
{
  std::vector<int> comp(nc + ni, -1);
  std::vector<int> st{ 0 };
  comp[0] = 0;
  while (!st.empty())
  {
    int v = st.back();
    st.pop_back();
    for (int c = 0; c < nc; ++c)
      for (int i = 0; i < ni; ++i)
        if (mask >> (c * ni + i) & 1)
        {
          if (v == c && comp[nc + i] < 0)
          {
            comp[nc + i] = 0;
            st.push_back(nc + i);
          }
          if (v == nc + i && comp[c] < 0)
          {
            comp[c] = 0;
            st.push_back(c);
          }
        }
  }
  return std::count(comp.begin(), comp.end(), 0) == nc + ni;
}
static bool sees(long mask, int c, int i, int ni) { return mask >> (c * ni + i) & 1; }
static int popc(int m, int c, int ni)
{
  int k = 0;
  for (int i = 0; i < ni; ++i)
    k += m >> (c * ni + i) & 1;
  return k;
}

// ---- full problem: cameras + wrist_to_target.  cp / ip: order in which cameras / images are listed; ragged: unseen images are
// left out of the camera's list (otherwise an empty set is listed)
static void fullCase(vf::Ctx& c, const MultiScene& s, long mask, const std::vector<int>& cp, const std::vector<int>& ip, bool ragged,
                     int g, int pattern, const std::string& w)
{
  int ni = s.tgts.size();
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.wrist_to_target_guess = s.wt * off(g, 0);
  for (int a : cp)
  {
    p.intr.push_back(s.intr[a]);
    p.base_to_camera_guess.push_back(s.cams[a] * off(g, a));
    std::vector<Iso> wp;
    std::vector<Corr2::Set> ob;
    for (int i : ip)
      if (sees(mask, a, i, ni))
      {
        wp.push_back(s.wrists[i]);
        ob.push_back(see(s, a, i, pattern));
      }
      else if (!ragged)
      {
        wp.push_back(s.wrists[i]);
        ob.emplace_back();
      }
    p.wrist_poses.push_back(wp);
    p.image_observations.push_back(ob);
  }
  auto r = ro::optimize(p);
  c.require(r.converged, w, ": did not converge");
  c.require(r.final_cost_per_obs >= 0 && r.final_cost_per_obs < COST, w, ": final cost ", r.final_cost_per_obs);
  c.require(r.base_to_camera.size() == cp.size(), w, ": ", r.base_to_camera.size(), " cameras returned");
  for (size_t k = 0; k < cp.size(); ++k)
    requireSame(c, r.base_to_camera[k], s.cams[cp[k]], TOL, TOL, w + " camera " + str(k));
  requireSame(c, r.wrist_to_target, s.wt, TOL, TOL, w + " wrist to target");
  c.eval(c.case_id + w);
}

static void onlyCase(vf::Ctx& c, const MultiScene& s, long mask, const std::vector<int>& cp, const std::vector<int>& ip, bool fix, int g,
                     int pattern, const std::string& w)
{
  int ni = s.tgts.size();
  ro::ExtrinsicMultiStaticCameraOnlyProblem p;
  p.fix_first_camera = fix;
  for (size_t k = 0; k < cp.size(); ++k)
  {
    int a = cp[k];
    p.intr.push_back(s.intr[a]);
    p.base_to_camera_guess.push_back(fix && k == 0 ? s.cams[a] : s.cams[a] * off(g, a));
    std::vector<Corr2::Set> ob;
    for (int i : ip)
      ob.push_back(sees(mask, a, i, ni) ? see(s, a, i, pattern) : Corr2::Set());
    p.image_observations.push_back(ob);
  }
  for (int i : ip)
    p.base_to_target_guess.push_back(s.tgts[i] * off(g, i + 1));
  auto r = ro::optimize(p);
  c.require(r.converged, w, ": did not converge");
  c.require(r.final_cost_per_obs >= 0 && r.final_cost_per_obs < COST, w, ": final cost ", r.final_cost_per_obs);
  c.require(r.base_to_camera.size() == cp.size() && r.base_to_target.size() == ip.size(), w, ": wrong result sizes");
  if (fix)
    requireSame(c, r.base_to_camera[0], p.base_to_camera_guess[0], 1e-9, 1e-9, w + " fixed camera");
  // without a fixed camera the whole scene may move rigidly: compare relative to the first camera
  Iso gauge = fix ? Iso::Identity() : Iso(s.cams[cp[0]] * inv(r.base_to_camera[0]));
  for (size_t k = 0; k < cp.size(); ++k)
  {
    requireRigid(c, r.base_to_camera[k], 1e-9, w + " camera");
    requireSame(c, gauge * r.base_to_camera[k], s.cams[cp[k]], TOL, TOL, w + " camera " + str(k));
  }
  for (size_t k = 0; k < ip.size(); ++k)
  {
    requireRigid(c, r.base_to_target[k], 1e-9, w + " target");
    requireSame(c, gauge * r.base_to_target[k], s.tgts[ip[k]], TOL, TOL, w + " target " + str(k));
  }
  c.eval(c.case_id + w);
}

static void wristCase(vf::Ctx& c, const MultiScene& s, long mask, const std::vector<int>& cp, const std::vector<int>& ip, const Iso& corr,
                      int g, int pattern, const std::string& w)
{
  int ni = s.tgts.size();
  ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
  p.wrist_to_target_guess = s.wt * off(g, 0);
  for (int a : cp)
  {
    p.intr.push_back(s.intr[a]);
    p.base_to_camera_guess.push_back(inv(corr) * s.cams[a]);
    std::vector<Corr2::Set> ob;
    for (int i : ip)
      ob.push_back(sees(mask, a, i, ni) ? see(s, a, i, pattern) : Corr2::Set());
    p.image_observations.push_back(ob);
  }
  for (int i : ip)
    p.wrist_poses.push_back(s.wrists[i]);
  auto r = ro::optimize(p);
  c.require(r.converged, w, ": did not converge");
  c.require(r.final_cost_per_obs >= 0 && r.final_cost_per_obs < COST, w, ": final cost ", r.final_cost_per_obs);
  c.require(r.base_to_camera.size() == cp.size(), w, ": ", r.base_to_camera.size(), " cameras returned");
  for (size_t k = 0; k < cp.size(); ++k)
  {
    requireSame(c, r.base_to_camera[k], s.cams[cp[k]], TOL, TOL, w + " camera " + str(k));
    // rigid: relative poses are exactly those of the input
    requireSame(c, inv(r.base_to_camera[0]) * r.base_to_camera[k], inv(p.base_to_camera_guess[0]) * p.base_to_camera_guess[k], 1e-9, 1e-9,
                w + " relative camera pose");
  }
  requireSame(c, r.wrist_to_target, s.wt, TOL, TOL, w + " wrist to target");
  c.eval(c.case_id + w);
}
static std::vector<Iso> corrections() { return { Iso::Identity(), rpyxyz(0.05, -0.04, 0.08, 0.05, -0.03, 0.04), rpyxyz(0, 0, 0, 0.06, 0.05, -0.04) }; }

static std::vector<int> iota(int n)
{
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i)
    v[i] = i;
  return v;
}

void vf::define(vf::Suite& s)
{
  s.property = "C02";
  s.rule = "every 3 x 3 visibility pattern with cameras or images that see nothing (free target); three problem kinds x every visibility pattern (camera x image bit matrix) that leaves the problem determined, for the listed "
           "camera/image counts x target shape x wrist-to-target pose x guess offset x feature pattern; every permutation of cameras and of "
           "images for full and one sparse visibility pattern; every camera count up to 6 and image count up to 14 (30 thorough)";
  s.assumptions = { "guesses lie within about 0.1 rad and 4 cm of the truth", "without a fixed camera the free-target problem is determined up to one rigid motion of the whole scene" };
  bool th = s.thorough;
  // visibility patterns
  std::vector<std::pair<int, int>> dims = { { 1, 4 }, { 2, 4 }, { 3, 3 } };
  if (th)
  {
    dims.push_back({ 2, 6 });
    dims.push_back({ 4, 3 });
  }
  for (auto d : dims)
  {
    int nc = d.first, ni = d.second;
    for (int mask = 0; mask < (1 << (nc * ni)); ++mask)
    {
      if (!connected(mask, nc, ni))
        continue;
      int best = 0;
      for (int c = 0; c < nc; ++c)
        best = std::max(best, popc(mask, c, ni));
      std::string id = str(nc) + "x" + str(ni) + "/vis" + str(mask);
      int t = mask % 2, wt = mask % 3, g = th ? -1 : 1 + mask % 2, pat = (mask / 2) % 2;
      std::vector<int> gs = th ? std::vector<int>{ 0, 1, 2 } : std::vector<int>{ 1 + mask % 2 };
      if (best >= 3)
        s.add("full/" + id, [=](vf::Ctx& c) {
          auto sc = multiScene(nc, ni, t, wt, mask % 2);
          for (int g : gs)
            for (bool ragged : { false, true })
              fullCase(c, sc, mask, iota(nc), iota(ni), ragged, g, pat, "guess=" + str(g) + " ragged=" + str(ragged));
        });
      s.add("only/" + id, [=](vf::Ctx& c) {
        auto sc = multiScene(nc, ni, t, wt, mask % 2);
        for (int g : gs)
          for (bool fix : { false, true })
            onlyCase(c, sc, mask, iota(nc), iota(ni), fix, g, pat, "guess=" + str(g) + " fixed=" + str(fix));
      });
      if (best >= 3)
        s.add("wrist/" + id, [=](vf::Ctx& c) {
          auto sc = multiScene(nc, ni, t, wt, mask % 2);
          for (int g : gs)
            for (size_t k = 0; k < corrections().size(); ++k)
              wristCase(c, sc, mask, iota(nc), iota(ni), corrections()[k], g, pat, "guess=" + str(g) + " correction=" + str(k));
        });
    }
  }
  // cameras and images that see nothing: they are returned as they were given, the others are found
  for (int mask = 1; mask < 512; ++mask)
  {
    std::vector<int> cs, is;
    for (int k = 0; k < 3; ++k)
    {
      if (mask & (7 << (3 * k)))
        cs.push_back(k);
      if (mask & (0111 << k))
        is.push_back(k);
    }
    int packed = 0;
    for (size_t a = 0; a < cs.size(); ++a)
      for (size_t i = 0; i < is.size(); ++i)
        if (sees(mask, cs[a], is[i], 3))
          packed |= 1 << (a * is.size() + i);
    if ((cs.size() == 3 && is.size() == 3) || !connected(packed, cs.size(), is.size()))
      continue;
    s.add("blind/vis" + str(mask), [=](vf::Ctx& c) {
      auto sc = multiScene(3, 3, mask % 2, mask % 3, mask % 2);
      for (int g = 0; g < 3; ++g)
        for (bool fix : { false, true })
        {
          std::string w = "guess=" + str(g) + " fixed=" + str(fix);
          ro::ExtrinsicMultiStaticCameraOnlyProblem p;
          p.fix_first_camera = fix;
          p.intr = sc.intr;
          for (int a = 0; a < 3; ++a)
          {
            p.base_to_camera_guess.push_back(fix && a == 0 ? sc.cams[a] : sc.cams[a] * off(g, a));
            p.image_observations.emplace_back();
            for (int i = 0; i < 3; ++i)
              p.image_observations.back().push_back(sees(mask, a, i, 3) ? see(sc, a, i, g % 2) : Corr2::Set());
          }
          for (int i = 0; i < 3; ++i)
            p.base_to_target_guess.push_back(sc.tgts[i] * off(g, i + 1));
          auto r = ro::optimize(p);
          c.require(r.converged && r.final_cost_per_obs < COST, w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
          c.require(r.base_to_camera.size() == 3 && r.base_to_target.size() == 3, w, ": wrong result sizes");
          bool held = fix && cs[0] == 0;  // otherwise what is seen may move as a whole
          Iso gauge = held ? Iso::Identity() : Iso(sc.cams[cs[0]] * inv(r.base_to_camera[cs[0]]));
          for (int a = 0; a < 3; ++a)
            if (std::count(cs.begin(), cs.end(), a) && !(fix && a == 0))
              requireSame(c, gauge * r.base_to_camera[a], sc.cams[a], TOL, TOL, w + " camera " + str(a));
            else
              requireSame(c, r.base_to_camera[a], p.base_to_camera_guess[a], 1e-9, 1e-9, w + " camera that is not estimated " + str(a));
          for (int i = 0; i < 3; ++i)
            if (std::count(is.begin(), is.end(), i))
              requireSame(c, gauge * r.base_to_target[i], sc.tgts[i], TOL, TOL, w + " target " + str(i));
            else
              requireSame(c, r.base_to_target[i], p.base_to_target_guess[i], 1e-9, 1e-9, w + " target seen by no camera " + str(i));
          c.eval(c.case_id + w);
        }
    });
  }
  // permutations
  int pc = 3, pi = th ? 5 : 4;
  auto CP = permutations(pc), IP = permutations(pi);
  for (size_t a = 0; a < CP.size(); ++a)
    for (size_t b = 0; b < IP.size(); ++b)
    {
      auto cp = CP[a], ip = IP[b];
      s.add("perm/c" + str(a) + "/i" + str(b), [=](vf::Ctx& c) {
        for (int sparse = 0; sparse < 2; ++sparse)
          for (int wt = 0; wt < 3; ++wt)
          {
            auto sc = multiScene(pc, pi, wt % 2, wt, wt % 2);
            int mask = (1 << (pc * pi)) - 1;
            if (sparse)  // camera 1 misses image 0, camera 2 misses image 3
              mask &= ~(1 << (1 * pi + 0)) & ~(1 << (2 * pi + 3));
            std::string w = "sparse=" + str(sparse) + " wt=" + str(wt);
            fullCase(c, sc, mask, cp, ip, sparse, 1, 0, "full " + w);
            for (bool fix : { false, true })
              onlyCase(c, sc, mask, cp, ip, fix, 2, 1, "only " + w + " fixed=" + str(fix));
            wristCase(c, sc, mask, cp, ip, corrections()[1], 1, 0, "wrist " + w);
          }
      });
    }
  // few features of each image seen by some cameras: together they still determine everything
  for (int few : { 1, 2, 3 })
    for (int nc : { 2, 3, 4 })
      for (int ni : { 8, 12 })
        s.add("few/" + str(few) + "/" + str(nc) + "x" + str(ni), [=](vf::Ctx& c) {
          for (int target = 0; target < 2; ++target)
            for (int wt = 0; wt < 3; ++wt)
              for (int g = 0; g < 3; ++g)
              {
                auto sc = multiScene(nc, ni, target, wt, ni / 4 % 2);
                long mask = (1L << (nc * ni)) - 1;
                std::string w = "target=" + str(target) + " wt=" + str(wt) + " guess=" + str(g);
                for (int pat : { 10 + few, 20 + few })
                {
                  std::string v = w + " pattern=" + str(pat);
                  fullCase(c, sc, mask, iota(nc), iota(ni), false, g, pat, "full " + v);
                  if (pat < 20)
                    for (bool fix : { false, true })
                      onlyCase(c, sc, mask, iota(nc), iota(ni), fix, g, pat, "only " + v + " fixed=" + str(fix));
                  wristCase(c, sc, mask, iota(nc), iota(ni), corrections()[g], g, pat, "wrist " + v);
                }
              }
        });
  // sizes
  int maxc = 6, maxi = th ? 30 : 14;
  std::vector<std::pair<int, int>> sizes = { { 1, 40 }, { 2, 33 }, { 3, 65 }, { 7, 5 }, { 8, 3 }, { 9, 4 }, { 12, 4 }, { 17, 3 } };
  for (int nc = 1; nc <= maxc; ++nc)
    for (int ni = 3; ni <= maxi; ++ni)
      sizes.push_back({ nc, ni });
  for (auto [nc_, ni_] : sizes)
    for (int nc = nc_, ni = ni_, once = 1; once--;)
      s.add("size/" + str(nc) + "x" + str(ni), [=](vf::Ctx& c) {
        for (int target = 0; target < 3; ++target)
        {
          auto sc = multiScene(nc, ni, target, (nc + ni) % 3, ni % 2);
          // every camera sees everything: ragged mask is expressed through see() patterns only
          for (int g = 0; g < 3; ++g)
          {
            std::string w = "target=" + str(target) + " guess=" + str(g);
            {
              ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
              p.wrist_to_target_guess = sc.wt * off(g, 0);
              p.intr = sc.intr;
              for (int a = 0; a < nc; ++a)
              {
                p.base_to_camera_guess.push_back(sc.cams[a] * off(g, a));
                p.wrist_poses.push_back(sc.wrists);
                p.image_observations.emplace_back();
                for (int i = 0; i < ni; ++i)
                  p.image_observations.back().push_back(see(sc, a, i, g % 2));
              }
              auto r = ro::optimize(p);
              c.require(r.converged && r.final_cost_per_obs < COST, "full ", w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
              for (int a = 0; a < nc; ++a)
                requireSame(c, r.base_to_camera[a], sc.cams[a], TOL, TOL, "full " + w + " camera " + str(a));
              requireSame(c, r.wrist_to_target, sc.wt, TOL, TOL, "full " + w + " wrist to target");
              c.eval(c.case_id + "full" + w);
            }
            {
              ro::ExtrinsicMultiStaticCameraOnlyProblem p;
              p.fix_first_camera = true;
              p.intr = sc.intr;
              for (int a = 0; a < nc; ++a)
              {
                p.base_to_camera_guess.push_back(a ? sc.cams[a] * off(g, a) : sc.cams[a]);
                p.image_observations.emplace_back();
                for (int i = 0; i < ni; ++i)
                  p.image_observations.back().push_back(see(sc, a, i, g % 2));
              }
              for (int i = 0; i < ni; ++i)
                p.base_to_target_guess.push_back(sc.tgts[i] * off(g, i));
              auto r = ro::optimize(p);
              c.require(r.converged && r.final_cost_per_obs < COST, "only ", w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
              for (int a = 0; a < nc; ++a)
                requireSame(c, r.base_to_camera[a], sc.cams[a], TOL, TOL, "only " + w + " camera " + str(a));
              for (int i = 0; i < ni; ++i)
                requireSame(c, r.base_to_target[i], sc.tgts[i], TOL, TOL, "only " + w + " target " + str(i));
              c.eval(c.case_id + "only" + w);
            }
            {
              ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
              Iso corr = corrections()[g];
              p.intr = sc.intr;
              p.wrist_to_target_guess = sc.wt * off(g, 0);
              p.wrist_poses = sc.wrists;
              for (int a = 0; a < nc; ++a)
              {
                p.base_to_camera_guess.push_back(inv(corr) * sc.cams[a]);
                p.image_observations.emplace_back();
                for (int i = 0; i < ni; ++i)
                  p.image_observations.back().push_back(see(sc, a, i, g % 2));
              }
              auto r = ro::optimize(p);
              c.require(r.converged && r.final_cost_per_obs < COST, "wrist ", w, ": converged=", r.converged, " cost ", r.final_cost_per_obs);
              for (int a = 0; a < nc; ++a)
                requireSame(c, r.base_to_camera[a], sc.cams[a], TOL, TOL, "wrist " + w + " camera " + str(a));
              requireSame(c, r.wrist_to_target, sc.wt, TOL, TOL, "wrist " + w + " wrist to target");
              c.eval(c.case_id + "wrist" + w);
            }
          }
        }
      });
}

// LIBS: opt
// C12: noise qualification. Oracle: statistics written out from the poses (true ones, and the individually estimated ones).
#include "scenes.h"
#include <rct_optimizations/validation/noise_qualification.h>

using namespace kit;
using Q = Eigen::Quaterniond;
using LD = long double;

static double angle(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b)
{
  Eigen::Matrix3d r = a.transpose() * b;
  V3 v(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
  return std::atan2(v.norm(), r.trace() - 1);
}
/** maximiser of the sum of squared dot products by power iteration; gap: how well it is determined (0..1) */
static Eigen::Matrix<LD, 4, 1> meanOf(const std::vector<Q>& qs, double& gap)
{
  Eigen::Matrix<LD, 4, 4> M = Eigen::Matrix<LD, 4, 4>::Zero();
  for (auto& q : qs)
  {
    Eigen::Matrix<LD, 4, 1> v = q.coeffs().cast<LD>();
    M += v * v.transpose();
  }
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix<LD, 4, 4>> es(M);
  gap = double((es.eigenvalues()[3] - es.eigenvalues()[2]) / (LD)qs.size());
  return es.eigenvectors().col(3);
}
static Eigen::Matrix3d toR(const Eigen::Matrix<LD, 4, 1>& v)
{
  LD x = v[0], y = v[1], z = v[2], w = v[3];
  Eigen::Matrix3d R;
  R << double(1 - 2 * (y * y + z * z)), double(2 * (x * y - z * w)), double(2 * (x * z + y * w)), double(2 * (x * y + z * w)),
      double(1 - 2 * (x * x + z * z)), double(2 * (y * z - x * w)), double(2 * (x * z - y * w)), double(2 * (y * z + x * w)),
      double(1 - 2 * (x * x + y * y));
  return R;
}
static void checkQ(vf::Ctx& c, const ro::QuaternionStats& got, const std::vector<Q>& qs, double tol, const std::string& w)
{
  double gap;
  auto m = meanOf(qs, gap);
  c.require(std::fabs(got.mean.norm() - 1) < 1e-12, w, ": mean quaternion has norm ", got.mean.norm());
  if (gap < 1e-3)
  {
    c.outcome("ambiguous mean");
    return;
  }
  Eigen::Matrix3d R = toR(m);
  double d = angle(got.mean.toRotationMatrix(), R);
  c.require(d <= tol / gap, w, ": mean orientation off by ", d);
  if (qs.size() < 2)
    return;
  double sum = 0;
  for (auto& q : qs)
    sum += std::pow(angle(R, q.toRotationMatrix()), 2);
  double want = std::sqrt(sum / (qs.size() - 1));
  c.require(std::fabs(got.stdev - want) <= 4 * tol / gap, w, ": angular spread ", got.stdev, ", true ", want);
  c.outcome(want < 1e-9 ? "zero spread" : "spread");
}
static void checkP(vf::Ctx& c, const ro::PositionStats& got, const std::vector<V3>& ps, double tol, const std::string& w)
{
  for (int k = 0; k < 3; ++k)
  {
    LD m = 0, v = 0;
    for (auto& p : ps)
      m += p[k];
    m /= ps.size();
    for (auto& p : ps)
      v += (p[k] - m) * (p[k] - m);
    v /= ps.size();
    c.near(got.mean[k], (double)m, tol, w + ": mean position, axis " + str(k));
    c.near(got.stdev[k], (double)std::sqrt(v), 2 * tol, w + ": position deviation, axis " + str(k));
  }
}

static ro::PnPProblem problem2(const Iso& ct, const Iso& guess, int noise)
{
  ro::PnPProblem p;
  p.intr = intrinsics()[noise > 1 ? noise % 3 : 1];
  p.camera_to_target_guess = guess;
  auto pts = grid(4, 5, 0.06);
  if (noise)  // repeated observations need not see the same features
    pts.resize(pts.size() - 2 * (noise % 3));
  for (size_t i = 0; i < pts.size(); ++i)
  {
    Corr2 c;
    c.in_target = pts[i];
    c.in_image = project(p.intr, xf(ct, pts[i]));
    if (noise)
      c.in_image += 0.4 * V2(std::sin(3.1 * i + noise), std::cos(1.3 * i * noise + 1));
    p.correspondences.push_back(c);
  }
  return p;
}
static ro::PnPProblem3D problem3(const Iso& ct, const Iso& guess, int noise)
{
  ro::PnPProblem3D p;
  p.camera_to_target_guess = guess;
  auto pts = grid(4, 5, 0.06);
  if (noise)
    pts.resize(pts.size() - 2 * (noise % 3));
  for (size_t i = 0; i < pts.size(); ++i)
  {
    Corr3 c;
    c.in_target = pts[i];
    c.in_image = xf(ct, pts[i]);
    if (noise)
      c.in_image += 0.002 * V3(std::sin(3.1 * i + noise), std::cos(1.3 * i * noise + 1), std::sin(0.7 * i * noise));
    p.correspondences.push_back(c);
  }
  return p;
}
static ro::PnPNoiseStat stat(const std::vector<ro::PnPProblem>& p) { return ro::qualifyNoise2D(p); }
static ro::PnPNoiseStat stat(const std::vector<ro::PnPProblem3D>& p) { return ro::qualifyNoise3D(p); }

/** families of poses; within a family all are close enough for a meaningful mean */
static std::vector<Iso> family(int f)
{
  V3 ctr(0.12, 0.09, 0);
  auto v = views(0.9, ctr);
  auto about = [&](const Iso& b, const V3& ax, double a, const V3& t) {
    return make(V3(0, 0, 1), 0, t) * b * make(ax, 0, ctr) * make(ax, a, V3::Zero()) * make(ax, 0, -ctr);
  };
  switch (f)
  {
    case 0:  // a static target, tiny differences
      return { v[1], about(v[1], { 1, 0, 0 }, 1e-4, { 1e-4, 0, 0 }), about(v[1], { 0, 1, 0 }, -2e-4, { 0, -3e-4, 0 }), about(v[1], { 0, 0, 1 }, 3e-4, { 0, 0, 5e-4 }),
               about(v[1], { 1, 1, 1 }, 1e-3, { -1e-3, 1e-3, 1e-3 }) };
    case 1:  // different views: large differences
      return { v[0], v[1], v[2], v[5], v[8] };
    case 2:  // the half turn: neighbouring orientations have opposite quaternion signs
    {
      Iso h = make(V3(0, 0, 1), PI, V3::Zero());
      Iso b = make(Eigen::Matrix3d(rot({ 1, 0, 0 }, 0.15) * h.linear()), V3::Zero());
      b.translation() = V3(0.02, -0.03, 0.8) - b.linear() * ctr;
      return { b, about(b, { 0, 0, 1 }, 0.02, { 0.01, 0, 0 }), about(b, { 0, 0, 1 }, -0.02, { -0.01, 0, 0 }), about(b, { 1, 0, 0 }, 0.05, { 0, 0.02, 0 }),
               about(b, { 0, 1, 0 }, -0.3, { 0, 0, 0.2 }) };
    }
    default:  // facing camera (turned about x by pi), spread about one axis
    {
      auto fv = frontViews(0.9, ctr, 1)[0];
      return { fv, about(fv, { 0, 0, 1 }, 0.1, { 0, 0, 0 }), about(fv, { 0, 0, 1 }, -0.1, { 0, 0, 0 }), about(fv, { 0, 0, 1 }, 0.2, { 0, 0, 0 }), about(fv, { 0, 0, 1 }, 0.5, { 0, 0, 0.3 }) };
    }
  }
}
/** guess for the k-th problem: near the truth, or (bad) one from which nothing useful comes */
static Iso guessFor(const Iso& p, int k)
{
  V3 ctr(0.12, 0.09, 0);
  return p * make(V3(1, -1, 0.5), 0, ctr) * make(V3(1, -1, 0.5), 0.02 + 0.01 * k, V3(0.002, 0.001, 0.003 * k)) * make(V3(1, 0, 0), 0, -ctr);
}

template <class P>
static void sequence(vf::Ctx& c, const std::vector<P>& ps, const std::vector<Iso>* truth, const std::string& w)
{
  std::vector<V3> t;
  std::vector<Q> q;
  for (auto& p : ps)
  {
    decltype(ro::optimize(p)) r;
    try
    {
      r = ro::optimize(p);
    }
    catch (const std::exception&)
    {
      c.outcome("estimate impossible");
      return;
    }
    if (!r.converged)
    {
      c.outcome("not converged, left out");
      continue;
    }
    t.push_back(r.camera_to_target.translation());
    q.push_back(Q(Eigen::Matrix3d(r.camera_to_target.linear())));
  }
  if (t.empty())
    return;
  auto s = stat(ps);
  checkP(c, s.p_stat, t, 1e-9, w);
  checkQ(c, s.q_stat, q, 1e-9, w);
  if (truth)
  {
    c.require(t.size() == ps.size(), w, ": a pose estimate failed");
    t.clear();
    q.clear();
    for (auto& p : *truth)
    {
      t.push_back(p.translation());
      q.push_back(Q(Eigen::Matrix3d(p.linear())));
    }
    checkP(c, s.p_stat, t, 2e-5, w + " (truth)");
    checkQ(c, s.q_stat, q, 2e-5, w + " (truth)");
  }
  uint64_t h = sigOf(vf::hashStr(c.case_id + w), s.p_stat.mean);
  c.eval(sigOf(h, s.p_stat.stdev));
}

void vf::define(Suite& s)
{
  s.property = "C12";
  s.rule = "all sequences (with repetition) of up to 4 poses from families of 5 poses x {2D,3D} x {noise-free,noisy}; all sequences of up to 5 "
           "quaternions x all sign patterns; statistics compared with written-out statistics of the true and of the individually estimated poses";
  s.assumptions = { "pose estimates themselves are judged by C03", "mean orientation judged when the largest eigenvalue is separated by more than 1e-3" };

  // ---------------------------------------------------------------- quaternions, every sign pattern
  for (int fam = 0; fam < 5; ++fam)
    for (int n = 1; n <= (s.thorough ? 6 : 5); ++n)
      s.add("quaternions/" + str(fam) + "/" + str(n), [=](Ctx& c) {
        std::vector<Q> al;
        const double ang[5][4] = { { 0, 1e-6, -1e-6, 1e-3 }, { 0, 0.3, -0.3, 0.9 }, { PI, PI - 0.1, -PI + 0.1, PI - 0.4 }, { 1.0, 1.5, 2.0, 2.5 }, { 0, PI / 2, PI, -PI / 2 } };
        const V3 ax[5] = { { 1, 2, 3 }, { 1, 0, 0 }, { 0, 0, 1 }, { -1, 1, 0.2 }, { 0, 1, 0 } };
        for (int i = 0; i < 4; ++i)
        {
          V3 a = ax[fam];
          if (fam != 1 && i == 3)
            a += V3(0.1, -0.2, 0.3);
          al.push_back(Q(rot(a, ang[fam][i])));
        }
        long total = 1;
        for (int i = 0; i < n; ++i)
          total *= 4;
        for (long code = 0; code < total; ++code)
        {
          std::vector<Q> base;
          bool equal = true;
          long k = code;
          for (int i = 0; i < n; ++i, k /= 4)
          {
            base.push_back(al[k % 4]);
            equal = equal && k % 4 == code % 4;
          }
          for (int sg = 0; sg < (1 << n); ++sg)
          {
            if (n > 4 && !(sg & 1) && !c.thorough)
              continue;
            auto qs = base;
            for (int i = 0; i < n; ++i)
              if (sg >> i & 1)
                qs[i].coeffs() *= -1;
            std::string w = "sequence " + std::to_string(code) + " signs " + str(sg);
            ro::QuaternionStats st = ro::computeQuaternionStats(qs);
            checkQ(c, st, qs, 1e-12, w);
            Q m = ro::computeQuaternionMean(qs);
            c.require(angle(m.toRotationMatrix(), st.mean.toRotationMatrix()) < 1e-9, w, ": mean and statistics disagree");
            c.require(std::fabs(m.norm() - 1) < 1e-12, w, ": mean is not a unit quaternion");
            if (equal)
            {
              c.require(angle(m.toRotationMatrix(), qs[0].toRotationMatrix()) < 1e-12, w, ": mean of equal rotations is another rotation");
              if (n > 1)
                c.near(st.stdev, 0, 1e-12, w + ": spread of equal rotations");
            }
            else
              c.require(st.stdev > 1e-9, w, ": no spread reported for different rotations");
            c.eval(vf::mix(vf::hashStr(c.case_id), code * 1024 + sg));
          }
        }
      });

  // long lists
  for (int n : { 10, 33, 65, 100, 130, 257, 1030 })
    s.add("quaternions/long/" + str(n), [=](Ctx& c) {
      for (int kind = 0; kind < 8; ++kind)
      {
        std::vector<Q> qs;
        for (int i = 0; i < n; ++i)
        {
          // a common rotation, with one different at the end, or different throughout
          double a = kind < 4 ? 0.3 * (kind + 1) + (i + 1 == n ? 0.2 : 0) : 0.8 * kind + 0.15 * std::sin(1.7 * i);
          qs.push_back(Q(rot(V3(1, kind - 3, 0.3 * (kind % 3)), a)));
          if ((i * 7 + kind) % 3 == 0)
            qs.back().coeffs() *= -1;
        }
        std::string w = "list " + str(kind);
        checkQ(c, ro::computeQuaternionStats(qs), qs, 1e-11, w);
        c.eval(c.case_id + w);
      }
    });
  for (int n : { 12, 33, 65, 130 })
    for (int dim = 2; dim <= 3; ++dim)
      s.add("observations/long/" + str(dim) + "d/" + str(n), [=](Ctx& c) {
        for (int noisy = 0; noisy < 2; ++noisy)
        {
          auto al = family(1);
          std::vector<Iso> truth;
          std::vector<ro::PnPProblem> p2;
          std::vector<ro::PnPProblem3D> p3;
          for (int i = 0; i < n; ++i)
          {
            truth.push_back(al[i * i % 5]);
            Iso g = guessFor(truth.back(), i % 4);
            if (dim == 2)
              p2.push_back(problem2(truth.back(), g, noisy ? 1 + i : 0));
            else
              p3.push_back(problem3(truth.back(), g, noisy ? 1 + i : 0));
          }
          if (dim == 2)
            sequence(c, p2, noisy ? nullptr : &truth, noisy ? "noisy" : "exact");
          else
            sequence(c, p3, noisy ? nullptr : &truth, noisy ? "noisy" : "exact");
        }
      });

  // ---------------------------------------------------------------- sequences of observations
  for (int fam = 0; fam < 4; ++fam)
    for (int n = 1; n <= (s.thorough ? 5 : 4); ++n)
      for (int first = 0; first < 5; ++first)
        for (int dim = 2; dim <= 3; ++dim)
          s.add("observations/" + str(dim) + "d/" + str(fam) + "/" + str(n) + "/" + str(first), [=](Ctx& c) {
            auto al = family(fam);
            long total = 1;
            for (int i = 1; i < n; ++i)
              total *= 5;
            for (long code = 0; code < total; ++code)
            {
              std::vector<int> seq = { first };
              long k = code;
              for (int i = 1; i < n; ++i, k /= 5)
                seq.push_back(k % 5);
              for (int noisy = 0; noisy < 2; ++noisy)
              {
                std::string w = "sequence " + str(first) + "+" + std::to_string(code) + (noisy ? " noisy" : "");
                std::vector<Iso> truth;
                std::vector<ro::PnPProblem> p2;
                std::vector<ro::PnPProblem3D> p3;
                for (int i = 0; i < n; ++i)
                {
                  truth.push_back(al[seq[i]]);
                  Iso g = guessFor(al[seq[i]], i);
                  int nz = noisy ? 1 + i : 0;
                  if (dim == 2)
                    p2.push_back(problem2(truth.back(), g, nz));
                  else
                    p3.push_back(problem3(truth.back(), g, nz));
                }
                if (dim == 2)
                  sequence(c, p2, noisy ? nullptr : &truth, w);
                else
                  sequence(c, p3, noisy ? nullptr : &truth, w);
              }
            }
          });

  // ---------------------------------------------------------------- estimates that fail are left out, wherever they are
  for (int dim = 2; dim <= 3; ++dim)
    s.add("failing/" + str(dim) + "d", [=](Ctx& c) {
      auto al = family(1);
      for (int n = 1; n <= 4; ++n)
        for (int bad = 0; bad < (1 << n); ++bad)
          for (int kind = 0; kind < 4; ++kind)
          {
            std::vector<ro::PnPProblem> p2;
            std::vector<ro::PnPProblem3D> p3;
            for (int i = 0; i < n; ++i)
            {
              Iso g = guessFor(al[i], i);
              if (bad >> i & 1)
              {
                if (kind == 0)
                  g = make(V3(1, 1, 0.3), 3.0, V3(0.7, 1, -3));
                if (kind == 1)
                  g = make(V3(1, 1, 0.3), 2.7, V3(0.7, 1, 3));
                if (kind == 2)
                  g = make(V3(1, 0, 0.3), 3.0, V3(0, 0, 3));
                if (kind == 3)
                  g = make(V3(1, 0.5, 0.3), 3.0, V3(0.7, 0, 0.3));
              }
              auto a = problem2(al[i], g, 0);
              auto b = problem3(al[i], g, 0);
              if (kind == 3 && (bad >> i & 1))
              {
                for (size_t j = 0; j < a.correspondences.size(); ++j)
                {
                  a.correspondences[j].in_image += 300 * V2(std::sin(j * 3.1), std::cos(j * 2.2));
                  b.correspondences[j].in_image += 5 * V3(std::sin((j + 1) * 3.1), std::cos((j + 1) * 2.2), std::sin((j + 1) * (j + 1)));
                }
              }
              p2.push_back(a);
              p3.push_back(b);
            }
            std::string w = "mask " + str(bad) + " kind " + str(kind) + " n " + str(n);
            if (dim == 2)
              sequence(c, p2, nullptr, w);
            else
              sequence(c, p3, nullptr, w);
          }
    });
}

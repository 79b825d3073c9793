// LIBS: opt
// C11: homography check. Oracle: least-squares homography (h33 = 1, the documented formulation) in extended precision.
#include "scenes.h"
#include <rct_optimizations/validation/homography_validation.h>

using namespace kit;
using Idx = std::vector<size_t>;
using LD = long double;

struct Given : ro::CorrespondenceSampler
{
  Idx idx;
  Given(const Idx& i) : idx(i) {}
  Idx getSampleCorrespondenceIndices() const override { return idx; }
};

/** predicted image position of every target point, from the sampled correspondences */
static std::vector<V2> predict(const std::vector<V3>& tgt, const std::vector<V2>& img, const Idx& s)
{
  Eigen::Matrix<LD, Eigen::Dynamic, 8> A(2 * s.size(), 8);
  Eigen::Matrix<LD, Eigen::Dynamic, 1> b(2 * s.size());
  for (size_t i = 0; i < s.size(); ++i)
  {
    LD x = tgt[s[i]][0], y = tgt[s[i]][1], u = img[s[i]][0], v = img[s[i]][1];
    A.row(2 * i) << x, y, 1, 0, 0, 0, -u * x, -u * y;
    A.row(2 * i + 1) << 0, 0, 0, x, y, 1, -v * x, -v * y;
    b[2 * i] = u;
    b[2 * i + 1] = v;
  }
  Eigen::Matrix<LD, 8, 1> h = A.colPivHouseholderQr().solve(b);
  std::vector<V2> out;
  for (auto& p : tgt)
  {
    LD w = h[6] * p[0] + h[7] * p[1] + 1;
    out.push_back(V2((double)((h[0] * p[0] + h[1] * p[1] + h[2]) / w), (double)((h[3] * p[0] + h[4] * p[1] + h[5]) / w)));
  }
  return out;
}
/** do the sampled points determine a homography well? (smallest triangle among all 4-subsets is taken care of by the rank) */
static bool determined(const std::vector<V3>& tgt, const Idx& s)
{
  // four points, no three of them collinear, must be among the samples
  for (auto& q : subsets((int)s.size(), 4))
  {
    bool ok = true;
    for (auto& t : subsets(4, 3))
    {
      V3 a = tgt[s[q[t[0]]]], b = tgt[s[q[t[1]]]], c = tgt[s[q[t[2]]]];
      V3 n = (b - a).cross(c - a);
      ok = ok && n.norm() > 1e-3 * (b - a).norm() * (c - a).norm();
    }
    if (ok)
      return true;
  }
  return false;
}
struct Data
{
  std::vector<V3> tgt;
  std::vector<V2> img;
  std::vector<double> z;  // depth (3D only)
  bool d3 = false;
};
static Eigen::VectorXd run(const Data& d, const ro::CorrespondenceSampler& s)
{
  if (!d.d3)
  {
    Corr2::Set set;
    for (size_t i = 0; i < d.tgt.size(); ++i)
    {
      Corr2 c;
      c.in_image = d.img[i];
      c.in_target = d.tgt[i];
      set.push_back(c);
    }
    return ro::calculateHomographyError(set, s);
  }
  Corr3::Set set;
  for (size_t i = 0; i < d.tgt.size(); ++i)
  {
    Corr3 c;
    c.in_image = V3(d.img[i][0] * d.z[i], d.img[i][1] * d.z[i], d.z[i]);
    c.in_target = d.tgt[i];
    set.push_back(c);
  }
  return ro::calculateHomographyError(set, s);
}
static void check(vf::Ctx& c, const Data& d, const Idx& idx, const ro::CorrespondenceSampler& s, bool consistent, const std::string& what)
{
  Eigen::VectorXd e = run(d, s);
  c.require(e.size() == (long)d.tgt.size(), what, ": ", e.size(), " errors for ", d.tgt.size(), " correspondences");
  auto p = predict(d.tgt, d.img, idx);
  double scale = d.d3 ? 1 : 1000;
  for (size_t i = 0; i < d.tgt.size(); ++i)
  {
    double want = (p[i] - d.img[i]).norm() * (d.d3 ? std::fabs(d.z[i]) : 1.0);
    c.require(e[i] >= 0, what, ": negative error ", e[i], " at ", i);
    c.require(std::fabs(e[i] - want) <= 1e-6 * want + 1e-9 * scale, what, ": error of correspondence ", i, " is ", e[i], ", true ", want);
    if (consistent)
      c.require(e[i] <= 1e-8 * scale, what, ": consistent data has error ", e[i], " at ", i);
  }
  c.eval(sigOf(vf::hashStr(c.case_id + what), e));
}

/** the cameras: 2D with intrinsics, or 3D sensors (looking along +z or with the target behind them) */
static Data see(const std::vector<V3>& tgt, int view, int cam)
{
  Data d;
  d.tgt = tgt;
  auto v = views(1.0, centre(tgt));
  Iso p = v[view % v.size()];
  auto K = intrinsics();
  d.d3 = cam >= 3;
  if (cam == 4)
    p = make(V3(1, 0.2, 0), PI, V3::Zero()) * p;
  for (auto& t : tgt)
  {
    V3 q = xf(p, t);
    d.img.push_back(d.d3 ? V2(q[0] / q[2], q[1] / q[2]) : project(K[cam], q));
    d.z.push_back(q[2]);
  }
  return d;
}
static const char* camName[] = { "2d-a", "2d-b", "2d-c", "3d", "3d-behind" };

/** strided grid: stride features around every grid point */
static std::vector<V3> strided(int rows, int cols, int stride, int order)
{
  std::vector<V3> v;
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c)
      for (int k = 0; k < stride; ++k)
        v.emplace_back(0.05 * c + 0.02 * (k % 2) - 0.03, (order ? -1 : 1) * (0.05 * r + 0.02 * (k / 2)) + 0.01, 0);
  return v;
}

void vf::define(Suite& s)
{
  s.property = "C11";
  s.rule = "all grid shapes x strides x cameras x views with every single measurement displaced in turn; all subsets of correspondences that "
           "determine a homography as sample (and all orders of small samples); all random sampler sizes and a range of seeds";
  s.assumptions = { "the target origin has non-zero depth (documented formulation of the homography with its last element 1)",
                    "samples that do not determine a homography (no four points in general position) are not judged" };

  // ------------------------------------------------------------ grid sampler indices
  s.add("grid/indices", [](Ctx& c) {
    for (size_t r = 1; r <= 9; ++r)
      for (size_t q = 1; q <= 9; ++q)
        for (size_t st : { 1, 2, 3, 4, 7 })
        {
          ro::GridCorrespondenceSampler s(r, q, st);
          c.eval("grid" + str(r) + "," + str(q) + "," + str(st));
          if (r * q < 8)
          {
            c.require(throws([&]() { s.getSampleCorrespondenceIndices(); }), "grid ", r, "x", q, " has too few points but was accepted");
            c.outcome("refused");
            continue;
          }
          if (r < 2 || q < 2)
            continue;
          for (int rep = 0; rep < 2; ++rep)
          {
            auto i = s.getSampleCorrespondenceIndices();
            std::set<size_t> got(i.begin(), i.end()), want;
            for (size_t a : { (size_t)0, r - 1 })
              for (size_t b : { (size_t)0, q - 1 })
                want.insert((a * q + b) * st);
            c.require(i.size() == 4 && got == want, "corners of ", r, "x", q, " stride ", st, " are wrong");
          }
          c.outcome("corners");
        }
  });

  // ------------------------------------------------------------ grids seen by every camera, every single displacement
  std::vector<std::pair<int, int>> shapes = { { 9, 4 }, { 3, 13 }, { 12, 11 }, { 20, 17 } };
  for (int rows = 2; rows <= 5; ++rows)
    for (int cols = 2; cols <= 6; ++cols)
      shapes.push_back({ rows, cols });
  for (auto [rows_, cols_] : shapes)
    for (int stride : { 1, 4 })
      for (int rows = rows_, cols = cols_, once = 1; once--;)
      {
        if (rows * cols < 8)
          continue;
        for (int cam = 0; cam < 5; ++cam)
          s.add("grid/" + str(rows) + "x" + str(cols) + "x" + str(stride) + "/" + camName[cam], [=](Ctx& c) {
            ro::GridCorrespondenceSampler smp(rows, cols, stride);
            Idx idx = smp.getSampleCorrespondenceIndices();
            int nv = c.thorough ? 10 : 4;
            for (int v = 0; v < nv; ++v)
              for (int order = 0; order < 2; ++order)
              {
                Data d = see(strided(rows, cols, stride, order), 2 * v + order, cam);
                check(c, d, idx, smp, true, "consistent");
                double px = d.d3 ? 0.01 : 5;
                for (size_t k = 0; k < d.tgt.size(); k += d.tgt.size() > 120 ? 37 : 1)
                  for (int m = 0; m < (c.thorough ? 4 : 1); ++m)
                  {
                    Data n = d;
                    n.img[k] += px * (m % 2 ? 0.1 : 1.0) * V2(m < 2 ? 1 : -0.3, m < 2 ? -0.5 : 1);
                    check(c, n, idx, smp, false, "displaced " + str(k) + "/" + str(m));
                  }
                // everything displaced
                Data n = d;
                for (size_t k = 0; k < n.img.size(); ++k)
                  n.img[k] += px * 0.2 * V2(std::sin(1.7 * k + v), std::cos(2.3 * k));
                check(c, n, idx, smp, false, "all displaced");
              }
          });
      }

  // ------------------------------------------------------------ planes beside or across the x-y plane of the target frame
  for (int cam = 0; cam < 5; ++cam)
    for (int plane = 0; plane < 4; ++plane)
      s.add(std::string("plane/") + camName[cam] + "/" + str(plane), [=](Ctx& c) {
        const double z0[] = { 0.3, -0.2, 1, 0.05 }, zx[] = { 0, 0, 0, 0.4 }, zy[] = { 0, 0, 0, -0.3 };
        auto tgt = grid(3, 4, 0.05, -0.02, 0.03);
        for (auto& t : tgt)
          t[2] = z0[plane] + zx[plane] * t[0] + zy[plane] * t[1];
        ro::GridCorrespondenceSampler smp(3, 4, 1);
        Idx idx = smp.getSampleCorrespondenceIndices();
        for (int v = 0; v < 8; ++v)
        {
          Data d = see(tgt, v, cam);
          check(c, d, idx, smp, true, "consistent");
          for (size_t k = 0; k < d.tgt.size(); ++k)
          {
            Data n = d;
            n.img[k] += (d.d3 ? 0.01 : 5) * V2(1, -0.5);
            check(c, n, idx, smp, false, "displaced " + str(k));
          }
        }
      });

  // ------------------------------------------------------------ every sample of a small set
  for (int cam = 0; cam < 5; ++cam)
    for (int set = 0; set < 3; ++set)
      s.add(std::string("sample/") + camName[cam] + "/" + str(set), [=](Ctx& c) {
        std::vector<V3> tgt = set == 0 ? grid(2, 4, 0.06) : set == 1 ? grid(3, 4, 0.05, -0.05, 0.02) :
                                                                     std::vector<V3>{ { 0, 0, 0 }, { 0.2, 0.01, 0 }, { 0.05, 0.17, 0 }, { 0.21, 0.2, 0 }, { 0.1, 0.08, 0 }, { -0.06, 0.11, 0 },
                                                                                     { 0.13, -0.07, 0 }, { 0.3, 0.12, 0 }, { 0.02, 0.29, 0 }, { 0.17, 0.13, 0 } };
        Data d = see(tgt, set + cam, cam);
        Data n = d;
        double px = d.d3 ? 0.002 : 1;
        for (size_t k = 0; k < n.img.size(); ++k)
          n.img[k] += px * V2(std::sin(1.7 * k), std::cos(2.3 * k));
        for (int m = 4; m <= (int)tgt.size() / 2; ++m)
          for (auto& sub : subsets((int)tgt.size(), m))
          {
            Idx idx(sub.begin(), sub.end());
            if (!determined(tgt, idx))
            {
              c.outcome("degenerate sample skipped");
              continue;
            }
            std::vector<Idx> orders = { idx, Idx(idx.rbegin(), idx.rend()) };
            if (m == 4 && (set == 0 || c.thorough))
            {
              orders.clear();
              for (auto& p : permutations(4))
                orders.push_back({ idx[p[0]], idx[p[1]], idx[p[2]], idx[p[3]] });
            }
            for (auto& o : orders)
            {
              check(c, d, o, Given(o), true, "consistent");
              check(c, n, o, Given(o), false, "displaced, " + str(m) + " samples");
            }
            c.outcome("sampled");
          }
      });

  // ------------------------------------------------------------ random sampler
  s.add("random/indices", [](Ctx& c) {
    for (size_t n = 4; n <= 24; ++n)
      for (size_t k = 4; k <= n; ++k)
      {
        std::vector<int> hits(n, 0);
        std::set<Idx> distinct;
        const unsigned seeds = 200;
        for (unsigned seed = 0; seed < seeds; ++seed)
        {
          ro::RandomCorrespondenceSampler s(n, k, seed), s2(n, k, seed);
          auto i = s.getSampleCorrespondenceIndices();
          c.require(i.size() == k, "asked for ", k, " samples, got ", i.size());
          std::set<size_t> u(i.begin(), i.end());
          c.require(u.size() == k, "seed ", seed, ": the same correspondence is sampled more than once (", k, " of ", n, ")");
          c.require(*u.rbegin() < n, "sampled index out of range");
          c.require(s.getSampleCorrespondenceIndices() == i && s2.getSampleCorrespondenceIndices() == i, "the same seed gives another sample");
          for (auto q : u)
            ++hits[q];
          distinct.insert(Idx(u.begin(), u.end()));
          c.eval(vf::mix(vf::mix(n * 100 + k, seed), i[0]));
        }
        double mean = double(seeds) * k / n, dev = std::sqrt(seeds * (double(k) / n) * (1 - double(k) / n));
        for (size_t q = 0; q < n; ++q)
          c.require(std::fabs(hits[q] - mean) <= 7 * dev + 1e-9, "correspondence ", q, " of ", n, " is sampled ", hits[q], " times, expected about ", mean);
        if (n >= 6 && k <= n - 2)
          c.require(distinct.size() > 5, "different seeds give the same sample");
      }
    for (size_t n = 0; n <= 8; ++n)
      for (size_t k = 0; k <= 10; ++k)
        if (k < 4 || k > n)
        {
          c.require(throws([&]() { ro::RandomCorrespondenceSampler s(n, k, 1); s.getSampleCorrespondenceIndices(); }), k, " samples of ", n, " accepted");
          c.eval("bad" + str(n) + "," + str(k));
          c.outcome("refused");
        }
  });
  for (int cam = 0; cam < 5; ++cam)
    s.add(std::string("random/") + camName[cam], [=](Ctx& c) {
      auto tgt = grid(4, 5, 0.05), many = grid(16, 17, 0.02);
      for (size_t k : { 8, 40, 136 })
        for (unsigned seed = 0; seed < (k < 40 ? 6u : 2u); ++seed)
        {
          Data d = see(many, 2 + cam, cam);
          ro::RandomCorrespondenceSampler s(many.size(), k, seed);
          auto idx = s.getSampleCorrespondenceIndices();
          if (!determined(many, idx))
            continue;
          check(c, d, idx, s, true, "many, seed " + str(seed));
          d.img[many.size() - 1 - seed] += V2(d.d3 ? 0.003 : 2, 0);
          check(c, d, idx, s, false, "many, displaced, seed " + str(seed));
        }
      Data d = see(tgt, 2 + cam, cam);
      for (size_t k : { 4, 5, 7, 10 })
        for (unsigned seed = 0; seed < (c.thorough ? 1000u : 150u); ++seed)
        {
          ro::RandomCorrespondenceSampler s(tgt.size(), k, seed);
          auto idx = s.getSampleCorrespondenceIndices();
          if (!determined(tgt, idx))
            continue;
          check(c, d, idx, s, true, "consistent, seed " + str(seed));
          Data n = d;
          n.img[seed % n.img.size()] += V2(d.d3 ? 0.003 : 2, 0);
          check(c, n, idx, s, false, "displaced, seed " + str(seed));
        }
    });

  // ------------------------------------------------------------ mismatched or insufficient data
  s.add("refuse", [](Ctx& c) {
    for (int cam : { 0, 3 })
      for (int n = 0; n < 20; ++n)
      {
        auto full = grid(4, 5, 0.05);
        full.resize(n);
        if (n == 0)
        {
          Data d;
          d.d3 = cam == 3;
          c.require(throws([&]() { run(d, Given({ 0, 1, 2, 3 })); }), "no correspondences accepted");
          continue;
        }
        Data d = see(full, 1, cam);
        // the grid sampler asks for a larger grid than there is
        c.require(throws([&]() { run(d, ro::GridCorrespondenceSampler(4, 5)); }), "4x5 grid sampler accepted ", n, " correspondences");
        c.require(throws([&]() { run(d, ro::GridCorrespondenceSampler(4, 5, 4)); }), "4x5x4 grid sampler accepted ", n, " correspondences");
        for (size_t k = 4; k <= 12; ++k)
        {
          if (n >= (int)(2 * k))
            continue;
          Idx idx;
          for (size_t i = 0; i < k; ++i)
            idx.push_back(i % n);
          c.require(throws([&]() { run(d, Given(idx)); }), n, " correspondences accepted for ", k, " samples");
          c.eval("few" + str(n) + "," + str(k) + str(cam));
        }
        if (n >= 8)
          for (size_t bad : { (size_t)n, (size_t)n + 5, (size_t)-1 })
            for (int at = 0; at < 4; ++at)
            {
              Idx idx = { 0, 1, 2, 3 };
              idx[at] = bad;
              c.require(throws([&]() { run(d, Given(idx)); }), "index ", bad, " of ", n, " accepted");
              c.eval("oob" + str(n) + "," + str(at) + str(cam));
            }
      }
    c.outcome("refused");
  });
}

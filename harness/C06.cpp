// LIBS: opt
// C06: covariance, correlation and labels.
#include "scenes.h"
#include <memory>
#include <rct_optimizations/covariance_analysis.h>

using namespace kit;
using Names = std::vector<std::string>;

/** everything the report says, compared with the expected covariance of the expected labels */
static void requireReport(vf::Ctx& c, const ro::CovarianceResult& r, const MX& C, const Names& names, double rel, double abs_,
                          const std::string& w)
{
  const int n = names.size();
  VX sd(n);
  for (int i = 0; i < n; ++i)
    sd[i] = std::sqrt(std::fabs(C(i, i)));
  c.require(r.covariance_matrix.rows() == n && r.covariance_matrix.cols() == n, w, ": covariance matrix is ", r.covariance_matrix.rows(),
            "x", r.covariance_matrix.cols(), ", expected ", n);
  c.require(r.correlation_matrix.rows() == n && r.correlation_matrix.cols() == n, w, ": size of the correlation matrix");
  c.require((int)r.standard_deviations.size() == n, w, ": ", r.standard_deviations.size(), " standard deviations, expected ", n);
  c.require((int)r.covariances.size() == n * (n - 1) / 2, w, ": ", r.covariances.size(), " covariances, expected ", n * (n - 1) / 2);
  c.require((int)r.correlation_coeffs.size() == n * (n - 1) / 2, w, ": number of correlation coefficients");
  auto corr = [&](int i, int j) { return sd[i] == 0 || sd[j] == 0 ? 0.0 : C(i, j) / (sd[i] * sd[j]); };
  auto tolc = [&](int i, int j) { return rel * sd[i] * sd[j] + abs_; };
  for (int i = 0; i < n; ++i)
  {
    c.require(r.standard_deviations[i].names.first == names[i] && r.standard_deviations[i].names.second.empty(), w,
              ": standard deviation ", i, " is labelled '", r.standard_deviations[i].names.first, "', expected '", names[i], "'");
    c.near(r.standard_deviations[i].value, sd[i], rel * sd[i] + abs_, w, ": standard deviation of ", names[i]);
    c.near(r.correlation_matrix(i, i), sd[i], rel * sd[i] + abs_, w, ": diagonal of the correlation matrix of ", names[i]);
    for (int j = 0; j < n; ++j)
    {
      c.near(r.covariance_matrix(i, j), C(i, j), tolc(i, j), w, ": covariance matrix entry of ", names[i], ", ", names[j]);
      if (i != j)
        c.near(r.correlation_matrix(i, j), corr(i, j), rel * 4 + abs_, w, ": correlation matrix entry of ", names[i], ", ", names[j]);
    }
  }
  std::map<std::pair<std::string, std::string>, int> seen;
  auto index = [&](const std::string& s) {
    auto it = std::find(names.begin(), names.end(), s);
    return it == names.end() ? -1 : int(it - names.begin());
  };
  for (int list = 0; list < 2; ++list)
  {
    seen.clear();
    for (auto& e : list ? r.correlation_coeffs : r.covariances)
    {
      int i = index(e.names.first), j = index(e.names.second);
      c.require(i >= 0 && j >= 0 && i != j, w, ": unexpected pair of labels '", e.names.first, "', '", e.names.second, "'");
      c.require(++seen[{ names[std::min(i, j)], names[std::max(i, j)] }] == 1, w, ": pair ", names[i], ", ", names[j], " listed twice");
      if (list)
        c.near(e.value, corr(i, j), rel * 4 + abs_, w, ": correlation of ", names[i], ", ", names[j]);
      else
        c.near(e.value, C(i, j), tolc(i, j), w, ": covariance of ", names[i], ", ", names[j]);
    }
  }
}

static void requireThresholds(vf::Ctx& c, const ro::CovarianceResult& r, const std::string& w)
{
  // the text lists every entry once, each in its section
  {
    std::vector<std::pair<std::string, double>> got, want;
    auto trim = [](std::string t) {
      while (!t.empty() && t.back() == ' ')
        t.pop_back();
      return t;
    };
    std::istringstream text(r.toString());
    for (std::string line; std::getline(text, line);)
    {
      size_t at = line.rfind(' ');
      char* end = nullptr;
      double v = at == std::string::npos ? 0 : std::strtod(line.c_str() + at + 1, &end);
      if (end && !*end && end != line.c_str() + at + 1)
        got.push_back({ trim(line.substr(0, at)), v });
    }
    for (auto* list : { &r.standard_deviations, &r.covariances, &r.correlation_coeffs })
      for (auto& e : *list)
        want.push_back({ trim(e.names.first + " " + e.names.second), e.value });
    c.require(got.size() == want.size(), w, ": text lists ", got.size(), " entries, expected ", want.size(), "\n", r.toString());
    for (size_t i = 0; i < want.size(); ++i)
    {
      c.require(got[i].first == want[i].first, w, ": entry ", i, " of the text is '", got[i].first, "', expected '", want[i].first, "'");
      c.require(std::isnan(want[i].second) ? std::isnan(got[i].second) : got[i].second == want[i].second || std::fabs(got[i].second - want[i].second) <= 1e-5 * std::fabs(want[i].second), w, ": text gives ", got[i].first, " as ", got[i].second, ", expected ", want[i].second);
    }
  }
  std::vector<double> ts{ -1.0, 0.0, 0.25, 0.5, 0.8, 1.0, 2.0 };
  for (auto& e : r.correlation_coeffs)
    ts.push_back(std::fabs(e.value));  // exactly equal: does not exceed
  for (double t : ts)
  {
    std::multiset<std::tuple<std::string, std::string, double>> want, got;
    for (auto& e : r.correlation_coeffs)
      if (std::fabs(e.value) > t)
        want.insert({ e.names.first, e.names.second, e.value });
    double last = 1e300;
    for (auto& e : r.getCorrelationCoeffOutsideThreshold(t))
    {
      got.insert({ e.names.first, e.names.second, e.value });
      c.require(std::fabs(e.value) <= last, w, ": thresholded coefficients are not sorted by magnitude");
      last = std::fabs(e.value);
    }
    c.require(got == want, w, ": ", got.size(), " coefficients exceed ", t, ", expected ", want.size());
    std::string s = r.printCorrelationCoeffAboveThreshold(t);
    for (auto& e : r.correlation_coeffs)
    {
      bool listed = s.find(e.names.first + " " + e.names.second + " ") != std::string::npos;
      c.require(listed == (std::fabs(e.value) > t), w, ": printed list above ", t, " has ", e.names.first, " ", e.names.second, ": ", listed);
    }
  }
}

// ---------------------------------------------------------------- A: covariance matrices
static void direct(vf::Ctx& c, int n)
{
  const double sig[] = { 0.0, 1e-4, 1.0, 250.0 };
  int N = 1;
  for (int i = 0; i < n; ++i)
    N *= 4;
  for (int kind = 0; kind < 4; ++kind)
    for (int code = 0; code < N; ++code)
    {
      VX s(n);
      Names names;
      for (int i = 0, k = code; i < n; ++i, k /= 4)
      {
        s[i] = sig[k % 4];
        names.push_back(std::string(1, char('p' + i)) + "_" + str((i * 7) % 5));
      }
      MX R = MX::Identity(n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
        {
          double v = kind == 0 ? 0.0 : kind == 1 ? std::pow(0.6, i - j) : kind == 2 ? std::pow(-0.7, i - j) : (i + j) % 2 ? -0.3 : 0.2 + 0.1 * j;
          R(i, j) = R(j, i) = v;
        }
      MX C = s.asDiagonal() * R * s.asDiagonal();
      std::string w = "sigmas " + str(code) + " kind " + str(kind);
      auto r = ro::computeCovarianceResults(C, names);
      requireReport(c, r, C, names, 1e-12, 1e-15, w);
      MX m = ro::computeCorrelationsFromCovariance(C);
      c.require((m - r.correlation_matrix).norm() <= 0, w, ": the two correlation matrices differ");
      if (code % 5 == 0)
        requireThresholds(c, r, w);
      c.eval(w + str(n));
    }
}
static void directRefusals(vf::Ctx& c)
{
  for (int a = 0; a < 5; ++a)
    for (int b = 0; b < 5; ++b)
    {
      MX C = MX::Ones(a, b);
      if (a != b)
      {
        c.require(throws([&] { ro::computeCorrelationsFromCovariance(C); }), "correlations of a ", a, "x", b, " matrix are computed");
        c.require(throws([&] { ro::computeCovarianceResults(C, Names(a, "x")); }), "results of a ", a, "x", b, " matrix are computed");
      }
      else
      {
        MX S = MX::Identity(a, a);
        for (int k = 0; k < 5; ++k)
          c.require(throws([&] { ro::computeCovarianceResults(S, Names(k, "x")); }) == (k != a), "a ", a, "x", a, " matrix with ", k, " names");
      }
      c.eval("refuse" + str(a) + str(b));
    }
}

// ---------------------------------------------------------------- B: least-squares problems with known Jacobian
static double coef(int i, int j, int salt) { return std::sin(1.7 * i + 2.9 * j + 0.31 * i * j + salt) + (i % 5 == j % 5 ? 1.5 : 0.0); }

/** residual r_i = sum_j a_ij x_j + b_ij x_j^2 over all blocks */
class Quad : public ceres::CostFunction
{
public:
  MX a, b;
  std::vector<int> sizes;
  Quad(const MX& a_, const MX& b_, const std::vector<int>& sz) : a(a_), b(b_), sizes(sz)
  {
    set_num_residuals(a.rows());
    for (int s : sz)
      mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override
  {
    for (int i = 0; i < a.rows(); ++i)
    {
      r[i] = 0.3;
      int col = 0;
      for (size_t k = 0; k < sizes.size(); ++k)
        for (int j = 0; j < sizes[k]; ++j, ++col)
        {
          r[i] += a(i, col) * p[k][j] + b(i, col) * p[k][j] * p[k][j];
          if (J && J[k])
            J[k][i * sizes[k] + j] = a(i, col) + 2 * b(i, col) * p[k][j];
        }
    }
    return true;
  }
};
struct Lsq
{
  std::vector<int> sizes;
  std::vector<int> offset;
  int n = 0;
  std::vector<double> mem;  // blocks are laid out in an order of their own
  std::vector<double*> blk;
  std::unique_ptr<ceres::Problem> pb;
  MX J;
  Lsq(const std::vector<int>& sz, int layout, int deficient = 0) : sizes(sz)
  {
    for (int s : sizes)
    {
      offset.push_back(n);
      n += s;
    }
    mem.resize(n + 8);
    blk.resize(sizes.size());
    std::vector<int> order(sizes.size());
    for (size_t i = 0; i < order.size(); ++i)
      order[i] = layout == 0 ? i : order.size() - 1 - i;
    if (layout == 2)
      std::rotate(order.begin(), order.begin() + 1, order.end());
    double* at = mem.data();
    for (int k : order)
    {
      blk[k] = at;
      at += sizes[k];
    }
    VX x(n);
    for (int j = 0; j < n; ++j)
      x[j] = 0.5 * std::cos(2.1 * j) + 0.1 * j;
    for (size_t k = 0; k < sizes.size(); ++k)
      for (int j = 0; j < sizes[k]; ++j)
        blk[k][j] = x[offset[k] + j];
    const int m = n + 3;
    MX a(m, n), b(m, n);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j)
      {
        a(i, j) = coef(i, j, 0) * (1 + j % 3);
        b(i, j) = 0.1 * coef(j, i, 5);
      }
    if (deficient == 1)
    {
      a.col(n - 1).setZero();
      b.col(n - 1).setZero();
    }
    if (deficient == 2 && n > 1)
    {
      a.col(n - 1) = a.col(0) * 2;
      b.setZero();
    }
    J = a;
    for (int j = 0; j < n; ++j)
      J.col(j) += 2 * b.col(j) * x[j];
    pb.reset(new ceres::Problem());
    for (size_t k = 0; k < sizes.size(); ++k)
      pb->AddParameterBlock(blk[k], sizes[k]);
    pb->AddResidualBlock(new Quad(a, b, sizes), nullptr, std::vector<double*>(blk.begin(), blk.end()));
  }
  /** covariance with the parameters in `fixed` (bit set) known exactly: zero rows */
  MX cov(int fixed) const
  {
    std::vector<int> fr;
    for (int j = 0; j < n; ++j)
      if (!(fixed >> j & 1))
        fr.push_back(j);
    MX Jf(J.rows(), fr.size());
    for (size_t j = 0; j < fr.size(); ++j)
      Jf.col(j) = J.col(fr[j]);
    MX C = MX::Zero(n, n);
    if (fr.empty())
      return C;
    MX Ci = (Jf.transpose() * Jf).inverse();
    for (size_t i = 0; i < fr.size(); ++i)
      for (size_t j = 0; j < fr.size(); ++j)
        C(fr[i], fr[j]) = Ci(i, j);
    return C;
  }
  Names label(int k) const
  {
    Names v;
    for (int j = 0; j < sizes[k]; ++j)
      v.push_back(std::string(1, char('A' + (k * 2) % 3)) + str(j));
    return v;
  }
};
static std::vector<std::vector<int>> tuples()
{
  std::vector<std::vector<int>> v;
  for (int a = 1; a <= 3; ++a)
  {
    v.push_back({ a });
    for (int b = 1; b <= 3; ++b)
    {
      v.push_back({ a, b });
      for (int d = 1; d <= 3; ++d)
        v.push_back({ a, b, d });
    }
  }
  return v;
}
static std::string show(const std::vector<int>& v)
{
  std::string s;
  for (int x : v)
    s += str(x);
  return s;
}
/** mode 0: nothing held fixed, masks only exclude from the report; 1: masked parameters are held fixed by a manifold */
static void lsqCase(vf::Ctx& c, const std::vector<int>& sz, int layout, int mode)
{
  Lsq probe(sz, layout);
  std::vector<std::vector<int>> orders;
  const int nb = sz.size();
  for (int k = 1; k <= nb; ++k)
    for (auto& sub : subsets(nb, k))
    {
      auto s = sub;
      do
        orders.push_back(s);
      while (std::next_permutation(s.begin(), s.end()));
    }
  for (int mask = 0; mask < (1 << probe.n); ++mask)
  {
    Lsq q(sz, layout);
    std::map<const double*, std::vector<int>> masks;
    for (int k = 0; k < nb; ++k)
    {
      std::vector<int> m;
      for (int j = q.sizes[k] - 1; j >= 0; --j)  // order of the mask entries does not matter
        if (mask >> (q.offset[k] + j) & 1)
          m.push_back(j);
      if (!m.empty() || (mask + k) % 2)  // an empty mask may be listed or left out
        masks[q.blk[k]] = m;
      if (mode == 1 && !m.empty())
      {
        if ((int)m.size() == q.sizes[k])
          q.pb->SetParameterBlockConstant(q.blk[k]);
        else
          q.pb->SetManifold(q.blk[k], new ceres::SubsetManifold(q.sizes[k], m));
      }
    }
    MX C = q.cov(mode ? mask : 0);
    auto expect = [&](const std::vector<int>& order, bool own, bool masked, MX& sub, Names& names) {
      std::vector<int> idx;
      names.clear();
      for (size_t a = 0; a < order.size(); ++a)
        for (int j = 0; j < q.sizes[order[a]]; ++j)
        {
          int g = q.offset[order[a]] + j;
          if (masked && (mask >> g & 1))
            continue;
          idx.push_back(g);
          names.push_back(own ? q.label(order[a])[j] : "block" + str(a) + "_element" + str(j));
        }
      sub.resize(idx.size(), idx.size());
      for (size_t i = 0; i < idx.size(); ++i)
        for (size_t j = 0; j < idx.size(); ++j)
          sub(i, j) = C(idx[i], idx[j]);
    };
    MX sub;
    Names names;
    for (auto& o : orders)
    {
      std::vector<const double*> blocks;
      std::map<const double*, Names> nm;
      for (int k : o)
      {
        blocks.push_back(q.blk[k]);
        nm[q.blk[k]] = q.label(k);
      }
      std::string w = "blocks " + show(o) + " mask " + str(mask);
      expect(o, true, true, sub, names);
      requireReport(c, ro::computeCovariance(*q.pb, blocks, nm, masks), sub, names, 1e-7, 1e-10, w);
      expect(o, false, true, sub, names);
      requireReport(c, ro::computeCovariance(*q.pb, blocks, masks), sub, names, 1e-7, 1e-10, w + " (generic names)");
      c.eval(w + show(sz) + str(layout) + str(mode));
      if (mode == 1)
      {
        // without masks: the fixed parameters are listed with zero variance
        expect(o, true, false, sub, names);
        requireReport(c, ro::computeCovariance(*q.pb, blocks, nm), sub, names, 1e-7, 1e-10, w + " (fixed parameters listed)");
      }
    }
    // without an explicit list the blocks are those of the problem, in the problem's order
    std::vector<int> all;
    std::vector<double*> listed;
    q.pb->GetParameterBlocks(&listed);
    std::map<const double*, Names> nm;
    for (int k = 0; k < nb; ++k)
    {
      all.push_back(std::find(q.blk.begin(), q.blk.end(), listed[k]) - q.blk.begin());
      nm[q.blk[k]] = q.label(k);
    }
    expect(all, true, true, sub, names);
    requireReport(c, ro::computeCovariance(*q.pb, nm, masks), sub, names, 1e-7, 1e-10, "all blocks, mask " + str(mask));
    expect(all, false, true, sub, names);
    requireReport(c, ro::computeCovariance(*q.pb, masks), sub, names, 1e-7, 1e-10, "all blocks, generic names, mask " + str(mask));
  }
}
static void lsqRefusals(vf::Ctx& c, const std::vector<int>& sz)
{
  Lsq q(sz, 0);
  const int nb = sz.size();
  std::map<const double*, Names> nm;
  std::vector<const double*> blocks;
  for (int k = 0; k < nb; ++k)
  {
    blocks.push_back(q.blk[k]);
    nm[q.blk[k]] = q.label(k);
  }
  auto refused = [&](const std::function<void()>& f, const std::string& w) {
    c.require(throws(f), w, " is not refused");
    c.eval(w + show(sz));
  };
  c.require(!throws([&] { ro::computeCovariance(*q.pb, blocks, nm); }), "a proper request is refused");
  for (int k = 0; k < nb; ++k)
    for (int d : { -2, -1, 1, 2 })
    {
      auto bad = nm;
      int want = std::max(0, sz[k] + d);
      bad[q.blk[k]].resize(want, "more");
      if (want == sz[k])
        continue;
      refused([&] { ro::computeCovariance(*q.pb, blocks, bad); }, "block " + str(k) + " with " + str(want) + " labels");
      refused([&] { ro::computeCovariance(*q.pb, bad); }, "block " + str(k) + " with " + str(want) + " labels (all blocks)");
    }
  for (int k = 0; k < nb; ++k)
  {
    auto bad = nm;
    bad.erase(q.blk[k]);
    refused([&] { ro::computeCovariance(*q.pb, blocks, bad); }, "missing labels of block " + str(k));
    refused([&] { ro::computeCovariance(*q.pb, bad); }, "missing labels of block " + str(k) + " (all blocks)");
    double other[3];
    bad[other] = Names(sz[k], "x");  // right number of lists, wrong block
    refused([&] { ro::computeCovariance(*q.pb, blocks, bad); }, "labels of another block instead of block " + str(k));
    auto more = nm;
    more[other] = Names(2, "x");
    refused([&] { ro::computeCovariance(*q.pb, blocks, more); }, "an additional label list");
    auto b2 = blocks;
    b2[k] = other;
    auto n2 = nm;
    n2.erase(q.blk[k]);
    n2[other] = Names(sz[k], "x");
    refused([&] { ro::computeCovariance(*q.pb, b2, n2); }, "unknown block instead of block " + str(k));
    refused([&] { ro::computeCovariance(*q.pb, b2); }, "unknown block instead of block " + str(k) + " (generic names)");
  }
  for (int def : { 1, 2 })
  {
    if (def == 2 && q.n < 2)
      continue;
    Lsq d(sz, 0, def);
    std::map<const double*, Names> dn;
    std::vector<const double*> db;
    for (int k = 0; k < nb; ++k)
    {
      db.push_back(d.blk[k]);
      dn[d.blk[k]] = d.label(k);
    }
    refused([&] { ro::computeCovariance(*d.pb); }, "singular problem " + str(def));
    refused([&] { ro::computeCovariance(*d.pb, db); }, "singular problem " + str(def) + " (blocks)");
    refused([&] { ro::computeCovariance(*d.pb, dn); }, "singular problem " + str(def) + " (names)");
    refused([&] { ro::computeCovariance(*d.pb, db, dn); }, "singular problem " + str(def) + " (blocks, names)");
  }
}

// ---------------------------------------------------------------- C: reports attached to results
static double jitter(int i, int salt) { return 0.3 * std::sin(12.9898 * i + 4.1 * salt) + 0.2 * std::cos(3.7 * i * (salt + 1)); }

static MX covOf(const ResFn& f, const VX& x)
{
  MX J = jacobian(f, x);
  return (J.transpose() * J).inverse();
}
static Names pose6Names(const std::string& prefix)
{
  Names n;
  for (const char* s : { "rx", "ry", "rz", "x", "y", "z" })
    n.push_back(prefix + "_" + s);
  return n;
}
/** compares label by label; the order in which the report lists the parameters is free, its consistency is not */
static bool reportMatches(vf::Ctx& c, const ro::CovarianceResult& r, const MX& C, const Names& names, std::string* why)
{
  Names listed;
  for (auto& s : r.standard_deviations)
    listed.push_back(s.names.first);
  auto a = listed, b = names;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b)
  {
    *why = "the labels are not those of the parameters";
    for (auto& s : listed)
      *why += " " + s;
    return false;
  }
  std::vector<int> idx;
  for (auto& s : listed)
    idx.push_back(std::find(names.begin(), names.end(), s) - names.begin());
  MX P(C.rows(), C.cols());
  for (int i = 0; i < C.rows(); ++i)
    for (int j = 0; j < C.cols(); ++j)
      P(i, j) = C(idx[i], idx[j]);
  try
  {
    requireReport(c, r, P, listed, 2e-3, 1e-12, "report");
  }
  catch (const vf::Failure& f)
  {
    *why = f.msg;
    return false;
  }
  return true;
}
static VX pack(const std::vector<Iso>& poses)
{
  VX x(6 * poses.size());
  for (size_t i = 0; i < poses.size(); ++i)
    vec6(poses[i], x.data() + 6 * i);
  return x;
}
/** strict: labelled transforms themselves; otherwise each pose in `free_inv` may also be described by its inverse */
static void requirePoses(vf::Ctx& c, const ro::CovarianceResult& r, const std::vector<Iso>& poses, const Names& prefixes, int free_inv,
                         bool strict, const std::function<VX(const std::vector<Iso>&)>& res, const std::string& w)
{
  Names names;
  for (auto& p : prefixes)
    for (auto& s : pose6Names(p))
      names.push_back(s);
  std::string first;
  for (int variant = 0; variant < (strict ? 1 : 2); ++variant)
  {
    std::vector<Iso> q = poses;
    if (variant)
      for (int k = 0; k < free_inv; ++k)
        q[k] = inv(q[k]);
    ResFn f = [&](const VX& x) {
      std::vector<Iso> p;
      for (size_t k = 0; k < q.size(); ++k)
      {
        Iso a = iso6(x.data() + 6 * k);
        p.push_back(variant && (int)k < free_inv ? inv(a) : a);
      }
      return res(p);
    };
    std::string why;
    if (reportMatches(c, r, covOf(f, pack(q)), names, &why))
      return;
    if (variant == 0)
      first = why;
    else
      first += " | as inverse: " + why;
  }
  c.fail(w + ": " + first);
}

static const std::vector<std::pair<std::string, std::string>>& labelSets()
{
  static const std::vector<std::pair<std::string, std::string>> v{ { "", "" }, { "zeta", "alpha" }, { "a", "b" } };
  return v;
}
template <class Problem, class Obs>
static void handEyeReport(vf::Ctx& c, Mount m, int truth, int nview, int lab, bool strict)
{
  constexpr bool is2d = std::is_same<Problem, ro::ExtrinsicHandEyeProblem2D3D>::value;
  HandEyeTruth t{ truth ? rpyxyz(-0.6, 0.9, 1.5, 0.3, -0.2, 0.4) : rpyxyz(0.1, -0.2, 0.3, 0.05, 0.08, 0.12),
                  truth ? rpyxyz(0.7, -0.3, -1.1, 0.8, 0.1, -0.4) : rpyxyz(-0.3, 0.2, 0.5, 0.6, -0.2, 0.1) };
  auto pts = grid(4, 5, 0.05);
  auto vw = manyViews(0.9, centre(pts), nview);
  Problem p;
  auto K = intrinsics()[1];
  p.observations = handEyeMounts<Obs>(m, t, vw);
  int s = 0;
  for (size_t i = 0; i < vw.size(); ++i)
    for (size_t j = 0; j < pts.size(); ++j)
    {
      if ((i + j) % 4 == 0)
        continue;
      typename std::decay<decltype(p.observations[0].correspondence_set[0])>::type q;
      V3 x = xf(vw[i], pts[j]);
      q.in_target = pts[j];
      if constexpr (is2d)
        q.in_image = project(K, x) + V2(jitter(s, 0), jitter(s, 1));
      else
        q.in_image = x + 1e-3 * V3(jitter(s, 0), jitter(s, 1), jitter(s, 2));
      ++s;
      p.observations[i].correspondence_set.push_back(q);
    }
  if constexpr (is2d)
    p.intr = K;
  p.camera_mount_to_camera_guess = t.cam;
  p.target_mount_to_target_guess = t.tgt;
  std::string cl = "camera_mount_to_camera", tl = "target_mount_to_target";
  if (lab)
  {
    p.label_camera_mount_to_camera = cl = labelSets()[lab].first;
    p.label_target_mount_to_target = tl = labelSets()[lab].second;
  }
  auto r = ro::optimize(p);
  c.require(r.converged, "did not converge");
  requirePoses(c, r.covariance, { r.camera_mount_to_camera, r.target_mount_to_target }, { cl, tl }, 1, strict,
               [&](const std::vector<Iso>& q) { return residuals(p, q[0], q[1]); }, "hand-eye report");
  c.eval(c.case_id);
}
static void multiReport(vf::Ctx& c, int nc, int ni, int variant, int lab, bool strict)
{
  auto s = multiScene(nc, ni, 0, 1, variant);
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.wrist_to_target_guess = s.wt;
  int k = 0;
  for (int a = 0; a < nc; ++a)
  {
    p.base_to_camera_guess.push_back(s.cams[a]);
    p.intr.push_back(s.intr[a]);
    p.wrist_poses.emplace_back();
    p.image_observations.emplace_back();
    for (int i = 0; i < ni; ++i)
    {
      if (ni > 3 && (a + i) % 4 == 3)
        continue;
      auto set = see(s, a, i, (a + i) % 2);
      for (auto& q : set)
      {
        q.in_image += V2(jitter(k, 0), jitter(k, 1));
        ++k;
      }
      p.wrist_poses.back().push_back(s.wrists[i]);
      p.image_observations.back().push_back(set);
    }
  }
  std::string cl = "base_to_camera", wl = "wrist_to_target";
  if (lab)
  {
    p.label_base_to_camera = cl = labelSets()[lab].first;
    p.label_wrist_to_target = wl = labelSets()[lab].second;
  }
  auto r = ro::optimize(p);
  c.require(r.converged, "did not converge");
  auto poses = r.base_to_camera;
  Names pre;
  for (int a = 0; a < nc; ++a)
    pre.push_back(cl + str(a));
  poses.push_back(r.wrist_to_target);
  pre.push_back(wl);
  requirePoses(c, r.covariance, poses, pre, nc, strict,
               [&](const std::vector<Iso>& q) { return residuals(p, std::vector<Iso>(q.begin(), q.end() - 1), q.back()); }, "multi-camera report");
  c.eval(c.case_id);
}
template <class Problem>
static void pnpReport(vf::Ctx& c, int view, int k, int lab)
{
  constexpr bool is2d = std::is_same<Problem, ro::PnPProblem>::value;
  auto pts = k % 2 ? grid(4, 5, 0.05) : grid3d(0.2);
  auto truth = manyViews(0.9, centre(pts), 12)[view];
  Problem p;
  int s = 0;
  for (auto& x : pts)
  {
    typename std::decay<decltype(p.correspondences[0])>::type q;
    q.in_target = x;
    V3 y = xf(truth, x);
    if constexpr (is2d)
      q.in_image = project(intrinsics()[k % 3], y) + V2(jitter(s, view), jitter(s, view + 3));
    else
      q.in_image = y + 1e-3 * V3(jitter(s, view), jitter(s, view + 1), jitter(s, view + 2));
    ++s;
    p.correspondences.push_back(q);
  }
  if constexpr (is2d)
    p.intr = intrinsics()[k % 3];
  p.camera_to_target_guess = truth;
  std::string l = "camera_to_target";
  if (lab)
    p.label_camera_to_target_guess = l = labelSets()[lab].first;
  auto r = ro::optimize(p);
  c.require(r.converged, "did not converge");
  requirePoses(c, r.covariance, { r.camera_to_target }, { l }, 0, true, [&](const std::vector<Iso>& q) { return residuals(p, q[0]); }, "PnP report");
  requireThresholds(c, r.covariance, "PnP report");
  c.eval(c.case_id);
}
static void circleReport(vf::Ctx& c, int n, double rad, bool strict)
{
  ro::CircleFitProblem p;
  for (int i = 0; i < n; ++i)
  {
    double a = 2 * PI * i / n * 0.8 + 0.3, q = rad * (1 + 0.01 * jitter(i, n));
    p.observations.emplace_back(3 + q * std::cos(a), -2 + q * std::sin(a));
  }
  p.x_center_initial = 3 + 0.1 * rad;
  p.y_center_initial = -2 - 0.1 * rad;
  p.radius_initial = rad * 1.1;
  auto r = ro::optimize(p);
  c.require(r.converged, "did not converge");
  std::string all;
  for (int v = 0; v < (strict ? 1 : 2); ++v)
  {
    ResFn f = [&](const VX& x) { return residuals(p, x[0], x[1], v ? x[2] * x[2] : x[2]); };
    VX x(3);
    x << r.x_center, r.y_center, v ? std::sqrt(r.radius) : r.radius;
    std::string why;
    if (reportMatches(c, r.covariance, covOf(f, x), { "x", "y", "r" }, &why))
    {
      c.eval(c.case_id);
      return;
    }
    all += " | " + why;
  }
  c.fail("circle report" + all);
}
/** images in `unusable` (bits) show nothing of the target: the report is about the others, under their own numbers */
static void intrinsicReport(vf::Ctx& c, int n, int k, int unusable = 0)
{
  auto pts = grid(5, 7, 0.04);
  auto vw = frontViews(0.5, centre(pts), n);
  auto K = intrinsics()[k];
  std::array<double, 9> truth{ K.values[0], K.values[1], K.values[2], K.values[3], 0.1, -0.05, 0.002, -0.001, 0.01 };
  ro::IntrinsicEstimationProblem p;
  p.use_extrinsic_guesses = false;
  p.intrinsics_guess = K;
  int s = 0;
  std::vector<Corr2::Set> obs;
  for (auto& v : vw)
  {
    obs.emplace_back();
    for (auto& x : pts)
    {
      Corr2 q;
      q.in_target = x;
      q.in_image = projectDistorted(truth, xf(v, x)) + 0.3 * V2(jitter(s, 0), jitter(s, 1));
      ++s;
      obs.back().push_back(q);
    }
  }
  std::vector<int> used;
  for (int i = 0; i < n; ++i)
    if (unusable >> i & 1)
      obs[i].clear();
    else
      used.push_back(i);
  p.image_observations = obs;
  auto r = ro::optimize(p);
  c.require(r.converged, "did not converge");
  // the poses that belong to the returned intrinsics: re-estimated by the harness (Gauss-Newton on the reference residuals)
  std::array<double, 9> got;
  for (int i = 0; i < 4; ++i)
    got[i] = r.intrinsics.values[i];
  for (int i = 0; i < 5; ++i)
    got[4 + i] = r.distortions[i];
  std::vector<Corr2::Set> kept;
  for (int i : used)
    kept.push_back(obs[i]);
  const int m = used.size();
  VX x(9 + 6 * m);
  for (int i = 0; i < 9; ++i)
    x[i] = got[i];
  for (int i = 0; i < m; ++i)
    vec6(vw[used[i]], x.data() + 9 + 6 * i);
  ResFn f = [&](const VX& y) {
    std::array<double, 9> kk;
    for (int i = 0; i < 9; ++i)
      kk[i] = y[i];
    std::vector<Iso> ps;
    for (int i = 0; i < m; ++i)
      ps.push_back(iso6(y.data() + 9 + 6 * i));
    return residuals(kept, kk, ps);
  };
  for (int it = 0; it < 12; ++it)
  {
    MX J = jacobian(f, x);
    x -= (J.transpose() * J).ldlt().solve(J.transpose() * f(x));
  }
  Names names;
  for (auto s2 : { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" })
    names.push_back(s2);
  for (int i : used)
    for (auto& s2 : pose6Names("pose" + str(i)))
      names.push_back(s2);
  std::string why;
  c.require(reportMatches(c, r.covariance, covOf(f, x), names, &why), "intrinsic report: ", why);
  c.eval(c.case_id);
}

void vf::define(vf::Suite& s)
{
  s.property = "C06";
  s.rule = "covariance matrices from every assignment of 4 deviations to <=4 parameters and 4 correlation patterns; least-squares problems "
           "with known Jacobian: block sizes 1..3, <=3 blocks, 3 memory layouts, every ordered subset of blocks, every mask, masked parameters free or held fixed, 4 entry points; every label/block error; "
           "reports of every calibration kind against numerically differentiated reference residuals. Distinct = distinct problem and request.";
  for (int n = 0; n <= 4; ++n)
    s.add("direct/" + str(n), [=](vf::Ctx& c) { direct(c, n); });
  s.add("direct/refusals", directRefusals);
  for (auto& sz : tuples())
  {
    for (int layout = 0; layout < (sz.size() == 1 ? 1 : sz.size() == 2 ? 2 : 3); ++layout)
      for (int mode = 0; mode < 2; ++mode)
        s.add("lsq/" + show(sz) + "/layout" + str(layout) + (mode ? "/fixed" : "/free"), [=](vf::Ctx& c) { lsqCase(c, sz, layout, mode); });
    s.add("lsq/" + show(sz) + "/refusals", [=](vf::Ctx& c) { lsqRefusals(c, sz); });
  }
  using H2 = ro::ExtrinsicHandEyeProblem2D3D;
  using H3 = ro::ExtrinsicHandEyeProblem3D3D;
  for (int strict = 0; strict < 2; ++strict)
  {
    std::string pre = strict ? "report-strict/" : "report/";
    for (int m = 0; m < 5; ++m)
      for (int t = 0; t < 2; ++t)
        for (int nv : { 4, 7, 10 })
        {
          if (strict && nv != 7)
            continue;
          int lab = strict ? 0 : (m + t + nv) % 3;
          std::string id = "/mount" + str(m) + "/truth" + str(t) + "/views" + str(nv);
          s.add(pre + "handeye2" + id, [=](vf::Ctx& c) { handEyeReport<H2, ro::Observation2D3D>(c, Mount(m), t, nv, lab, strict); });
          s.add(pre + "handeye3" + id, [=](vf::Ctx& c) { handEyeReport<H3, ro::Observation3D3D>(c, Mount(m), t, nv, lab, strict); });
        }
    for (int nc = 1; nc <= (s.thorough ? 12 : 3); ++nc)
      for (int v = 0; v < 2; ++v)
        for (int ni : { 4, 6 })
          if (!(strict && ni == 6))
            s.add(pre + "multi/cams" + str(nc) + "/images" + str(ni) + "/variant" + str(v),
                  [=](vf::Ctx& c) { multiReport(c, nc, ni, v, strict ? 0 : (nc + v) % 3, strict); });
    for (int n : { 3, 4, 7, 16 })
      for (double r : { 0.01, 1.0, 60.0 })
        if (!strict || n == 7)
        {
          if (n == 3)
            continue;  // an exact fit: covariance is fine as well, but covered by the larger sets
          s.add(pre + "circle/n" + str(n) + "/r" + std::to_string(r), [=](vf::Ctx& c) { circleReport(c, n, r, strict); });
        }
  }
  for (int v = 0; v < 12; ++v)
    for (int k = 0; k < 6; ++k)
    {
      s.add("report/pnp2/view" + str(v) + "/k" + str(k), [=](vf::Ctx& c) { pnpReport<ro::PnPProblem>(c, v, k, (v + k) % 3); });
      s.add("report/pnp3/view" + str(v) + "/k" + str(k), [=](vf::Ctx& c) { pnpReport<ro::PnPProblem3D>(c, v, k, (v + k) % 3); });
    }
  for (int n : { 3, 5, 12 })
    for (int k = 0; k < 3; ++k)
      s.add("report/intrinsic/views" + str(n) + "/k" + str(k), [=](vf::Ctx& c) { intrinsicReport(c, n, k); });
  for (int mask = 1; mask < 64; ++mask)
    if (__builtin_popcount(mask) <= 2)
      s.add("report/intrinsic/unusable" + str(mask), [=](vf::Ctx& c) { intrinsicReport(c, 6, mask % 3, mask); });
}

// LIBS: opt
// C08: DH-chain kinematics.
#include "kit.h"
#include <ceres/ceres.h>
#include <rct_optimizations/dh_chain.h>

using namespace kit;
namespace ro = rct_optimizations;
using VX = Eigen::VectorXd;
using MX4 = Eigen::Matrix<double, Eigen::Dynamic, 4>;

struct J
{
  bool rev;
  Eigen::Vector4d p;  // d theta r alpha
};
/** reference: Tz(d) Rz(theta) Tx(r) Rx(alpha), written out */
static Iso link(const J& j, double q, const Eigen::Vector4d& off)
{
  Eigen::Vector4d p = j.p + off;
  p[j.rev ? 1 : 0] += q;
  double ct = std::cos(p[1]), st = std::sin(p[1]), ca = std::cos(p[3]), sa = std::sin(p[3]);
  Iso T = Iso::Identity();
  T.linear() << ct, -st * ca, st * sa, st, ct * ca, -ct * sa, 0, sa, ca;
  T.translation() << p[2] * ct, p[2] * st, p[0];
  return T;
}
static std::vector<J> alphabet()
{
  std::vector<J> v;
  const double p[][4] = { { 0, 0, 0, 0 }, { 0.4, 0.3, 0.2, PI / 2 }, { -0.1, -2.0, 0.7, -1.1 }, { 0.25, PI, 0, -PI / 2 }, { 0, 0.9, -0.3, 2.9 } };
  for (auto& q : p)
    for (bool rev : { true, false })
      v.push_back({ rev, Eigen::Vector4d(q[0], q[1], q[2], q[3]) });
  return v;
}
static std::vector<Iso> bases() { return { Iso::Identity(), rpyxyz(0.4, -1.2, 2.0, 0.5, -1.5, 0.8) }; }

static ro::DHChain chain(const std::vector<J>& js, const Iso& base)
{
  std::vector<ro::DHTransform> t;
  for (size_t i = 0; i < js.size(); ++i)
  {
    t.emplace_back(js[i].p, js[i].rev ? ro::DHJointType::REVOLUTE : ro::DHJointType::LINEAR, "joint_" + str((i * 3 + 1) % 7) + char('a' + i), 40 + i);
    t.back().min = -0.5 - 0.7 * i;
    t.back().max = i == 2 ? t.back().min : 0.1 + 1.3 * i;
  }
  return ro::DHChain(t, base);
}
static MX4 offsets(int kind, int rows)
{
  MX4 m = MX4::Zero(rows, 4);
  if (kind == 0)
    return m;
  if (kind < 0)  // more than a half and a full turn, far away, and tiny
  {
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < 4; ++j)
        m(i, j) = (i + j) % 4 == 3 ? 1e-9 : ((i + j) % 2 ? -1 : 1) * (3.7 + 1.9 * ((i + 2 * j) % 3));
    return m;
  }
  if (kind == 1)
  {
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < 4; ++j)
        m(i, j) = 0.01 * (i + 1) * (j % 2 ? -1 : 1) + 0.003 * j;
    return m;
  }
  int e = kind - 2;
  m(e / 4, e % 4) = e % 2 ? -0.13 : 0.21;
  return m;
}
static Iso fk(const std::vector<J>& js, const Iso& base, const VX& q, const MX4& off)
{
  Iso T = base;
  for (int i = 0; i < q.size(); ++i)
    T = T * link(js[i], q[i], off.row(i).transpose());
  return T;
}
static void same(vf::Ctx& c, const Iso& got, const Iso& want, double tol, const std::string& w)
{
  double e = (got.matrix() - want.matrix()).cwiseAbs().maxCoeff();
  c.require(e <= tol, w, ": transform off by ", e);
}

/** one chain: every prefix length, joint value set, offset table, base and value type */
static void kinematics(vf::Ctx& c, const std::vector<J>& js, int level)
{
  const int n = js.size();
  const double vals[] = { 0.0, 7.1, -2.4 };  // also more than a full turn
  for (size_t b = 0; b < bases().size(); ++b)
  {
    auto ch = chain(js, bases()[b]);
    for (int k = 0; k <= n; ++k)
    {
      int N = 1;
      for (int i = 0; i < k; ++i)
        N *= 3;
      if (level == 0 && N > 3)
        N = 3;
      for (int code = 0; code < N; ++code)
      {
        VX q(k);
        for (int i = 0, z = level == 0 ? code * 5 + 1 : code; i < k; ++i, z /= 3)
          q[i] = vals[(z + (level == 0 ? i : 0)) % 3] + (level == 0 ? 0.01 * i : 0);
        std::string w = "base " + str(b) + " joints " + str(k) + " values " + str(code);
        Iso want = fk(js, bases()[b], q, MX4::Zero(n, 4));
        same(c, ch.getFK(q), want, 1e-12, w);
        Eigen::VectorXf qf = q.cast<float>();
        same(c, Iso(ch.getFK<float>(qf).matrix().cast<double>()), want, 2e-5, w + " (float)");
        c.eval(w + c.case_id);
        int nk = level == 0 ? 2 : 2 + 4 * n;
        for (int o = -1; o < nk; ++o)
          for (int rows : { n, n + 2 })
          {
            MX4 off = offsets(o, rows);
            std::string wo = w + " offsets " + str(o) + " rows " + str(rows);
            same(c, ch.getFK<double>(q, off), fk(js, bases()[b], q, off), 1e-12, wo);
            c.eval(wo + c.case_id);
          }
      }
    }
    // derivatives: dual numbers over all joint values and offsets
    if (n >= 1 && n <= 3)
    {
      using Jet = ceres::Jet<double, 15>;
      VX q(n);
      for (int i = 0; i < n; ++i)
        q[i] = 0.3 - 0.8 * i;
      MX4 off = offsets(1, n);
      Eigen::Matrix<Jet, Eigen::Dynamic, 1> qj(n);
      Eigen::Matrix<Jet, Eigen::Dynamic, 4> oj(n, 4);
      int v = 0;
      for (int i = 0; i < n; ++i)
        qj[i] = Jet(q[i], v++);
      for (int i = 0; i < n; ++i)
        for (int d = 0; d < 4; ++d)
          oj(i, d) = Jet(off(i, d), v++);
      auto T = ch.getFK<Jet>(qj, oj);
      Iso want = fk(js, bases()[b], q, off);
      for (int r = 0; r < 3; ++r)
        for (int col = 0; col < 4; ++col)
          c.near(T.matrix()(r, col).a, want.matrix()(r, col), 1e-12, "dual number value");
      for (int k = 0; k < v; ++k)
      {
        const double h = 1e-5;
        auto at = [&](double d) {
          VX q2 = q;
          MX4 o2 = off;
          if (k < n)
            q2[k] += d;
          else
            o2((k - n) / 4, (k - n) % 4) += d;
          return fk(js, bases()[b], q2, o2).matrix().eval();
        };
        Eigen::Matrix4d D = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
        for (int r = 0; r < 3; ++r)
          for (int col = 0; col < 4; ++col)
            c.near(T.matrix()(r, col).v[k], D(r, col), 1e-8, "derivative with respect to parameter ", k);
      }
      c.eval("jet" + c.case_id + str(b));
    }
  }
}
static void accessors(vf::Ctx& c, const std::vector<J>& js)
{
  const int n = js.size();
  for (size_t b = 0; b < bases().size(); ++b)
  {
    auto ch = chain(js, bases()[b]);
    auto check = [&](const ro::DHChain& x, const MX4& off, const std::string& w) {
      c.require((int)x.dof() == n, w, ": dof");
      auto tab = x.getDHTable();
      auto ty = x.getJointTypes();
      auto lab = x.getParamLabels();
      c.require(tab.rows() == n && (int)ty.size() == n && (int)lab.size() == n, w, ": sizes of the accessors");
      for (int i = 0; i < n; ++i)
      {
        c.require((tab.row(i).transpose() - js[i].p - off.row(i).transpose()).cwiseAbs().maxCoeff() <= 1e-15, w, ": DH table row ", i);
        c.require((ty[i] == ro::DHJointType::REVOLUTE) == js[i].rev, w, ": joint type ", i);
        std::string nm = "joint_" + str((i * 3 + 1) % 7) + char('a' + i);
        const char* sfx[] = { "_d", "_theta", "_r", "_alpha" };
        for (int d = 0; d < 4; ++d)
          c.require(lab[i][d] == nm + sfx[d], w, ": label ", lab[i][d], " expected ", nm + sfx[d]);
        for (double q : { 0.0, 0.7, -2.2 })
          same(c, x.getRelativeTransform(i, q), link(js[i], q, off.row(i).transpose()), 1e-12, w + ": relative transform");
      }
      same(c, x.getBaseOffset(), bases()[b], 0, w + ": base offset");
      for (int bad : { -1, n, n + 1, -1000, 1000000 })
        c.require(throws([&] { x.getRelativeTransform(bad, 0.1); }), w, ": joint index ", bad, " is accepted");
      for (int more : { 1, 2 })
      {
        VX q = VX::Zero(n + more);
        c.require(throws([&] { x.getFK(q); }), w, ": ", n + more, " joint values are accepted");
        MX4 o = MX4::Zero(n + more, 4);
        c.require(throws([&] { x.getFK<double>(q, o); }), w, ": ", n + more, " joint values with offsets are accepted");
      }
      for (int rows = 0; rows <= n; ++rows)
        for (int k = 0; k <= n; ++k)
        {
          VX q = VX::Zero(k);
          MX4 o = MX4::Zero(rows, 4);
          c.require(throws([&] { x.getFK<double>(q, o); }) == (k > rows), w, ": ", k, " joints, ", rows, " offset rows");
        }
      VX lo(n), hi(n), first;
      bool varies = n == 0 || (n == 1 && false);
      for (int t = 0; t < 200; ++t)
      {
        VX q = x.createUniformlyRandomPose();
        c.require(q.size() == n, w, ": random pose size");
        for (int i = 0; i < n; ++i)
        {
          double mn = -0.5 - 0.7 * i, mx = i == 2 ? mn : 0.1 + 1.3 * i;
          c.require(q[i] >= mn && q[i] <= mx, w, ": random value ", q[i], " of joint ", i, " outside [", mn, ", ", mx, "]");
          if (t == 0)
            lo[i] = hi[i] = q[i];
          lo[i] = std::min(lo[i], q[i]);
          hi[i] = std::max(hi[i], q[i]);
        }
      }
      for (int i = 0; i < n; ++i)
        if (i != 2)
          c.require(hi[i] - lo[i] > 0.5 * (0.6 + 2.0 * i), w, ": random values of joint ", i, " do not cover the range");
      c.eval(w + c.case_id);
    };
    check(ch, MX4::Zero(n, 4), "chain");
    for (int o = -1; o < 2 + 4 * n; ++o)
    {
      if (o >= 2 && n == 0)
        continue;
      MX4 off = offsets(o, n);
      ro::DHChain d(ch, off);
      check(d, off, "chain with offset table " + str(o));
      // applying the offsets later gives the same
      VX q(n);
      for (int i = 0; i < n; ++i)
        q[i] = 0.4 - 0.9 * i;
      same(c, d.getFK(q), ch.getFK<double>(q, off), 1e-12, "built-in against applied offsets");
    }
    for (int rows = 0; rows <= n + 2; ++rows)
      if (rows != n)
      {
        MX4 o = MX4::Zero(rows, 4);
        c.require(throws([&] { ro::DHChain d(ch, o); }), "offset table with ", rows, " rows is accepted for ", n, " joints");
      }
  }
}

void vf::define(vf::Suite& s)
{
  s.property = "C08";
  s.rule = "every chain of up to 3 joints over 10 joint kinds (2 types x 5 parameter sets) x 2 bases x every prefix x 3 values per joint x "
           "zero/generic/single-entry offset tables x double, float and dual numbers; accessors, derived chains and size errors for the same "
           "chains; chains of 4..8 joints with a cyclic choice of joint kinds. Distinct = distinct chain, joint vector and offset table.";
  auto A = alphabet();
  const int m = A.size();
  s.add("len0", [=](vf::Ctx& c) { kinematics(c, {}, 1); });
  s.add("acc/len0", [=](vf::Ctx& c) { accessors(c, {}); });
  for (int a = 0; a < m; ++a)
  {
    s.add("len1/" + str(a), [=](vf::Ctx& c) { kinematics(c, { A[a] }, 1); });
    s.add("acc/len1/" + str(a), [=](vf::Ctx& c) { accessors(c, { A[a] }); });
    for (int b = 0; b < m; ++b)
    {
      s.add("len2/" + str(a) + str(b), [=](vf::Ctx& c) { kinematics(c, { A[a], A[b] }, 1); });
      s.add("acc/len2/" + str(a) + str(b), [=](vf::Ctx& c) { accessors(c, { A[a], A[b] }); });
      for (int d = 0; d < m; ++d)
      {
        s.add("len3/" + str(a) + str(b) + str(d), [=](vf::Ctx& c) { kinematics(c, { A[a], A[b], A[d] }, 1); });
        if ((a + b + d) % 3 == 0)
          s.add("acc/len3/" + str(a) + str(b) + str(d), [=](vf::Ctx& c) { accessors(c, { A[a], A[b], A[d] }); });
      }
    }
  }
  for (int n : { 9, 10, 12, 16, 17, 24 })
    for (int start = 0; start < m; start += 3)
    {
      std::vector<J> js;
      for (int i = 0; i < n; ++i)
        js.push_back(A[(start + 3 * i) % m]);
      s.add("longer/" + str(n) + "/" + str(start), [=](vf::Ctx& c) { kinematics(c, js, 0); });
      s.add("acc/longer/" + str(n) + "/" + str(start), [=](vf::Ctx& c) { accessors(c, js); });
    }
  for (int n = 4; n <= 8; ++n)
    for (int start = 0; start < m; ++start)
      for (int step : { 1, 3, 7 })
      {
        std::vector<J> js;
        for (int i = 0; i < n; ++i)
          js.push_back(A[(start + i * step) % m]);
        s.add("long/" + str(n) + "/" + str(start) + "/" + str(step), [=](vf::Ctx& c) { kinematics(c, js, n <= 5 || c.thorough ? 1 : 0); });
        s.add("acc/long/" + str(n) + "/" + str(start) + "/" + str(step), [=](vf::Ctx& c) { accessors(c, js); });
      }
}

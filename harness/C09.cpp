// LIBS: opt
// C09: equality of calibration data.
#include "kit.h"
#include <rct_optimizations/extrinsic_hand_eye.h>

using namespace kit;
namespace ro = rct_optimizations;
using VX = Eigen::VectorXd;

/** every value is described by a flat list of numbers that identifies it: two values are equal iff their lists are */
template <class T>
struct Item
{
  T value;
  std::vector<double> key;
  std::string name;
};
template <class T>
static void pairs(vf::Ctx& c, const std::vector<Item<T>>& v)
{
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j)
    {
      bool want = v[i].key == v[j].key;
      bool got = v[i].value == v[j].value;
      c.require(got == want, v[i].name, " == ", v[j].name, " is ", got ? "true" : "false");
      T copy = v[i].value;  // not the same object either
      c.require((copy == v[j].value) == want, "copy of ", v[i].name, " == ", v[j].name);
      c.outcome(want ? "equal" : "different");
      c.eval(c.case_id + v[i].name + "|" + v[j].name);
    }
}
static const double DELTA[] = { 1.0, 1e-3, -1e-6 };

template <int D>
using V = Eigen::Matrix<double, D, 1>;
template <int D>
static void put(std::vector<double>& k, const V<D>& v)
{
  for (int i = 0; i < D; ++i)
    k.push_back(v[i]);
}
static void put(std::vector<double>& k, const Iso& p)
{
  for (int r = 0; r < 3; ++r)
    for (int c = 0; c < 4; ++c)
      k.push_back(p.matrix()(r, c));
}
static void put(std::vector<double>& k, const VX& v)
{
  k.push_back(1e9 + v.size());
  for (int i = 0; i < v.size(); ++i)
    k.push_back(v[i]);
}

template <int D>
using C = ro::Correspondence<D, 3>;
template <int D>
static void put(std::vector<double>& k, const typename C<D>::Set& s)
{
  k.push_back(2e9 + s.size());
  for (auto& q : s)
  {
    put<D>(k, q.in_image);
    put<3>(k, q.in_target);
  }
}
template <int D>
static C<D> corr(int i)
{
  C<D> q;
  for (int d = 0; d < D; ++d)
    q.in_image[d] = i == 0 ? 0.0 : 10.0 * i + d - 3;
  for (int d = 0; d < 3; ++d)
    q.in_target[d] = i == 0 ? 0.0 : 0.5 * i - d;
  return q;
}
template <int D>
static std::vector<Item<C<D>>> corrs()
{
  std::vector<Item<C<D>>> v;
  auto add = [&](const C<D>& q, const std::string& n) {
    std::vector<double> k;
    put<D>(k, q.in_image);
    put<3>(k, q.in_target);
    v.push_back({ q, k, n });
  };
  for (int b = 0; b < 3; ++b)
  {
    add(corr<D>(b), "base" + str(b));
    add(C<D>(corr<D>(b).in_image, corr<D>(b).in_target), "constructed" + str(b));
    for (double e : DELTA)
    {
      for (int d = 0; d < D; ++d)
      {
        auto q = corr<D>(b);
        q.in_image[d] += e;
        add(q, "base" + str(b) + " image" + str(d) + "+" + std::to_string(e));
      }
      for (int d = 0; d < 3; ++d)
      {
        auto q = corr<D>(b);
        q.in_target[d] += e;
        add(q, "base" + str(b) + " target" + str(d) + "+" + std::to_string(e));
      }
    }
  }
  return v;
}
/** correspondence sets: lengths 0..3 over an alphabet with near-identical members, all sequences */
template <int D>
static std::vector<std::pair<typename C<D>::Set, std::string>> sets(int maxlen)
{
  std::vector<C<D>> a{ corr<D>(0), corr<D>(1), corr<D>(2), corr<D>(1), corr<D>(1) };
  a[3].in_image[D - 1] += 1e-4;
  a[4].in_target[1] -= 1e-4;
  std::vector<std::pair<typename C<D>::Set, std::string>> out{ { {}, "[]" } };
  size_t from = 0;
  for (int l = 1; l <= maxlen; ++l)
  {
    size_t to = out.size();
    for (size_t i = from; i < to; ++i)
      for (size_t k = 0; k < a.size(); ++k)
      {
        auto s = out[i].first;
        s.push_back(a[k]);
        out.push_back({ s, out[i].second + str(k) });
      }
    from = to;
  }
  return out;
}
static std::vector<std::pair<Iso, std::string>> poses()
{
  std::vector<std::pair<Iso, std::string>> v{ { Iso::Identity(), "I" } };
  Iso b = rpyxyz(0.3, -0.5, 1.2, 0.4, -0.8, 1.5);
  v.push_back({ b, "P" });
  for (int d = 0; d < 3; ++d)
  {
    Iso q = b;
    q.translation()[d] += 1e-5;
    v.push_back({ q, "P+t" + str(d) });
    V3 ax = V3::Unit(d);
    v.push_back({ b * make(ax, 1e-5, V3::Zero()), "P+r" + str(d) });
  }
  v.push_back({ make(rot({ 0, 0, 1 }, PI), V3::Zero()), "half turn" });
  return v;
}
template <int D>
static void observations(vf::Ctx& c)
{
  std::vector<Item<ro::Observation<D, 3>>> v;
  auto S = sets<D>(2);
  auto P = poses();
  for (size_t i = 0; i < S.size(); ++i)
    for (size_t p = 0; p < P.size(); ++p)
      for (int which = 0; which < 2; ++which)
      {
        if (S[i].first.size() == 2 && p > 1)
          continue;
        ro::Observation<D, 3> o;
        o.correspondence_set = S[i].first;
        (which ? o.to_camera_mount : o.to_target_mount) = P[p].first;
        (which ? o.to_target_mount : o.to_camera_mount) = P[1].first;
        std::vector<double> k;
        put<D>(k, o.correspondence_set);
        put(k, o.to_camera_mount);
        put(k, o.to_target_mount);
        v.push_back({ o, k, S[i].second + (which ? " cam " : " tgt ") + P[p].second });
      }
  pairs(c, v);
}
static std::vector<std::pair<VX, std::string>> joints()
{
  std::vector<std::pair<VX, std::string>> v;
  v.push_back({ VX(0), "()" });
  for (int n = 1; n <= 3; ++n)
  {
    VX z = VX::Zero(n), q(n);
    for (int i = 0; i < n; ++i)
      q[i] = 0.7 * i - 0.4;
    v.push_back({ z, "0^" + str(n) });
    v.push_back({ q, "q" + str(n) });
    for (int i = 0; i < n; ++i)
      for (double e : { 1e-3, -1e-6 })
      {
        VX m = q;
        m[i] += e;
        v.push_back({ m, "q" + str(n) + "[" + str(i) + "]" + std::to_string(e) });
        VX w = z;
        w[i] += e;
        v.push_back({ w, "0^" + str(n) + "[" + str(i) + "]" + std::to_string(e) });
      }
  }
  return v;
}
template <int D>
static void kinObservations(vf::Ctx& c)
{
  std::vector<Item<ro::KinematicObservation<D, 3>>> v;
  auto S = sets<D>(2);
  auto Q = joints();
  auto add = [&](const typename C<D>::Set& s, const VX& a, const VX& b, const std::string& n) {
    ro::KinematicObservation<D, 3> o;
    o.correspondence_set = s;
    o.camera_chain_joints = a;
    o.target_chain_joints = b;
    std::vector<double> k;
    put<D>(k, s);
    put(k, a);
    put(k, b);
    v.push_back({ o, k, n });
  };
  for (size_t i = 0; i < Q.size(); ++i)
    for (int s : { 0, 2 })
    {
      add(S[s].first, Q[i].first, Q[2].first, S[s].second + " cam " + Q[i].second);
      add(S[s].first, Q[2].first, Q[i].first, S[s].second + " tgt " + Q[i].second);
    }
  for (auto& s : S)
    add(s.first, Q[2].first, Q[5].first, s.second);
  pairs(c, v);
}
static void measurements(vf::Ctx& c)
{
  std::vector<Item<ro::KinematicMeasurement>> v;
  auto Q = joints();
  auto P = poses();
  auto add = [&](const Iso& p, const VX& a, const VX& b, const std::string& n) {
    ro::KinematicMeasurement o;
    o.camera_to_target = p;
    o.camera_chain_joints = a;
    o.target_chain_joints = b;
    std::vector<double> k;
    put(k, p);
    put(k, a);
    put(k, b);
    v.push_back({ o, k, n });
  };
  for (auto& q : Q)
    for (int p : { 0, 1 })
    {
      add(P[p].first, q.first, Q[3].first, P[p].second + " cam " + q.second);
      add(P[p].first, Q[3].first, q.first, P[p].second + " tgt " + q.second);
    }
  for (auto& p : P)
    add(p.first, Q[2].first, Q[0].first, p.second);
  pairs(c, v);
}
static void intrinsicsCase(vf::Ctx& c)
{
  std::vector<Item<ro::CameraIntrinsics>> v;
  for (int b = 0; b < 3; ++b)
  {
    auto base = b == 0 ? intr(0, 0, 0, 0) : intrinsics()[b];
    auto add = [&](const ro::CameraIntrinsics& k, const std::string& n) { v.push_back({ k, { k.values[0], k.values[1], k.values[2], k.values[3] }, n }); };
    add(base, "K" + str(b));
    for (int i = 0; i < 4; ++i)
      for (double e : DELTA)
      {
        auto k = base;
        k.values[i] += e;
        add(k, "K" + str(b) + "[" + str(i) + "]+" + std::to_string(e));
      }
    auto k = base;
    std::swap(k.values[0], k.values[1]);
    add(k, "K" + str(b) + " swapped focal lengths");
    k = base;
    std::swap(k.values[2], k.values[3]);
    add(k, "K" + str(b) + " swapped centre");
    ro::CameraIntrinsics byname;
    byname.fx() = base.values[0];
    byname.fy() = base.values[1];
    byname.cx() = base.values[2];
    byname.cy() = base.values[3];
    add(byname, "K" + str(b) + " by name");
  }
  pairs(c, v);
}
template <class P>
static void problems(vf::Ctx& c)
{
  constexpr bool is2d = std::is_same<P, ro::ExtrinsicHandEyeProblem2D3D>::value;
  constexpr int D = is2d ? 2 : 3;
  std::vector<Item<P>> v;
  auto PP = poses();
  auto S = sets<D>(1);
  auto add = [&](const std::vector<std::pair<int, int>>& obs, int cam, int tgt, int k, const std::string& n) {
    P p;
    std::vector<double> key;
    key.push_back(3e9 + obs.size());
    for (auto& o : obs)
    {
      typename decltype(p.observations)::value_type x;
      x.correspondence_set = S[o.first].first;
      x.to_camera_mount = PP[o.second].first;
      p.observations.push_back(x);
      put<D>(key, x.correspondence_set);
      put(key, x.to_camera_mount);
    }
    p.camera_mount_to_camera_guess = PP[cam].first;
    p.target_mount_to_target_guess = PP[tgt].first;
    put(key, p.camera_mount_to_camera_guess);
    put(key, p.target_mount_to_target_guess);
    if constexpr (is2d)
    {
      auto K = intrinsics()[0];
      if (k)
        K.values[k - 1] += 0.5;
      p.intr = K;
      for (double x : K.values)
        key.push_back(x);
    }
    v.push_back({ p, key, n });
  };
  for (size_t i = 0; i < PP.size(); ++i)
  {
    add({ { 1, 0 } }, i, 1, 0, "cam " + PP[i].second);
    add({ { 1, 0 } }, 1, i, 0, "tgt " + PP[i].second);
    add({ { 1, 0 }, { 2, (int)i } }, 1, 2, 0, "obs pose " + PP[i].second);
    add({ { 2, (int)i }, { 1, 0 } }, 1, 2, 0, "reversed, obs pose " + PP[i].second);
  }
  for (size_t i = 0; i < S.size(); ++i)
    for (size_t j = 0; j < S.size(); ++j)
      add({ { (int)i, 0 }, { (int)j, 0 } }, 1, 1, 0, "obs " + S[i].second + " " + S[j].second);
  add({}, 1, 1, 0, "no observations");
  for (int k = 1; k <= 4 && is2d; ++k)
    add({ { 1, 0 } }, 1, 1, k, "intr" + str(k));
  pairs(c, v);
}

void vf::define(vf::Suite& s)
{
  s.property = "C09";
  s.rule = "all ordered pairs from a family of values per type: bases, every single-field change of 3 sizes, all correspondence sequences of length <= 2 "
           "(3 for sets alone) over 5 near-identical correspondences, all joint vectors of sizes 0..3 with single-entry changes. Distinct = ordered pair.";
  s.assumptions = { "changes below 1e-9 of the magnitude are not told apart by the fuzzy comparison and are outside the alphabet" };
  s.add("intrinsics", intrinsicsCase);
  s.add("correspondence/2", [](vf::Ctx& c) { pairs(c, corrs<2>()); });
  s.add("correspondence/3", [](vf::Ctx& c) { pairs(c, corrs<3>()); });
  s.add("observation/2", observations<2>);
  s.add("observation/3", observations<3>);
  s.add("kinobservation/2", kinObservations<2>);
  s.add("kinobservation/3", kinObservations<3>);
  s.add("measurement", measurements);
  s.add("problem/2", problems<ro::ExtrinsicHandEyeProblem2D3D>);
  s.add("problem/3", problems<ro::ExtrinsicHandEyeProblem3D3D>);
}

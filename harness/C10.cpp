// LIBS: opt
// C10: YAML round trip of every serialisable type, and refusal of every structurally damaged document.
#include "kit.h"
#include <limits>
#include <rct_optimizations/serialization/problems.h>

using namespace kit;
namespace ro = rct_optimizations;

// ------------------------------------------------------------------ text forms: everything goes through text
static std::string text(const YAML::Node& n, int form)
{
  YAML::Emitter e;
  if (form == 1)
    e << YAML::Flow;
  if (form == 2)
    e << YAML::BeginDoc;
  e << n;
  return e.c_str();
}

// ------------------------------------------------------------------ comparison (exact for numbers, tight for orientations)
static void same(vf::Ctx& c, double a, double b, const std::string& w)
{
  c.require(a == b || (std::isnan(a) && std::isnan(b)), w, ": loaded ", a, ", saved ", b);
}
static void same(vf::Ctx& c, const ro::CameraIntrinsics& a, const ro::CameraIntrinsics& b, const std::string& w)
{
  const char* n[] = { "fx", "fy", "cx", "cy" };
  for (int i = 0; i < 4; ++i)
    same(c, a.values[i], b.values[i], w + "." + n[i]);
}
template <class F, int N>
static void same(vf::Ctx& c, const Eigen::Matrix<F, N, 1>& a, const Eigen::Matrix<F, N, 1>& b, const std::string& w)
{
  for (int i = 0; i < N; ++i)
    same(c, a[i], b[i], w + "[" + str(i) + "]");
}
static void samePose(vf::Ctx& c, const Iso& a, const Iso& b, double tol, const std::string& w)
{
  for (int i = 0; i < 3; ++i)
    same(c, a.translation()[i], b.translation()[i], w + " translation " + str(i));
  double e = (a.linear() - b.linear()).cwiseAbs().maxCoeff();
  c.require(e <= tol, w, ": orientation off by ", e);
  requireRigid(c, a, 1e-12, w);
}
static void same(vf::Ctx& c, const Iso& a, const Iso& b, const std::string& w) { samePose(c, a, b, 1e-13, w); }
static void same(vf::Ctx& c, const Eigen::Isometry3f& a, const Eigen::Isometry3f& b, const std::string& w)
{
  for (int i = 0; i < 3; ++i)
    same(c, a.translation()[i], b.translation()[i], w + " translation");
  c.require((a.linear() - b.linear()).cwiseAbs().maxCoeff() <= 1e-5f, w, ": orientation");
}
template <Eigen::Index S, Eigen::Index W>
static void same(vf::Ctx& c, const ro::Correspondence<S, W>& a, const ro::Correspondence<S, W>& b, const std::string& w)
{
  for (int i = 0; i < S; ++i)
    same(c, a.in_image[i], b.in_image[i], w + ".in_image[" + str(i) + "]");
  for (int i = 0; i < W; ++i)
    same(c, a.in_target[i], b.in_target[i], w + ".in_target[" + str(i) + "]");
}
template <Eigen::Index S, Eigen::Index W>
static void same(vf::Ctx& c, const ro::Observation<S, W>& a, const ro::Observation<S, W>& b, const std::string& w);
template <class T, class A>
static void same(vf::Ctx& c, const std::vector<T, A>& a, const std::vector<T, A>& b, const std::string& w)
{
  c.require(a.size() == b.size(), w, ": ", a.size(), " elements loaded, ", b.size(), " saved");
  for (size_t i = 0; i < a.size(); ++i)
    same(c, a[i], b[i], w + "[" + str(i) + "]");
}
template <Eigen::Index S, Eigen::Index W>
static void same(vf::Ctx& c, const ro::Observation<S, W>& a, const ro::Observation<S, W>& b, const std::string& w)
{
  same(c, a.correspondence_set, b.correspondence_set, w + ".correspondences");
  same(c, a.to_camera_mount, b.to_camera_mount, w + ".to_camera_mount");
  same(c, a.to_target_mount, b.to_target_mount, w + ".to_target_mount");
}
static void same(vf::Ctx& c, const ro::ExtrinsicHandEyeProblem2D3D& a, const ro::ExtrinsicHandEyeProblem2D3D& b, const std::string& w)
{
  same(c, a.intr, b.intr, w + ".intr");
  same(c, a.observations, b.observations, w + ".observations");
  same(c, a.camera_mount_to_camera_guess, b.camera_mount_to_camera_guess, w + ".camera guess");
  same(c, a.target_mount_to_target_guess, b.target_mount_to_target_guess, w + ".target guess");
}
static void same(vf::Ctx& c, const ro::ExtrinsicHandEyeProblem3D3D& a, const ro::ExtrinsicHandEyeProblem3D3D& b, const std::string& w)
{
  same(c, a.observations, b.observations, w + ".observations");
  same(c, a.camera_mount_to_camera_guess, b.camera_mount_to_camera_guess, w + ".camera guess");
  same(c, a.target_mount_to_target_guess, b.target_mount_to_target_guess, w + ".target guess");
}
static void same(vf::Ctx& c, const ro::ExtrinsicHandEyeResult& a, const ro::ExtrinsicHandEyeResult& b, const std::string& w)
{
  c.require(a.converged == b.converged, w, ".converged differs");
  same(c, a.initial_cost_per_obs, b.initial_cost_per_obs, w + ".initial_cost_per_obs");
  same(c, a.final_cost_per_obs, b.final_cost_per_obs, w + ".final_cost_per_obs");
  samePose(c, a.camera_mount_to_camera, b.camera_mount_to_camera, 1e-9, w + ".camera_mount_to_camera");
  samePose(c, a.target_mount_to_target, b.target_mount_to_target, 1e-9, w + ".target_mount_to_target");
}

template <class T>
static void trip(vf::Ctx& c, const T& v, const std::string& w, const T& prefill = T())
{
  for (int form = 0; form < 3; ++form)
  {
    std::string s = text(YAML::Node(v), form);
    T r = YAML::Load(s).as<T>();
    same(c, r, v, w);
    // decoding into a value that already holds something else leaves nothing of it behind
    T r2 = prefill;
    c.require(YAML::convert<T>::decode(YAML::Load(s), r2), w, ": refused its own document");
    same(c, r2, v, w + " (into used object)");
    // saving what was loaded gives a document that loads to the same again
    T r3 = YAML::Load(text(YAML::Node(r), 0)).as<T>();
    same(c, r3, v, w + " (second generation)");
    c.eval(s + str(form));
  }
}

// ------------------------------------------------------------------ alphabets
static const std::vector<double>& reals()
{
  static std::vector<double> v = { 0.0,   1.0,    -1.0,     0.1,     -1.0 / 3.0, 123456.789012345678, 1e-7, -2.5e10, 1e-300, 1.7976931348623157e308,
                                   -0.0,  4096.0, 1e17 + 2, 1e-5,    3.14159265358979323846, 1 + 2.220446049250313e-16, std::numeric_limits<double>::infinity() };
  return v;
}
static std::vector<Iso> poses()
{
  std::vector<Iso> v;
  const V3 axes[] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 1, 1 }, { -1, 2, 0.5 }, { 1, 0, -1 } };
  const double ang[] = { 0, 1e-9, 0.3, PI / 2, -PI / 2, 2.0, PI - 1e-9, PI, -3.0 };
  for (auto& a : axes)
    for (double g : ang)
      v.push_back(make(a, g, V3(0.1 * v.size(), -1.0 / 3.0, 1e-5 * v.size())));
  // all combinations of roll/pitch/yaw around the gimbal positions
  for (int r = -2; r <= 2; ++r)
    for (int p = -2; p <= 2; ++p)
      for (int y = -2; y <= 2; ++y)
        v.push_back(rpyxyz(r * PI / 2 * 0.999, p * PI / 4, y * 1.5, r, p, y + 0.125));
  for (double p : { PI / 2 - 1e-6, -PI / 2 + 1e-6, PI / 2 - 1e-4 })
    v.push_back(rpyxyz(0.4, p, -0.7, 1, 2, 3));
  return v;
}
static Iso pose(int i)
{
  static auto p = poses();
  return p[(i * 37 + 11) % p.size()];
}
template <int S>
static ro::Correspondence<S, 3> corr(int i)
{
  ro::Correspondence<S, 3> q;
  for (int d = 0; d < S; ++d)
    q.in_image[d] = 100.0 * d + i / 7.0;
  for (int d = 0; d < 3; ++d)
    q.in_target[d] = -0.01 * d + i / 3.0;
  return q;
}
template <int S>
static ro::Observation<S, 3> obs(int i, int n)
{
  ro::Observation<S, 3> o;
  o.to_camera_mount = pose(2 * i);
  o.to_target_mount = pose(2 * i + 1);
  for (int k = 0; k < n; ++k)
    o.correspondence_set.push_back(corr<S>(10 * i + k));
  return o;
}
template <class P, int S>
static P problem(int nobs, int ncorr)
{
  P p;
  p.camera_mount_to_camera_guess = pose(100);
  p.target_mount_to_target_guess = pose(101);
  for (int i = 0; i < nobs; ++i)
    p.observations.push_back(obs<S>(i, (ncorr + i) % 5));
  return p;
}
static ro::ExtrinsicHandEyeProblem2D3D problem2(int nobs, int ncorr)
{
  auto p = problem<ro::ExtrinsicHandEyeProblem2D3D, 2>(nobs, ncorr);
  p.intr = intr(500.25, 501.5, 320.125, 240.75);
  return p;
}
static ro::ExtrinsicHandEyeProblem3D3D problem3(int nobs, int ncorr) { return problem<ro::ExtrinsicHandEyeProblem3D3D, 3>(nobs, ncorr); }
static ro::ExtrinsicHandEyeResult result(int i, bool conv, const Iso& cam, const Iso& tgt)
{
  ro::ExtrinsicHandEyeResult r;
  r.converged = conv;
  r.initial_cost_per_obs = reals()[i % reals().size()];
  r.final_cost_per_obs = reals()[(i + 3) % reals().size()];
  r.camera_mount_to_camera = cam;
  r.target_mount_to_target = tgt;
  return r;
}

// ------------------------------------------------------------------ damage: every single structural fault of a document
struct Damage
{
  std::string what, doc;
};
using Path = std::vector<std::string>;
static YAML::Node at(YAML::Node n, const Path& p)
{
  for (auto& k : p)
  {
    YAML::Node next = n.IsSequence() ? n[std::stoi(k)] : n[k];
    n.reset(next);
  }
  return n;
}
static void walk(const YAML::Node& n, Path p, std::vector<Path>& out)
{
  out.push_back(p);
  if (n.IsMap())
    for (auto kv : n)
    {
      Path q = p;
      q.push_back(kv.first.as<std::string>());
      walk(kv.second, q, out);
    }
  if (n.IsSequence())
    for (size_t i = 0; i < n.size(); ++i)
    {
      Path q = p;
      q.push_back(str((int)i));
      walk(n[i], q, out);
    }
}
static std::string join(const Path& p)
{
  std::string s;
  for (auto& k : p)
    s += "/" + k;
  return s.empty() ? "/" : s;
}
/** replaces the node at p by the text t (parsed), returns the new document text */
static YAML::Node rebuild(const YAML::Node& n, const Path& p, size_t i, const std::function<YAML::Node(const YAML::Node&)>& f)
{
  if (i == p.size())
    return f(n);
  YAML::Node out(n.Type());
  if (n.IsMap())
    for (auto kv : n)
    {
      std::string k = kv.first.as<std::string>();
      out[k] = k == p[i] ? rebuild(kv.second, p, i + 1, f) : YAML::Clone(kv.second);
    }
  else
    for (size_t j = 0; j < n.size(); ++j)
      out.push_back(str((int)j) == p[i] ? rebuild(n[j], p, i + 1, f) : YAML::Clone(n[j]));
  return out;
}
static std::vector<Damage> damages(const std::string& doc, bool allow_extra, const std::set<std::string>& text_fields)
{
  YAML::Node root = YAML::Load(doc);
  std::vector<Path> paths;
  walk(root, {}, paths);
  std::vector<Damage> out;
  auto put = [&](const std::string& w, const Path& p, const std::function<YAML::Node(const YAML::Node&)>& f) {
    out.push_back({ w + " at " + join(p), text(rebuild(root, p, 0, f), 0) });
  };
  for (auto& p : paths)
  {
    YAML::Node n = at(YAML::Load(doc), p);
    bool is_text = !p.empty() && text_fields.count(p.back());
    if (n.IsMap())
    {
      for (auto kv : n)
      {
        std::string k = kv.first.as<std::string>();
        put("field " + k + " missing", p, [&](const YAML::Node& m) {
          YAML::Node o(YAML::NodeType::Map);
          for (auto e : m)
            if (e.first.as<std::string>() != k)
              o[e.first.as<std::string>()] = YAML::Clone(e.second);
          return o;
        });
        for (auto& k2 : { k + "_", std::string("X"), k.substr(0, k.size() - 1) + "Q", "_" + k })
          put("field " + k + " spelled " + k2, p, [&](const YAML::Node& m) {
            YAML::Node o(YAML::NodeType::Map);
            for (auto e : m)
            {
              std::string key = e.first.as<std::string>();
              o[key == k ? k2 : key] = YAML::Clone(e.second);
            }
            return o;
          });
      }
      if (!allow_extra)
        for (auto& k : { "extra", "w", "0", "X" })
          for (auto& v : { "1.0", "null", "[1, 2]" })
            put(std::string("additional field ") + k, p, [&](const YAML::Node& m) {
              YAML::Node o = YAML::Clone(m);
              o[k] = YAML::Load(v);
              return o;
            });
      // a list of the same length instead of a map
      put("list instead of map", p, [&](const YAML::Node& m) {
        YAML::Node o(YAML::NodeType::Sequence);
        for (auto e : m)
          o.push_back(YAML::Clone(e.second));
        return o;
      });
    }
    std::vector<std::string> bad;
    if (n.IsScalar() && !is_text)
      bad = { "abc", "\"\"", "null", "[]", "{}", "[1.0]", "{x: 1.0}", "1.0x", "'1 2'", "--3", "2.5.1" };
    else if (n.IsScalar())
      bad = { "[]", "{}", "[a]", "{x: a}" };
    else if (n.IsMap())
      bad = { "1.0", "abc", "null", "[]", "{}" };
    else if (n.IsSequence())
      bad = { "1.0", "abc", "null", "{a: 1}", "[1.0]", "[null]", "[[]]", "[{}]" };
    for (auto& b : bad)
      put("value " + b, p, [&](const YAML::Node&) { return YAML::Load(b); });
  }
  return out;
}
template <class T>
static void refuse(vf::Ctx& c, const std::string& doc, bool allow_extra = false, const std::set<std::string>& text_fields = {})
{
  YAML::Load(doc).as<T>();  // the undamaged document is fine
  auto ds = damages(doc, allow_extra, text_fields);
  c.require(ds.size() > 5, "no damages enumerated");
  for (auto& d : ds)
  {
    bool refused = throws([&]() { YAML::Load(d.doc).as<T>(); });
    c.require(refused, "damaged document was decoded: ", d.what, "\n", d.doc);
    c.eval(d.doc);
  }
  c.outcome("refused");
}
template <class T>
static void refuseV(vf::Ctx& c, const T& v)
{
  refuse<T>(c, text(YAML::Node(v), 0));
}

static std::string iso(const Iso& p)
{
  return text(YAML::Node(p), 1);
}
struct JointDoc
{
  int type;
  double d, theta, r, alpha;
  std::string name;
};
static std::string joint(const JointDoc& j)
{
  YAML::Node n;
  n["joint_name"] = j.name;
  n["type"] = j.type;
  n["alpha"] = j.alpha;
  n["d"] = j.d;
  n["r"] = j.r;
  n["theta"] = j.theta;
  return text(n, 1);
}
static std::string chain(const Iso& base, const std::vector<JointDoc>& js)
{
  std::string s = "base_transform: " + iso(base) + "\ndh_transforms:\n";
  if (js.empty())
    return "base_transform: " + iso(base) + "\ndh_transforms: []\n";
  for (auto& j : js)
    s += "  - " + joint(j) + "\n";
  return s;
}

void vf::define(Suite& s)
{
  s.property = "C10";
  s.rule = "every value of the alphabets (all reals in every field, all poses, all container sizes 0..4 per level) through text in block, flow and "
           "document form; every single structural fault (missing/extra/misspelled/ill-typed field at every depth) of every document shape must be refused";
  s.assumptions = { "yaml-cpp parses and emits scalars faithfully" };

  s.add("intrinsics", [](Ctx& c) {
    for (int f = 0; f < 4; ++f)
      for (double v : reals())
      {
        auto k = intr(500.25, 501.5, 320.125, 240.75);
        k.values[f] = v;
        trip(c, k, "intrinsics", intr(1, 2, 3, 4));
      }
  });
  s.add("vectors", [](Ctx& c) {
    for (int f = 0; f < 3; ++f)
      for (double v : reals())
      {
        Eigen::Vector3d a(1.5, 2.5, 3.5);
        a[f] = v;
        trip<Eigen::Vector3d>(c, a, "Vector3d", Eigen::Vector3d(7, 8, 9));
        if (f < 2)
        {
          Eigen::Vector2d b(1.5, 2.5);
          b[f] = v;
          trip<Eigen::Vector2d>(c, b, "Vector2d", Eigen::Vector2d(7, 8));
        }
        if (std::fabs(v) < 1e30 && (v == 0 || std::fabs(v) > 1e-30))
        {
          Eigen::Vector3f a(1.5f, 2.5f, 3.5f);
          a[f] = (float)v;
          trip<Eigen::Vector3f>(c, a, "Vector3f", Eigen::Vector3f(7, 8, 9));
          if (f < 2)
          {
            Eigen::Vector2f b(1.5f, 2.5f);
            b[f] = (float)v;
            trip<Eigen::Vector2f>(c, b, "Vector2f", Eigen::Vector2f(7, 8));
          }
        }
      }
  });
  s.add("poses", [](Ctx& c) {
    for (auto& p : poses())
    {
      trip<Iso>(c, p, "pose", pose(5));
      trip<Eigen::Isometry3f>(c, Eigen::Isometry3f(p.cast<float>()), "float pose", Eigen::Isometry3f::Identity());
    }
    for (int f = 0; f < 3; ++f)
      for (double v : reals())
      {
        if (std::isinf(v))
          continue;
        Iso p = pose(3);
        p.translation()[f] = v;
        trip<Iso>(c, p, "pose", pose(5));
      }
  });
  for (int n = 0; n <= 5; ++n)
    s.add("correspondences/" + str(n), [=](Ctx& c) {
      ro::Correspondence2D3D::Set a, pa(3, corr<2>(77));
      ro::Correspondence3D3D::Set b, pb(3, corr<3>(77));
      for (int i = 0; i < n; ++i)
      {
        a.push_back(corr<2>(i));
        b.push_back(corr<3>(i));
        trip(c, corr<2>(i), "Correspondence2D3D", corr<2>(99));
        trip(c, corr<3>(i), "Correspondence3D3D", corr<3>(99));
      }
      trip(c, a, "Correspondence2D3D::Set", pa);
      trip(c, b, "Correspondence3D3D::Set", pb);
      for (int k = 0; k < 5; ++k)
      {
        trip(c, obs<2>(k, n), "Observation2D3D", obs<2>(9, 2));
        trip(c, obs<3>(k, n), "Observation3D3D", obs<3>(9, 2));
      }
      for (int m = 0; m <= 3; ++m)
      {
        ro::Observation2D3D::Set oa;
        ro::Observation3D3D::Set ob;
        for (int k = 0; k < m; ++k)
        {
          oa.push_back(obs<2>(k, (n + k) % 5));
          ob.push_back(obs<3>(k, (n + k) % 5));
        }
        trip(c, oa, "Observation2D3D::Set");
        trip(c, ob, "Observation3D3D::Set");
      }
    });
  for (int no = 0; no <= 4; ++no)
    for (int nc = 0; nc <= 4; ++nc)
      s.add("problem/" + str(no) + "/" + str(nc), [=](Ctx& c) {
        trip(c, problem2(no, nc), "ExtrinsicHandEyeProblem2D3D", problem2(2, 3));
        trip(c, problem3(no, nc), "ExtrinsicHandEyeProblem3D3D", problem3(2, 3));
      });
  for (int n : { 10, 33, 65, 100, 130, 257, 1030 })
    s.add("large/" + str(n), [=](Ctx& c) {
      ro::Correspondence2D3D::Set a;
      ro::Correspondence3D3D::Set b;
      for (int i = 0; i < n; ++i)
      {
        a.push_back(corr<2>(i));
        b.push_back(corr<3>(i));
      }
      trip(c, a, "Correspondence2D3D::Set");
      trip(c, b, "Correspondence3D3D::Set");
      trip(c, obs<2>(1, n), "Observation2D3D", obs<2>(9, 2));
      trip(c, obs<3>(1, n), "Observation3D3D", obs<3>(9, 2));
      if (n < 300)
      {
        trip(c, problem2(n, 2), "ExtrinsicHandEyeProblem2D3D", problem2(2, 3));
        trip(c, problem3(n, 3), "ExtrinsicHandEyeProblem3D3D", problem3(2, 3));
      }
    });
  for (int part = 0; part < 8; ++part)
    s.add("result/" + str(part), [=](Ctx& c) {
      auto P = poses();
      for (size_t i = part; i < P.size(); i += 8)
        for (int conv = 0; conv < 2; ++conv)
        {
          trip(c, result(i, conv, P[i], P[(i * 31 + 7) % P.size()]), "ExtrinsicHandEyeResult", result(1, !conv, pose(1), pose(2)));
          trip(c, result(i + 5, conv, P[(i * 17 + 3) % P.size()], P[i]), "ExtrinsicHandEyeResult", result(2, !conv, pose(1), pose(2)));
        }
    });

  // ---------------------------------------------------------------- DH chains (decode only)
  s.add("chain/decode", [](Ctx& c) {
    const double par[][4] = { { 0, 0, 0, 0 }, { 0.1, 0.2, 0.3, 0.4 }, { -0.5, 1.5707963267948966, 1.25, -1.5707963267948966 }, { 1e-7, -3, 2, 1.0 / 3.0 } };
    for (int n = 0; n <= 4; ++n)
      for (int mask = 0; mask < (1 << n); ++mask)
        for (int b = 0; b < 4; ++b)
        {
          std::vector<JointDoc> js;
          for (int i = 0; i < n; ++i)
            js.push_back({ (mask >> i) & 1, par[(i + b) % 4][0], par[(i + b) % 4][1], par[(i + b) % 4][2], par[(i + b) % 4][3], "j" + str(7 - i) });
          std::string doc = chain(pose(b), js);
          auto check = [&](const ro::DHChain& ch) {
            c.require((int)ch.dof() == n, "chain has ", ch.dof(), " joints, document ", n);
            auto T = ch.getDHTable();
            auto ty = ch.getJointTypes();
            c.require(T.rows() == n && T.cols() == 4 && (int)ty.size() == n, "table size");
            for (int i = 0; i < n; ++i)
            {
              for (int k = 0; k < 4; ++k)
                same(c, T(i, k), (&js[i].d)[k], "joint " + str(i) + " parameter " + str(k));
              c.require((int)ty[i] == js[i].type, "joint type ", i);
            }
            Eigen::VectorXd zero = Eigen::VectorXd::Zero(n);
            Iso want = pose(b);
            for (int i = 0; i < n; ++i)
              want = want * make({ 0, 0, 1 }, js[i].theta, { 0, 0, js[i].d }) * make({ 1, 0, 0 }, js[i].alpha, { js[i].r, 0, 0 });
            requireSame(c, Iso(ch.getFK(zero)), want, 1e-11, 1e-11, "FK of the loaded chain");
            auto rel = ch.getRelativeTransform(0, 0.0);
            (void)rel;
          };
          if (n == 0)
          {
            ro::DHChain ch = YAML::Load(doc).as<ro::DHChain>();
            c.require(ch.dof() == 0, "empty chain");
            continue;
          }
          ro::DHChain ch = YAML::Load(doc).as<ro::DHChain>();
          check(ch);
          // into an object that already holds another chain
          ro::DHChain used = YAML::Load(chain(pose(8), { { 1, 1, 2, 3, 4, "x" }, { 0, 1, 2, 3, 4, "y" } })).as<ro::DHChain>();
          c.require(YAML::convert<ro::DHChain>::decode(YAML::Load(doc), used), "refused");
          check(used);
          c.eval(doc);
        }
    for (int t = 0; t < 2; ++t)
      for (auto& p : par)
      {
        JointDoc j{ t, p[0], p[1], p[2], p[3], "some joint" };
        auto d = YAML::Load(joint(j)).as<ro::DHTransform>();
        c.require((int)d.type == t && d.name == "some joint", "joint type or name");
        for (int k = 0; k < 4; ++k)
          same(c, d.params[k], p[k], "joint parameter");
        c.eval(joint(j));
      }
  });
  s.add("chain/damaged", [](Ctx& c) {
    std::set<std::string> tf = { "joint_name" };
    for (int n = 1; n <= 3; ++n)
    {
      std::vector<JointDoc> js;
      for (int i = 0; i < n; ++i)
        js.push_back({ i % 2, 0.1 + i, 0.2 + i, 0.3 + i, 0.4 + i, "joint" + str(i) });
      refuse<ro::DHTransform>(c, joint(js[0]), true, tf);
      // the base transform is refused with additional fields, the joints and the chain may carry application data
      refuse<ro::DHChain>(c, chain(pose(1), js), true, tf);
      for (int t : { 2, 3, 7, 100, -1 })
      {
        auto k = js;
        k.back().type = t;
        c.require(throws([&]() { YAML::Load(chain(pose(1), k)).as<ro::DHChain>(); }), "joint type ", t, " was accepted");
        c.eval("type" + str(t) + str(n));
      }
    }
  });

  // ---------------------------------------------------------------- damage of all other documents
  s.add("damaged/plain", [](Ctx& c) {
    refuseV(c, intr(500.25, 501.5, 320.125, 240.75));
    refuseV(c, Eigen::Vector2d(1, 2));
    refuseV(c, Eigen::Vector3d(1, 2, 3));
    refuseV(c, Eigen::Vector2f(1, 2));
    refuseV(c, Eigen::Vector3f(1, 2, 3));
    refuseV(c, pose(2));
    refuseV(c, Eigen::Isometry3f(pose(2).cast<float>()));
    refuseV(c, corr<2>(1));
    refuseV(c, corr<3>(1));
    // a document of another dimension
    c.require(throws([&]() { YAML::Load(text(YAML::Node(Eigen::Vector3d(1, 2, 3)), 0)).as<Eigen::Vector2d>(); }), "3-vector read as 2-vector");
    c.require(throws([&]() { YAML::Load(text(YAML::Node(Eigen::Vector2d(1, 2)), 0)).as<Eigen::Vector3d>(); }), "2-vector read as 3-vector");
    c.require(throws([&]() { YAML::Load(text(YAML::Node(corr<3>(1)), 0)).as<Corr2>(); }), "3D correspondence read as 2D");
    c.require(throws([&]() { YAML::Load(text(YAML::Node(corr<2>(1)), 0)).as<Corr3>(); }), "2D correspondence read as 3D");
    c.require(throws([&]() { YAML::Load(text(YAML::Node(problem3(1, 1)), 0)).as<ro::ExtrinsicHandEyeProblem2D3D>(); }), "3D problem read as 2D");
    c.require(throws([&]() { YAML::Load(text(YAML::Node(problem2(1, 1)), 0)).as<ro::ExtrinsicHandEyeProblem3D3D>(); }), "2D problem read as 3D");
    c.eval(std::string("dims"));
  });
  for (int n = 0; n <= 2; ++n)
    s.add("damaged/observation/" + str(n), [=](Ctx& c) {
      refuseV(c, obs<2>(1, n));
      refuseV(c, obs<3>(1, n));
    });
  for (int no = 0; no <= 2; ++no)
    s.add("damaged/problem/" + str(no), [=](Ctx& c) {
      refuseV(c, problem2(no, 1));
      refuseV(c, problem3(no, 1));
    });
  s.add("damaged/result", [](Ctx& c) {
    refuseV(c, result(3, true, pose(1), pose(2)));
    refuseV(c, result(4, false, pose(3), pose(4)));
  });
}

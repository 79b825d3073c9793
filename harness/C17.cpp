// LIBS: img ros
// C17: target layouts, pairing of features with target points, loading of targets from configurations.
#include "kit.h"
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/imgproc.hpp>
#include <pluginlib/class_list_macros.h>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_ros_tools/loader_utils.h>
#include <ros/console.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <yaml-cpp/yaml.h>

using namespace kit;
using namespace rct_image_tools;
using rct_ros_tools::TargetFinderPlugin;

/** image location of the k-th feature of id: all different, not representable as float, no symmetry */
static V2 spot(unsigned id, unsigned k) { return V2(100.1 + 7.3 * id + 1.7 * k, 900.3 - 3.9 * id + 0.31 * k * k); }

template <class T>
static Corr2::Set pairUp(vf::Ctx& c, const T& t, const TargetFeatures& f)
{
  TargetFeatures copy = f;
  auto r = t.createCorrespondences(f);
  c.require(copy == f, "pairing does not change the features");
  return r;
}
/** every correspondence of the result must be one of the expected pairs, each exactly once */
static void requirePairs(vf::Ctx& c, const Corr2::Set& got, std::vector<std::pair<V2, V3>> want, double tol, const std::string& what)
{
  c.require(got.size() == want.size(), what + ": one pair per observed feature", str(got.size()) + " vs " + str(want.size()));
  for (auto& g : got)
  {
    bool hit = false;
    for (size_t i = 0; i < want.size() && !hit; ++i)
      if (want[i].first == g.in_image)
      {
        hit = true;
        double e = (want[i].second - g.in_target).norm();
        if (!(e <= tol))
          c.fail(what + ": feature paired with its own target point", "image " + str(g.in_image.transpose()) + " target " + str(g.in_target.transpose()) + " expected " + str(want[i].second.transpose()));
        want.erase(want.begin() + i);
      }
    c.require(hit, what + ": image location kept exactly");
  }
  c.eval();
}
static bool throwsStd(const std::function<void()>& f)
{
  try
  {
    f();
  }
  catch (const std::exception&)
  {
    return true;
  }
  return false;
}
static std::vector<std::vector<int>> subsetsOf(int n)
{
  std::vector<std::vector<int>> r;
  for (int m = 0; m < (1 << n); ++m)
  {
    std::vector<int> s;
    for (int i = 0; i < n; ++i)
      if (m >> i & 1)
        s.push_back(i);
    r.push_back(s);
  }
  return r;
}

// ------------------------------------------------------------------ modified circle grid
static V3 circlePoint(int rows, int cols, double s, int i) { return V3((i % cols) * s, (rows - 1 - i / cols) * s, 0); }

static void circleLayout(vf::Ctx& c, int rows, int cols)
{
  for (double s : { 0.015, 1.0, 0.1 / 3, 25.4, 1e-4 })
  {
    ModifiedCircleGridTarget t(rows, cols, s);
    auto P = t.createPoints();
    c.require((int)P.size() == rows * cols, "one point per dot");
    TargetFeatures f;
    std::vector<std::pair<V2, V3>> want;
    for (int i = 0; i < rows * cols; ++i)
    {
      c.require((P[i] - circlePoint(rows, cols, s, i)).norm() <= 1e-12 * s * (rows + cols), "point at its physical place", str(i) + ": " + str(P[i].transpose()));
      f[i].push_back(spot(i, 0));
      want.emplace_back(spot(i, 0), circlePoint(rows, cols, s, i));
    }
    requirePairs(c, pairUp(c, t, f), want, 1e-12 * s * (rows + cols), "complete set");
    if (s != 1.0)
      continue;
    // every missing, surplus and replaced feature
    for (int i = 0; i < rows * cols; ++i)
    {
      TargetFeatures m = f;
      m.erase(i);
      if (!throwsStd([&] { t.createCorrespondences(m); }))
        c.fail("incomplete grid refused", "missing " + str(i));
      for (unsigned foreign : { (unsigned)(rows * cols), (unsigned)(rows * cols + 3), 1000u, 0xffffffffu })
      {
        TargetFeatures x = m;
        x[foreign].push_back(V2(1, 2));
        if (!throwsStd([&] { t.createCorrespondences(x); }))
          c.fail("foreign feature refused", "instead of " + str(i) + ": " + str(foreign));
        x = f;
        x[foreign].push_back(V2(1, 2));
        if (i == 0 && !throwsStd([&] { t.createCorrespondences(x); }))
          c.fail("surplus feature refused", str(foreign));
        c.eval();
      }
      TargetFeatures e = f;
      e[i].clear();
      if (!throwsStd([&] { t.createCorrespondences(e); }))
        c.fail("feature without location refused", str(i));
      c.eval();
    }
    if (!throwsStd([&] { t.createCorrespondences(TargetFeatures()); }))
      c.fail("empty feature set refused");
  }
}

// ------------------------------------------------------------------ aruco grid
static V3 arucoPoint(int cols, double len, double gap, int m, int k)
{
  V3 o((m % cols) * (len + gap), (m / cols) * (len + gap), 0);
  return o + V3(k == 1 || k == 2 ? len : 0, k >= 2 ? len : 0, 0);
}
struct ArucoSpec
{
  int rows, cols;
  float len, gap;
  int dict, first;
};
static ArucoGridTarget arucoTarget(const ArucoSpec& s)
{
  if (s.first < 0)
    return ArucoGridTarget(s.rows, s.cols, s.len, s.gap, s.dict);
  return ArucoGridTarget(cv::aruco::GridBoard::create(s.cols, s.rows, s.len, s.gap, cv::aruco::getPredefinedDictionary(s.dict), s.first));
}
static void arucoLayout(vf::Ctx& c, const ArucoSpec& s, bool all)
{
  ArucoGridTarget t = arucoTarget(s);
  int n = s.rows * s.cols, first = std::max(0, s.first);
  double tol = 1e-6 * (s.len + s.gap) * (s.rows + s.cols);
  c.require((int)t.points.size() == n, "one entry per marker");
  for (int m = 0; m < n; ++m)
  {
    auto it = t.points.find(first + m);
    c.require(it != t.points.end() && it->second.size() == 4, "every marker has four corners");
    for (int k = 0; k < 4; ++k)
      c.require((it->second[k] - arucoPoint(s.cols, s.len, s.gap, m, k)).norm() <= tol, "corner at its physical place", str(m) + "/" + str(k) + ": " + str(it->second[k].transpose()));
  }
  std::vector<std::vector<int>> S;
  if (all)
    S = subsetsOf(n);
  else
  {  // every single one, every single one missing, all
    for (int i = 0; i < n; ++i)
    {
      std::vector<int> r;
      for (int j = 0; j < n; ++j)
        if (j != i)
          r.push_back(j);
      S.push_back({ i });
      S.push_back(r);
    }
  }
  for (auto& sub : S)
  {
    TargetFeatures f;
    std::vector<std::pair<V2, V3>> want;
    for (int m : sub)
      for (int k = 0; k < 4; ++k)
      {
        f[first + m].push_back(spot(first + m, k));
        want.emplace_back(spot(first + m, k), arucoPoint(s.cols, s.len, s.gap, m, k));
      }
    requirePairs(c, pairUp(c, t, f), want, tol, "subset");
    for (int foreign : { first + n, first + n + 5, first - 1, 1 << 20 })
    {
      if (foreign < 0)
        continue;
      TargetFeatures x = f;
      for (int k = 0; k < 4; ++k)
        x[foreign].push_back(V2(k, 1));
      if (!throwsStd([&] { t.createCorrespondences(x); }))
        c.fail("foreign marker refused", str(foreign));
      c.eval();
    }
    for (int m : sub)
    {  // a fifth corner does not exist
      TargetFeatures x = f;
      x[first + m].push_back(V2(0, 0));
      if (!throwsStd([&] { t.createCorrespondences(x); }))
        c.fail("fifth corner refused", str(m));
      c.eval();
    }
  }
}

// ------------------------------------------------------------------ charuco grid
static void charucoLayout(vf::Ctx& c, int rows, int cols, float sq, float mk, int dict, bool all)
{
  CharucoGridTarget t(rows, cols, sq, mk, dict);
  int nx = cols - 1, n = (rows - 1) * nx;
  double tol = 1e-6 * sq * (rows + cols);
  auto pt = [&](int i) { return V3((i % nx + 1) * double(sq), (i / nx + 1) * double(sq), 0); };
  c.require((int)t.points.size() == n, "one entry per inner corner");
  for (int i = 0; i < n; ++i)
  {
    auto it = t.points.find(i);
    c.require(it != t.points.end() && (it->second - pt(i)).norm() <= tol, "corner at its physical place", str(i));
  }
  std::vector<std::vector<int>> S;
  if (all)
    S = subsetsOf(n);
  else
    for (int i = 0; i < n; ++i)
    {
      std::vector<int> r;
      for (int j = 0; j < n; ++j)
        if (j != i)
          r.push_back(j);
      S.push_back({ i });
      S.push_back(r);
    }
  for (auto& sub : S)
  {
    TargetFeatures f;
    std::vector<std::pair<V2, V3>> want;
    for (int i : sub)
    {
      f[i].push_back(spot(i, 0));
      want.emplace_back(spot(i, 0), pt(i));
    }
    requirePairs(c, pairUp(c, t, f), want, tol, "subset");
    for (unsigned foreign : { (unsigned)n, (unsigned)n + 5, 0xffffffffu })
    {
      TargetFeatures x = f;
      x[foreign].push_back(V2(1, 1));
      if (!throwsStd([&] { t.createCorrespondences(x); }))
        c.fail("foreign corner refused", str(foreign));
      c.eval();
    }
    for (int i : sub)
    {
      TargetFeatures x = f;
      x[i].clear();
      if (!throwsStd([&] { t.createCorrespondences(x); }))
        c.fail("corner without location refused", str(i));
      c.eval();
    }
  }
}

// ------------------------------------------------------------------ model against the printed board
/** the printed board, seen by the plain marker detector, must be a right-handed similar copy of the points of the target */
static void requireSimilar(vf::Ctx& c, const std::vector<V2>& img, const std::vector<V3>& pts, const std::string& what)
{
  c.require(img.size() >= 4, what + ": enough features", str(img.size()));
  V2 mi(0, 0), mp(0, 0);
  for (size_t i = 0; i < img.size(); ++i)
    mi += img[i] / img.size(), mp += pts[i].head<2>() / img.size();
  double a = 0, b = 0, d = 0;
  for (size_t i = 0; i < img.size(); ++i)
  {
    V2 p = pts[i].head<2>() - mp, q = img[i] - mi;
    a += p[0] * q[0] + p[1] * q[1];
    b += p[0] * q[1] - p[1] * q[0];
    d += p.squaredNorm();
  }
  a /= d, b /= d;
  for (size_t i = 0; i < img.size(); ++i)
  {
    V2 p = pts[i].head<2>() - mp, q(a * p[0] - b * p[1], b * p[0] + a * p[1]);
    if (!((q + mi - img[i]).norm() < 2.0))
      c.fail(what + ": printed board and target points agree", "feature " + str(i) + " at " + str(img[i].transpose()) + " expected " + str((q + mi).transpose()));
  }
  c.require(a > 0 && std::abs(b) < 0.02 * a, what + ": board is upright");
  c.eval();
}

// ------------------------------------------------------------------ configurations
static std::shared_ptr<TargetFinderPlugin> plugin(const std::string& name)
{
  auto& r = pluginlib::registry<TargetFinderPlugin>();
  auto it = r.find("rct_ros_tools::" + name);
  return it == r.end() ? nullptr : it->second();
}
struct Probe : TargetFinderPlugin
{
  void init(const YAML::Node&) override {}
  static const TargetFinder* finder(const TargetFinderPlugin& p) { return (p.*(&Probe::finder_)).get(); }
};
using Pars = std::map<std::string, double>;
static Pars defaults()
{
  CircleDetectorParams p;
  return { { "minThreshold", p.minThreshold }, { "maxThreshold", p.maxThreshold }, { "nThresholds", p.nThresholds }, { "minRepeatability", p.minRepeatability }, { "circleInclusionRadius", p.circleInclusionRadius }, { "maxRadiusDiff", p.maxRadiusDiff }, { "maxAverageEllipseError", p.maxAverageEllipseError }, { "filterByColor", p.filterByColor }, { "circleColor", p.circleColor }, { "filterByArea", p.filterByArea }, { "minArea", p.minArea }, { "maxArea", p.maxArea }, { "filterByCircularity", p.filterByCircularity }, { "minCircularity", p.minCircularity }, { "maxCircularity", p.maxCircularity }, { "filterByInertia", p.filterByInertia }, { "minInertiaRatio", p.minInertiaRatio }, { "maxInertiaRatio", p.maxInertiaRatio }, { "filterByConvexity", p.filterByConvexity }, { "minConvexity", p.minConvexity }, { "maxConvexity", p.maxConvexity } };
}
static Pars read(const CircleDetectorParams& p)
{
  return { { "minThreshold", p.minThreshold }, { "maxThreshold", p.maxThreshold }, { "nThresholds", p.nThresholds }, { "minRepeatability", p.minRepeatability }, { "circleInclusionRadius", p.circleInclusionRadius }, { "maxRadiusDiff", p.maxRadiusDiff }, { "maxAverageEllipseError", p.maxAverageEllipseError }, { "filterByColor", p.filterByColor }, { "circleColor", p.circleColor }, { "filterByArea", p.filterByArea }, { "minArea", p.minArea }, { "maxArea", p.maxArea }, { "filterByCircularity", p.filterByCircularity }, { "minCircularity", p.minCircularity }, { "maxCircularity", p.maxCircularity }, { "filterByInertia", p.filterByInertia }, { "minInertiaRatio", p.minInertiaRatio }, { "maxInertiaRatio", p.maxInertiaRatio }, { "filterByConvexity", p.filterByConvexity }, { "minConvexity", p.minConvexity }, { "maxConvexity", p.maxConvexity } };
}
static bool isBool(const std::string& k) { return k.rfind("filterBy", 0) == 0; }
static bool isInt(const std::string& k) { return k == "circleColor" || k == "nThresholds" || k == "minRepeatability"; }
static YAML::Node node(const Pars& p, bool viaXml)
{
  if (viaXml)
  {
    XmlRpc::XmlRpcValue v;
    for (auto& e : p)
      v[e.first] = isBool(e.first) ? XmlRpc::XmlRpcValue(e.second != 0) : isInt(e.first) ? XmlRpc::XmlRpcValue((int)e.second) : XmlRpc::XmlRpcValue(e.second);
    return rct_ros_tools::toYAML(v);
  }
  YAML::Node n;
  for (auto& e : p)
    if (isBool(e.first))
      n[e.first] = e.second != 0;
    else if (isInt(e.first))
      n[e.first] = (int)e.second;
    else
      n[e.first] = e.second;
  return n;
}
static void requirePars(vf::Ctx& c, const TargetFinderPlugin& p, const Pars& want, const std::string& what)
{
  auto f = dynamic_cast<const ModifiedCircleGridTargetFinder*>(Probe::finder(p));
  c.require(f != nullptr, what + ": finder of the right kind");
  Pars got = read(f->getCircleDetectorParams());
  for (auto& e : want)
    if (std::abs(got[e.first] - e.second) > 1e-6 * std::abs(e.second))
      c.fail(what + ": detector parameter taken over", e.first + " = " + str(got[e.first]) + " instead of " + str(e.second));
  c.eval();
}

void vf::define(Suite& s)
{
  s.property = "C17";
  s.rule = "all shapes x sizes of the three targets; all subsets of features of small grids, all single and all-but-one features of larger "
           "ones, every foreign/missing/surplus feature; every configuration with one field changed, deleted or ill-typed, as text and as parameter tree";
  s.assumptions = { "layout references: the documented circle grid (row by row from the top left, origin at the lower left dot); OpenCV's documented boards, "
                    "confirmed against the boards' own printed images" };
  const bool T = s.thorough;

  for (int r = 1; r <= (T ? 9 : 6); ++r)
    for (int k = 1; k <= (T ? 9 : 6); ++k)
      s.add("circle/" + str(r) + "x" + str(k), [=](vf::Ctx& c) { circleLayout(c, r, k); });

  for (int r = 1; r <= (T ? 6 : 4); ++r)
    for (int k = 1; k <= (T ? 6 : 4); ++k)
      for (int first : { -1, 0, 17 })
        s.add("aruco/" + str(r) + "x" + str(k) + "/first" + str(first), [=](vf::Ctx& c) {
          for (float len : { 0.02f, 1.f, 33.3f })
            for (float gap : { 0.005f, 0.5f })
              for (int dict : { (int)cv::aruco::DICT_6X6_250, (int)cv::aruco::DICT_4X4_50 })
                arucoLayout(c, { r, k, len, gap, dict, first }, r * k <= (T ? 9 : 6));
        });
  for (int r = 2; r <= (T ? 8 : 6); ++r)
    for (int k = 2; k <= (T ? 8 : 6); ++k)
      s.add("charuco/" + str(r) + "x" + str(k), [=](vf::Ctx& c) {
        for (float sq : { 0.036195f, 1.f, 40.f })
          for (float ratio : { 0.5f, 0.8f })
            for (int dict : { (int)cv::aruco::DICT_6X6_250, (int)cv::aruco::DICT_4X4_50 })
              charucoLayout(c, r, k, sq, sq * ratio, dict, (r - 1) * (k - 1) <= (T ? 9 : 6));
      });

  // numbers that do not fit into a byte
  for (int big = 0; big < 4; ++big)
    s.add("aruco/large/" + str(big), [=](vf::Ctx& c) {
      const int rows[] = { 3, 17, 2, 4 }, cols[] = { 3, 16, 130, 5 }, first[] = { 250, -1, 600, 979 };
      const int dict[] = { (int)cv::aruco::DICT_4X4_1000, (int)cv::aruco::DICT_6X6_1000, (int)cv::aruco::DICT_5X5_1000, (int)cv::aruco::DICT_7X7_1000 };
      arucoLayout(c, { rows[big], cols[big], 0.02f, 0.005f, dict[big], first[big] }, false);
    });
  for (int big = 0; big < 2; ++big)
    s.add("charuco/large/" + str(big), [=](vf::Ctx& c) { charucoLayout(c, big ? 18 : 3, big ? 20 : 140, 0.04f, 0.024f, (int)cv::aruco::DICT_5X5_1000, false); });

  // an arbitrary numbering of the markers
  s.add("aruco/renumbered", [](vf::Ctx& c) {
    std::vector<int> ids = { 40, 3, 17, 0, 22, 8 };
    for (auto& perm : permutations(4))
    {
      auto b = cv::aruco::GridBoard::create(2, 3, 0.02f, 0.005f, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250));
      std::vector<int> my = ids;
      for (int i = 0; i < 4; ++i)
        my[i] = ids[perm[i]];
      b->ids = my;
      ArucoGridTarget t(b);
      c.require(t.points.size() == 6, "one entry per marker");
      for (auto& sub : subsetsOf(6))
      {
        TargetFeatures f;
        std::vector<std::pair<V2, V3>> want;
        for (int m : sub)
          for (int k = 0; k < 4; ++k)
          {
            f[my[m]].push_back(spot(my[m], k));
            want.emplace_back(spot(my[m], k), arucoPoint(2, 0.02, 0.005, m, k));
          }
        requirePairs(c, pairUp(c, t, f), want, 1e-6, "renumbered subset");
      }
    }
  });

  // printed boards
  for (int r = 2; r <= 4; ++r)
    for (int k = 2; k <= 4; ++k)
    {
      s.add("print/aruco/" + str(r) + "x" + str(k), [=](vf::Ctx& c) {
        ArucoGridTarget t(r, k, 0.04f, 0.01f);
        cv::Mat img;
        t.board->draw(cv::Size(k * 150, r * 150), img, 30, 1);
        std::vector<std::vector<cv::Point2f>> corners;
        std::vector<int> ids;
        cv::aruco::detectMarkers(img, t.board->dictionary, corners, ids);
        c.require((int)ids.size() == r * k, "all markers detected", str(ids.size()));
        std::vector<V2> im;
        std::vector<V3> pt;
        for (size_t i = 0; i < ids.size(); ++i)
          for (int q = 0; q < 4; ++q)
            im.push_back(V2(corners[i][q].x, corners[i][q].y)), pt.push_back(t.points.at(ids[i]).at(q));
        requireSimilar(c, im, pt, "aruco");
      });
      s.add("print/charuco/" + str(r + 1) + "x" + str(k + 1), [=](vf::Ctx& c) {
        CharucoGridTarget t(r + 1, k + 1, 0.04f, 0.025f);
        cv::Mat img;
        t.board->draw(cv::Size((k + 1) * 120, (r + 1) * 120), img, 30, 1);
        std::vector<std::vector<cv::Point2f>> corners;
        std::vector<int> ids, cid;
        std::vector<cv::Point2f> cc;
        cv::aruco::detectMarkers(img, t.board->dictionary, corners, ids);
        cv::aruco::interpolateCornersCharuco(corners, ids, img, t.board, cc, cid);
        c.require((int)cid.size() == r * k, "all corners detected", str(cid.size()));
        std::vector<V2> im;
        std::vector<V3> pt;
        for (size_t i = 0; i < cid.size(); ++i)
          im.push_back(V2(cc[i].x, cc[i].y)), pt.push_back(t.points.at(cid[i]));
        requireSimilar(c, im, pt, "charuco");
      });
    }

  // ---------------------------------------------------------------- configurations
  for (int xml = 0; xml < 2; ++xml)
  {
    std::string v = xml ? "/xml" : "/yaml";
    auto circleCfg = [=](YAML::Node r, YAML::Node k, YAML::Node sp) {
      YAML::Node n;
      n["type"] = "rct_ros_tools::ModifiedCircleGridTargetFinderPlugin";
      n["rows"] = r, n["cols"] = k, n["spacing"] = sp;
      return n;
    };
    auto viaXml = [=](int r, int k, double sp) {
      XmlRpc::XmlRpcValue x;
      x["rows"] = r, x["cols"] = k, x["spacing"] = sp;
      return rct_ros_tools::toYAML(x);
    };
    s.add("config/circle/shapes" + v, [=](vf::Ctx& c) {
      for (int r = 2; r <= 7; ++r)
        for (int k = 2; k <= 7; ++k)
          for (double sp : { 0.025, 1.0, 0.1 / 3 })
          {
            auto p = plugin("ModifiedCircleGridTargetFinderPlugin");
            c.require(p != nullptr, "plugin is registered");
            p->init(xml ? viaXml(r, k, sp) : circleCfg(YAML::Node(r), YAML::Node(k), YAML::Node(sp)));
            auto t = dynamic_cast<const ModifiedCircleGridTarget*>(&p->target());
            c.require(t && (int)t->rows == r && (int)t->cols == k && std::abs(t->spacing - sp) <= 1e-15, "target as configured");
            c.require(*t == ModifiedCircleGridTarget(r, k, sp), "target equals one constructed directly");
            requirePars(c, *p, defaults(), "no detector parameters");
          }
    });
    s.add("config/circle/detector" + v, [=](vf::Ctx& c) {
      const Pars D = defaults();
      auto run = [&](YAML::Node det) {
        auto p = plugin("ModifiedCircleGridTargetFinderPlugin");
        YAML::Node n = xml ? viaXml(5, 6, 0.1) : circleCfg(YAML::Node(5), YAML::Node(6), YAML::Node(0.1));
        n["circle_detector_params"] = det;
        p->init(YAML::Load(YAML::Dump(n)));
        return p;
      };
      // all parameters at once, then every single one, then every pair
      Pars A;
      double d = 0;
      for (auto& e : D)
        A[e.first] = isBool(e.first) ? (e.second ? 0 : 1) : isInt(e.first) ? e.second + 1 + std::floor(d++) : e.second * 0.5 + 0.01 * (++d);
      requirePars(c, *run(node(A, xml)), A, "all parameters changed");
      requirePars(c, *run(node(D, xml)), D, "all defaults");
      for (auto& e : D)
      {
        Pars q = D;
        q[e.first] = A[e.first];
        requirePars(c, *run(node(q, xml)), q, "only " + e.first + " changed");
        for (auto& g : D)
          if (g.first > e.first)
          {
            Pars q2 = q;
            q2[g.first] = A[g.first];
            requirePars(c, *run(node(q2, xml)), q2, e.first + " and " + g.first + " changed");
          }
      }
      // an unreadable table is replaced as a whole, with a warning
      for (auto& e : A)
      {
        Pars q = A;
        q.erase(e.first);
        long w = ros_stub::log().warn;
        requirePars(c, *run(node(q, xml)), D, "without " + e.first);
        c.require(ros_stub::log().warn > w, "the replacement is reported", e.first);
        YAML::Node bad = node(A, xml);
        bad[e.first] = "nonsense";
        w = ros_stub::log().warn;
        requirePars(c, *run(bad), D, "ill-typed " + e.first);
        c.require(ros_stub::log().warn > w, "the replacement is reported", e.first);
      }
    });
    s.add("config/circle/bad" + v, [=](vf::Ctx& c) {
      auto refused = [&](YAML::Node n, const std::string& what) {
        if (!throwsStd([&] { plugin("ModifiedCircleGridTargetFinderPlugin")->init(n); }))
          c.fail("bad configuration refused", what);
        c.eval();
      };
      for (std::string key : { "rows", "cols", "spacing" })
      {
        auto mk = [&] { return xml ? viaXml(5, 6, 0.1) : circleCfg(YAML::Node(5), YAML::Node(6), YAML::Node(0.1)); };
        YAML::Node n = mk();
        n.remove(key);
        refused(n, key + " missing");
        std::vector<YAML::Node> vals = { YAML::Node("many"), YAML::Load("[1, 2]"), YAML::Load("{a: 1}"), YAML::Node() };
        if (key != "spacing")
        {
          vals.push_back(YAML::Node(0));
          vals.push_back(YAML::Node(-1));
          vals.push_back(YAML::Node(-7));
          vals.push_back(YAML::Node(2.5));
        }
        for (auto& val : vals)
        {
          n = mk();
          n[key] = val;
          refused(n, key + " = " + YAML::Dump(val));
        }
        n = mk();
        n[key + "s"] = n[key];
        n.remove(key);
        refused(n, key + " misspelled");
      }
      refused(YAML::Node(), "empty");
      refused(YAML::Load("[5, 6, 0.1]"), "list");
      refused(YAML::Load("text"), "scalar");
    });
    auto charucoCfg = [=](int r, int k, double sq, double mk, int dict) {
      if (xml)
      {
        XmlRpc::XmlRpcValue x;
        x["rows"] = r, x["cols"] = k, x["chessboard_dim"] = sq, x["aruco_marker_dim"] = mk, x["dictionary"] = dict;
        return rct_ros_tools::toYAML(x);
      }
      YAML::Node n;
      n["rows"] = r, n["cols"] = k, n["chessboard_dim"] = sq, n["aruco_marker_dim"] = mk, n["dictionary"] = dict;
      return n;
    };
    s.add("config/charuco/shapes" + v, [=](vf::Ctx& c) {
      for (int r = 2; r <= 6; ++r)
        for (int k = 2; k <= 6; ++k)
          for (double sq : { 0.04, 1.0 })
            for (int dict = 0; dict <= 20; dict += (r == 3 && k == 4) ? 1 : 8)
            {
              auto p = plugin("CharucoGridTargetFinderPlugin");
              c.require(p != nullptr, "plugin is registered");
              p->init(charucoCfg(r, k, sq, sq * 0.6, dict));
              auto t = dynamic_cast<const CharucoGridTarget*>(&p->target());
              c.require(t, "target of the right kind");
              CharucoGridTarget ref(r, k, sq, sq * 0.6, dict);
              c.require(*t == ref && t->points == ref.points, "target equals one constructed directly");
              cv::Mat a = t->board->dictionary->bytesList, b = ref.board->dictionary->bytesList;
              c.require(a.size() == b.size() && cv::norm(a, b, cv::NORM_L1) == 0, "dictionary as configured", str(dict));
              c.require((int)t->points.size() == (r - 1) * (k - 1), "size as configured");
              c.eval();
            }
    });
    s.add("config/charuco/bad" + v, [=](vf::Ctx& c) {
      auto refused = [&](YAML::Node n, const std::string& what) {
        if (!throwsStd([&] { plugin("CharucoGridTargetFinderPlugin")->init(n); }))
          c.fail("bad configuration refused", what);
        c.eval();
      };
      for (std::string key : { "rows", "cols", "chessboard_dim", "aruco_marker_dim", "dictionary" })
      {
        YAML::Node n = charucoCfg(5, 6, 0.1, 0.06, 10);
        n.remove(key);
        refused(n, key + " missing");
        std::vector<YAML::Node> vals = { YAML::Node("many"), YAML::Load("[1, 2]"), YAML::Load("{a: 1}"), YAML::Node(), YAML::Node(-1) };
        if (key == "rows" || key == "cols")
          vals.push_back(YAML::Node(0)), vals.push_back(YAML::Node(1)), vals.push_back(YAML::Node(2.5));
        if (key == "chessboard_dim")
          vals.push_back(YAML::Node(0.0)), vals.push_back(YAML::Node(0.05));
        if (key == "aruco_marker_dim")
          vals.push_back(YAML::Node(0.0)), vals.push_back(YAML::Node(0.2));
        if (key == "dictionary")
          vals.push_back(YAML::Node(99)), vals.push_back(YAML::Node(1.5));
        for (auto& val : vals)
        {
          n = charucoCfg(5, 6, 0.1, 0.06, 10);
          n[key] = val;
          refused(n, key + " = " + YAML::Dump(val));
        }
      }
      refused(YAML::Node(), "empty");
      refused(YAML::Load("[5, 6, 0.1]"), "list");
      refused(YAML::Load("text"), "scalar");
    });
  }

  // ---------------------------------------------------------------- parameter trees
  s.add("tree/values", [](vf::Ctx& c) {
    using X = XmlRpc::XmlRpcValue;
    // every combination of member kinds, up to three members and two levels
    auto leafs = [] {
      std::vector<X> v = { X(true), X(false), X(0), X(-7), X(2147483647), X(0.1), X(-1e-9), X(1e300), X("text"), X("") };
      for (int kind = 0; kind < 4; ++kind)
        for (int n = 1; n <= 3; ++n)
        {
          X a;
          for (int i = 0; i < n; ++i)
            a[i] = kind == 0 ? X(i % 2 == 0) : kind == 1 ? X(10 * i - 3) : kind == 2 ? X(0.25 * i + 0.1) : X("s" + str(i));
          v.push_back(a);
        }
      return v;
    }();
    std::function<void(X, const YAML::Node&, const std::string&)> same = [&](X x, const YAML::Node& n, const std::string& path) {
      switch (x.getType())
      {
        case X::TypeBoolean: c.require(n.as<bool>() == (bool&)x, "boolean", path); break;
        case X::TypeInt: c.require(n.as<int>() == (int&)x, "integer", path); break;
        case X::TypeDouble: c.require(n.as<double>() == (double&)x, "number", path); break;
        case X::TypeString: c.require(n.as<std::string>() == (std::string&)x, "text", path); break;
        case X::TypeArray:
          c.require(n.IsSequence() && (int)n.size() == x.size(), "list", path);
          for (int i = 0; i < x.size(); ++i)
            same(x[i], n[i], path + "/" + str(i));
          break;
        case X::TypeStruct:
          c.require(n.IsMap() && (int)n.size() == x.size(), "tree", path);
          for (auto& e : x)
            same(e.second, n[e.first], path + "/" + e.first);
          break;
        default: break;
      }
      c.eval();
    };
    for (size_t i = 0; i < leafs.size(); ++i)
      for (size_t j = 0; j < leafs.size(); ++j)
      {
        X x, y;
        y["in"] = leafs[i];
        y["z"] = leafs[(i + j) % leafs.size()];
        x["a"] = leafs[i];
        x["b"] = leafs[j];
        x["c"] = y;
        same(x, rct_ros_tools::toYAML(x), "");
      }
  });
  s.add("tree/refused", [](vf::Ctx& c) {
    using X = XmlRpc::XmlRpcValue;
    std::vector<X> L = { X(true), X(3), X(0.5), X("t") };
    for (auto& v : L)
      if (!throwsStd([&] { rct_ros_tools::toYAML(v); }))
        c.fail("not a tree: refused");
    for (size_t i = 0; i < 4; ++i)
      for (size_t j = 0; j < 4; ++j)
        for (int n = 2; n <= 4; ++n)
          for (int pos = 1; pos < n; ++pos)
          {
            if (i == j)
              continue;
            X a, x;
            for (int k = 0; k < n; ++k)
              a[k] = L[k == pos ? j : i];
            x["ok"] = 1;
            x["list"] = a;
            if (!throwsStd([&] { rct_ros_tools::toYAML(x); }))
              c.fail("list of mixed types refused");
            c.eval();
          }
    X nested, x, in;
    in[0] = 1;
    nested[0] = in;
    x["list"] = nested;
    if (!throwsStd([&] { rct_ros_tools::toYAML(x); }))
      c.fail("list of lists refused");
  });
}

// LIBS: img
// C20: marker grids and chessboard-marker grids under every occlusion, on rendered boards with known geometry.
#include "kit.h"
#include "render.h"
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>

using namespace kit;
using namespace rct_image_tools;

// ------------------------------------------------------------------ rendering of boards
struct Marker
{
  int id;
  double x, y, s;  // upper left corner in the plane (x right, y down), side
  cv::Mat bits;    // 1 = white; includes the black rim
};
struct Square
{
  double x, y, s;
};
static cv::Mat bitsOf(const cv::Ptr<cv::aruco::Dictionary>& d, int id)
{
  int n = d->markerSize + 2;
  cv::Mat m;
  cv::aruco::drawMarker(d, id, n, m, 1);
  return m;
}
/** plane -> intensity */
static int shade(const std::vector<Marker>& ms, const std::vector<Square>& squares, double x, double y)
{
  for (auto& m : ms)
    if (x >= m.x && x < m.x + m.s && y >= m.y && y < m.y + m.s)
    {
      int n = m.bits.rows, c = std::min(n - 1, int((x - m.x) / m.s * n)), r = std::min(n - 1, int((y - m.y) / m.s * n));
      return m.bits.at<uchar>(r, c) ? 255 : 0;
    }
  for (auto& q : squares)
    if (x >= q.x && x < q.x + q.s && y >= q.y && y < q.y + q.s)
      return 0;
  return 255;
}
struct Scene
{
  cv::Mat image;
  Eigen::Matrix3d H;
  std::map<int, std::vector<V2>> corners;  // marker id -> image corners, clockwise from the marker's own top left
};
static Scene render2(const std::vector<Marker>& ms, const std::vector<Square>& sq, const Eigen::Matrix3d& H, int w, int h, int S = 3)
{
  Scene s;
  s.H = H;
  s.image = cv::Mat(h, w, CV_8UC1);
  Eigen::Matrix3d Hi = H.inverse();
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
    {
      int sum = 0;
      for (int a = 0; a < S; ++a)
        for (int b = 0; b < S; ++b)
        {
          V3 q = Hi * V3(x + (a + 0.5) / S - 0.5, y + (b + 0.5) / S - 0.5, 1);
          sum += shade(ms, sq, q[0] / q[2], q[1] / q[2]);
        }
      s.image.at<uchar>(y, x) = sum / (S * S);
    }
  for (auto& m : ms)
    s.corners[m.id] = { render::map(H, m.x, m.y), render::map(H, m.x + m.s, m.y), render::map(H, m.x + m.s, m.y + m.s), render::map(H, m.x, m.y + m.s) };
  return s;
}
/** view of a plane area (W x Hh, y down) from the front: in-plane rotation, tilt; placed in the middle of an image */
static Eigen::Matrix3d view(double W, double Hh, double rotation, double tx, double ty, double scale, int w, int h)
{
  Eigen::Matrix3d R = rot({ 1, 0, 0 }, tx) * rot({ 0, 1, 0 }, ty) * rot({ 0, 0, 1 }, rotation);
  double f = 900;
  Eigen::Matrix3d K, P;
  K << f, 0, w / 2.0, 0, f, h / 2.0, 0, 0, 1;
  P.col(0) = R.col(0);
  P.col(1) = R.col(1);
  P.col(2) = V3(0, 0, f / scale) - R * V3(W / 2, Hh / 2, 0);
  return K * P;
}
static void cover(cv::Mat& img, const Eigen::Matrix3d& H, double x0, double y0, double x1, double y1, int value)
{
  std::vector<cv::Point> q;
  for (auto p : { V2(x0, y0), V2(x1, y0), V2(x1, y1), V2(x0, y1) })
  {
    V2 i = render::map(H, p[0], p[1]);
    q.push_back(cv::Point(std::lround(i[0]), std::lround(i[1])));
  }
  cv::fillConvexPoly(img, q, cv::Scalar(value, value, value));
}

// ------------------------------------------------------------------ boards (plane units: 1 = module of a marker)
struct Grid
{
  int rows, cols, dict, first;
  double side = 12, gap = 4;
  std::vector<Marker> markers() const
  {
    auto d = cv::aruco::getPredefinedDictionary(dict);
    std::vector<Marker> m;
    for (int r = 0; r < rows; ++r)
      for (int c = 0; c < cols; ++c)
        m.push_back({ first + r * cols + c, c * (side + gap), r * (side + gap), side, bitsOf(d, first + r * cols + c) });
    return m;
  }
  double W() const { return cols * (side + gap) - gap; }
  double Hh() const { return rows * (side + gap) - gap; }
  ArucoGridTarget target() const
  {
    if (first == 0)
      return ArucoGridTarget(rows, cols, side, gap, dict);
    return ArucoGridTarget(cv::aruco::GridBoard::create(cols, rows, side, gap, cv::aruco::getPredefinedDictionary(dict), first));
  }
};
static bool find(vf::Ctx& c, const TargetFinder& f, const cv::Mat& img, TargetFeatures& out, const std::string& what)
{
  cv::Mat before = img.clone();
  out.clear();
  bool ok = true;
  try
  {
    out = f.findTargetFeatures(img);
  }
  catch (const std::exception&)
  {
    ok = false;
  }
  c.require(cv::norm(before, img, cv::NORM_INF) == 0, what, ": finding leaves the image alone");
  c.eval();
  return ok;
}
static double worst = 0;
static void checkGrid(vf::Ctx& c, const ArucoGridBoardTargetFinder& f, const cv::Mat& img, const Scene& s, const std::set<int>& visible, const std::string& what,
                      const std::set<int>& maybe = {}, double tol = 2.0)
{
  TargetFeatures got;
  c.require(find(c, f, img, got, what), what, ": no exception");
  for (auto& g : got)
  {
    c.require(visible.count(g.first) || maybe.count(g.first), what, ": marker ", g.first, " is not visible");
    c.require(g.second.size() == 4, what, ": four corners");
    for (int i = 0; i < 4; ++i)
    {
      double e = (g.second[i] - s.corners.at(g.first)[i]).norm();
      worst = std::max(worst, e);
      c.require(e <= tol, what, ": marker ", g.first, " corner ", i, " at ", s.corners.at(g.first)[i].transpose(), " reported at ", g.second[i].transpose());
    }
  }
  for (int v : visible)
    c.require(got.count(v), what, ": visible marker ", v, " is reported");
  // pairing: every feature with the point of its own marker
  auto corr = f.target().createCorrespondences(got);
  c.require(corr.size() == 4 * got.size(), what, ": pairing is complete");
  V3 p0;
  size_t k = 0;
  for (auto& g : got)
    for (int i = 0; i < 4; ++i, ++k)
    {
      V2 at = render::map(s.H, corr[k].in_target[0], corr[k].in_target[1]);
      c.require((at - corr[k].in_image).norm() <= tol, what, ": paired point ", corr[k].in_target.transpose(), " belongs to the image point");
    }
  c.outcome(str(got.size()) + " markers");
}
static const std::vector<std::pair<double, double>> TILTS = { { 0, 0 }, { 0.5, 0 }, { 0, 0.5 }, { -0.35, 0.35 } };

// chessboard
struct Chess
{
  int rows, cols, dict;
  double square = 14, side = 9;
  std::vector<Marker> ms;
  std::vector<Square> sq;
  cv::Ptr<cv::aruco::CharucoBoard> board;
  Chess(int r, int c, int d) : rows(r), cols(c), dict(d)
  {
    auto dic = cv::aruco::getPredefinedDictionary(d);
    CharucoGridTarget t(r, c, square, side, d);
    board = t.board;
    std::set<std::pair<int, int>> white;
    for (size_t i = 0; i < board->ids.size(); ++i)
    {
      double x0 = 1e9, y0 = 1e9;
      for (auto& p : board->objPoints[i])
        x0 = std::min<double>(x0, p.x), y0 = std::min<double>(y0, p.y);
      int cx = int(x0 / square), cy = int(y0 / square);
      white.insert({ cx, cy });
      // the marker is printed with its own first corner (top left) at objPoints[0]
      ms.push_back({ board->ids[i], x0, y0, side, bitsOf(dic, board->ids[i]) });
    }
    for (int y = 0; y < r; ++y)
      for (int x = 0; x < c; ++x)
        if (!white.count({ x, y }))
          sq.push_back({ x * square, y * square, square });
  }
  double W() const { return cols * square; }
  double Hh() const { return rows * square; }
  /** interior corner -> place, markers of the adjoining squares */
  std::map<unsigned, std::pair<V2, std::vector<int>>> corners() const
  {
    std::map<unsigned, std::pair<V2, std::vector<int>>> out;
    unsigned id = 0;
    for (int y = 1; y < rows; ++y)
      for (int x = 1; x < cols; ++x, ++id)
      {
        V2 p(x * square, y * square);
        std::vector<int> near;
        for (auto& m : ms)
          if (std::abs(m.x + m.s / 2 - p[0]) < square && std::abs(m.y + m.s / 2 - p[1]) < square)
            near.push_back(m.id);
        out[id] = { p, near };
      }
    return out;
  }
};
static void checkChess(vf::Ctx& c, const CharucoGridBoardTargetFinder& f, const Chess& b, const cv::Mat& img, const Scene& s, const std::set<int>& visible,
                       const std::string& what, double tol = 1.5, bool all = true)
{
  TargetFeatures got;
  bool ok = find(c, f, img, got, what);
  c.require(ok || visible.empty(), what, ": no exception while markers are visible");
  if (!ok)
  {
    c.outcome("refused");
    return;
  }
  auto truth = b.corners();
  // OpenCV places all corners of an image off by the same half pixel; what else there is must be small
  if (tol < 2 && got.size() >= 4)
  {
    V2 common = V2::Zero();
    for (auto& g : got)
      if (truth.count(g.first) && !g.second.empty())
        common += (g.second[0] - render::map(s.H, truth[g.first].first[0], truth[g.first].first[1])) / double(got.size());
    for (auto& g : got)
      if (truth.count(g.first) && !g.second.empty())
      {
        double e = (g.second[0] - render::map(s.H, truth[g.first].first[0], truth[g.first].first[1]) - common).norm();
        c.require(e <= 0.45, what, ": corner ", g.first, " is off by ", e, " pixels from where the other corners put it");
      }
  }
  for (auto& g : got)
  {
    c.require(truth.count(g.first) && g.second.size() == 1, what, ": known corner ", g.first);
    V2 at = render::map(s.H, truth[g.first].first[0], truth[g.first].first[1]);
    double e = (g.second[0] - at).norm();
    worst = std::max(worst, e);
    c.require(e <= tol, what, ": corner ", g.first, " at ", at.transpose(), " reported at ", g.second[0].transpose());
    for (int m : truth[g.first].second)
      c.require(visible.count(m), what, ": corner ", g.first, " next to hidden marker ", m, " is not reported");
  }
  if (all)
    for (auto& t : truth)
    {
      bool vis = true;
      for (int m : t.second.second)
        vis &= visible.count(m) > 0;
      if (vis)
        c.require(got.count(t.first), what, ": corner ", t.first, " with visible markers is reported");
    }
  auto corr = f.target().createCorrespondences(got);
  c.require(corr.size() == got.size(), what, ": pairing is complete");
  for (auto& q : corr)
  {
    V2 at = render::map(s.H, q.in_target[0], q.in_target[1]);
    c.require((at - q.in_image).norm() <= tol, what, ": paired point ", q.in_target.transpose(), " belongs to the image point");
  }
  c.outcome(str(got.size()) + " corners");
}

void vf::define(Suite& s)
{
  s.property = "C20";
  s.rule = "all subsets of hidden markers x in-plane rotations x tilts for small grids of both kinds; all numberings and dictionaries; all single and paired foreign "
           "markers; a patch at every place of the board";
  s.assumptions = { "markers are large enough to be decoded (about 4 px per module or more)", "a chessboard corner counts as visible if the markers of both white squares next to it are visible" };
  const bool T = s.thorough;

  // ---------------------------------------------------------------- marker grids: every subset hidden
  struct G
  {
    int r, c;
  };
  for (auto g : std::vector<G>{ { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 3, 3 }, { 2, 4 } })
    for (double a : { 0., 33., 90., 145., 180., 250., 270. })
      for (size_t t = 0; t < TILTS.size(); ++t)
      {
        if (!T && t && a != 33 && a != 180)
          continue;
        s.add("grid/" + str(g.r) + "x" + str(g.c) + "-rot" + str(a) + "-tilt" + str(t), [=](vf::Ctx& c) {
          Grid b{ g.r, g.c, cv::aruco::DICT_4X4_50, 0 };
          double scale = 4.2;
          int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
          Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(a), TILTS[t].first, TILTS[t].second, scale, w, w), w, w);
          ArucoGridBoardTargetFinder f(b.target());
          auto ms = b.markers();
          int n = ms.size();
          for (int m = 0; m < 1 << n; ++m)
          {
            if (n == 9 && !T && (a != 0 && a != 33))
              if (__builtin_popcount(m) > 2 && __builtin_popcount(m) < 7)
                continue;
            cv::Mat img = sc.image.clone();
            std::set<int> vis;
            for (int i = 0; i < n; ++i)
              if (m >> i & 1)
                cover(img, sc.H, ms[i].x - 1, ms[i].y - 1, ms[i].x + ms[i].s + 1, ms[i].y + ms[i].s + 1, (m + i) % 3 ? 255 : 160);
              else
                vis.insert(ms[i].id);
            checkGrid(c, f, img, sc, vis, "hidden " + str(m));
          }
          c.outcome("largest corner error <= " + str(std::ceil(worst * 4) / 4));
        });
      }
  // ---------------------------------------------------------------- numbering and dictionaries
  for (int dict : { (int)cv::aruco::DICT_4X4_50, (int)cv::aruco::DICT_5X5_100, (int)cv::aruco::DICT_6X6_250, (int)cv::aruco::DICT_7X7_50, (int)cv::aruco::DICT_ARUCO_ORIGINAL })
    for (int first : { 0, 1, 7, 40 })
      s.add("numbering/d" + str(dict) + "-f" + str(first), [=](vf::Ctx& c) {
        for (auto g : std::vector<G>{ { 2, 3 }, { 3, 2 } })
          for (double a : { 0., 60., 180., 270. })
            for (int type : { CV_8UC1, CV_8UC3 })
            {
              Grid b{ g.r, g.c, dict, first, 18, 5 };
              double scale = 4;
              int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
              Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
              if (type == CV_8UC3)
                cv::cvtColor(sc.image, sc.image, cv::COLOR_GRAY2BGR);
              std::set<int> vis;
              for (auto& m : b.markers())
                vis.insert(m.id);
              ArucoGridBoardTargetFinder f(b.target());
              checkGrid(c, f, sc.image, sc, vis, "all visible, rotation " + str(a));
              // the same printed board watched for with another dictionary or another numbering: nothing is invented
              for (int f2 : { 0, 1, 3, 8 })
              {
                Grid o{ g.r, g.c, dict, f2, 18, 5 };
                ArucoGridBoardTargetFinder fo(o.target());
                TargetFeatures got;
                bool ok = find(c, fo, sc.image, got, "other numbering");
                std::set<int> wanted;
                for (auto& m : o.markers())
                  wanted.insert(m.id);
                for (auto& q : got)
                {
                  c.require(vis.count(q.first), "numbering ", f2, ": marker ", q.first, " is not in the image");
                  c.require(wanted.count(q.first), "numbering ", f2, ": marker ", q.first, " does not belong to the target");
                }
                if (ok)
                  for (int v : vis)
                    c.require(!wanted.count(v) || got.count(v), "numbering ", f2, ": marker ", v, " of the target is visible");
                c.require(!throws([&] { fo.target().createCorrespondences(got); }), "numbering ", f2, ": features can be paired");
              }
            }
      });
  // large numbers
  for (int dict : { (int)cv::aruco::DICT_4X4_1000, (int)cv::aruco::DICT_6X6_1000 })
    for (int first : { 126, 254, 510, 994 })
      s.add("numbering/large-d" + str(dict) + "-f" + str(first), [=](vf::Ctx& c) {
        for (double a : { 0., 60., 180. })
        {
          Grid b{ 2, 3, dict, first, 18, 5 };
          double scale = 4;
          int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
          Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
          ArucoGridBoardTargetFinder f(b.target());
          auto ms = b.markers();
          for (int hide = -1; hide < 6; ++hide)
          {
            cv::Mat img = sc.image.clone();
            std::set<int> vis;
            for (int i = 0; i < 6; ++i)
              if (i == hide)
                cover(img, sc.H, ms[i].x - 1, ms[i].y - 1, ms[i].x + ms[i].s + 1, ms[i].y + ms[i].s + 1, 255);
              else
                vis.insert(ms[i].id);
            checkGrid(c, f, img, sc, vis, "hidden " + str(hide) + " rotation " + str(a));
          }
        }
      });
  // many features
  for (auto g : std::vector<G>{ { 16, 17 }, { 1, 30 }, { 30, 1 } })
    for (double a : { 0., 90., 195. })
      s.add("many/grid-" + str(g.r) + "x" + str(g.c) + "-rot" + str(a), [=](vf::Ctx& c) {
        Grid b{ g.r, g.c, cv::aruco::DICT_4X4_1000, 0 };
        double scale = 4.2;
        int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
        Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
        std::set<int> vis;
        for (auto& m : b.markers())
          vis.insert(m.id);
        checkGrid(c, ArucoGridBoardTargetFinder(b.target()), sc.image, sc, vis, "all visible");
      });
  for (auto g : std::vector<G>{ { 18, 18 }, { 14, 23 }, { 3, 24 }, { 24, 3 } })
    for (double a : { 0., 90., 195. })
      s.add("many/chess-" + str(g.r) + "x" + str(g.c) + "-rot" + str(a), [=](vf::Ctx& c) {
        Chess b(g.r, g.c, cv::aruco::DICT_4X4_250);
        double scale = 6;
        int w = scale * (std::hypot(b.W(), b.Hh()) + 16);
        Scene sc = render2(b.ms, b.sq, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
        std::set<int> vis;
        for (auto& m : b.ms)
          vis.insert(m.id);
        checkChess(c, CharucoGridBoardTargetFinder(CharucoGridTarget(g.r, g.c, b.square, b.side, b.dict)), b, sc.image, sc, vis, "all visible");
      });
  // flat views
  for (auto g : std::vector<G>{ { 1, 1 }, { 2, 2 }, { 2, 3 } })
    for (double a : { 0., 40., 90., 180., 300. })
      for (auto t : std::vector<std::pair<double, double>>{ { 0.9, 0 }, { 0, 0.9 }, { -0.9, 0 }, { 0, -0.9 }, { 0.6, 0.6 }, { 1.05, 0 }, { 0, 1.05 } })
        s.add("flat/" + str(g.r) + "x" + str(g.c) + "-rot" + str(a) + "-tilt" + str(t.first) + "," + str(t.second), [=](vf::Ctx& c) {
          Grid b{ g.r, g.c, cv::aruco::DICT_4X4_50, 0 };
          double scale = 9;
          int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
          Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(a), t.first, t.second, scale, w, w), w, w, 2);
          ArucoGridBoardTargetFinder f(b.target());
          auto ms = b.markers();
          int n = ms.size();
          for (int m = 0; m < 1 << n; ++m)
          {
            if (n == 6 && !T && __builtin_popcount(m) > 1 && __builtin_popcount(m) < 5)
              continue;
            cv::Mat img = sc.image.clone();
            std::set<int> vis;
            for (int i = 0; i < n; ++i)
              if (m >> i & 1)
                cover(img, sc.H, ms[i].x - 1, ms[i].y - 1, ms[i].x + ms[i].s + 1, ms[i].y + ms[i].s + 1, 255);
              else
                vis.insert(ms[i].id);
            checkGrid(c, f, img, sc, vis, "hidden " + str(m), {}, 4.0);
          }
          c.outcome("flat: largest corner error <= " + str(std::ceil(worst * 4) / 4));
        });
  // ---------------------------------------------------------------- foreign markers next to the board
  for (int r = 1; r <= 2; ++r)
    for (int q = 1; q <= 2; ++q)
      s.add("foreign/" + str(r) + "x" + str(q), [=](vf::Ctx& c) {
        Grid b{ r, q, cv::aruco::DICT_4X4_50, 0 };
        auto d = cv::aruco::getPredefinedDictionary(b.dict);
        ArucoGridBoardTargetFinder f(b.target());
        int n = r * q;
        for (int id : { n, n + 1, 17, 49 })
          for (int id2 : { -1, n + 2, 30 })
            for (double a : { 0., 50. })
            {
              auto ms = b.markers();
              ms.push_back({ id, b.W() + 6, 0, 12, bitsOf(d, id) });
              if (id2 >= 0)
                ms.push_back({ id2, -18, 0, 12, bitsOf(d, id2) });
              double scale = 4.2;
              int w = scale * (std::hypot(b.W() + 40, b.Hh()) + 20);
              Scene sc = render2(ms, {}, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
              for (int m = 0; m < 1 << n; ++m)
              {
                cv::Mat img = sc.image.clone();
                std::set<int> vis;
                for (int i = 0; i < n; ++i)
                  if (m >> i & 1)
                    cover(img, sc.H, ms[i].x - 1, ms[i].y - 1, ms[i].x + ms[i].s + 1, ms[i].y + ms[i].s + 1, 255);
                  else
                    vis.insert(ms[i].id);
                checkGrid(c, f, img, sc, vis, "foreign " + str(id) + "," + str(id2) + " hidden " + str(m));
              }
            }
      });
  // ---------------------------------------------------------------- a patch anywhere on the board
  for (int color : { 255, 128, 0 })
    for (double size : { 2., 5., 10. })
      s.add("patch/" + str(color) + "-" + str(size), [=](vf::Ctx& c) {
        Grid b{ 2, 2, cv::aruco::DICT_4X4_50, 0 };
        double scale = 4.2;
        int w = scale * (std::hypot(b.W(), b.Hh()) + 20);
        Scene sc = render2(b.markers(), {}, view(b.W(), b.Hh(), deg(12), 0, 0, scale, w, w), w, w);
        ArucoGridBoardTargetFinder f(b.target());
        for (double x = -3; x < b.W(); x += T ? 1 : 2)
          for (double y = -3; y < b.Hh(); y += T ? 1 : 2)
          {
            cv::Mat img = sc.image.clone();
            cover(img, sc.H, x, y, x + size, y + size, color);
            std::set<int> vis, maybe;
            for (auto& m : b.markers())
              if (x > m.x + m.s + 1.5 || x + size < m.x - 1.5 || y > m.y + m.s + 1.5 || y + size < m.y - 1.5)
                vis.insert(m.id);
              else
                maybe.insert(m.id);
            // a marker that is touched may be reported or not, but only under its own number and near its place
            checkGrid(c, f, img, sc, vis, "patch at " + str(x) + "," + str(y), maybe, 12.0 * scale / 4);
          }
      });

  // ---------------------------------------------------------------- chessboards: every subset hidden
  for (auto g : std::vector<G>{ { 3, 3 }, { 3, 4 }, { 4, 3 }, { 4, 4 }, { 3, 5 }, { 5, 3 } })
    for (double a : { 0., 33., 90., 180., 250. })
      for (size_t t = 0; t < TILTS.size(); ++t)
      {
        if (!T && t && a != 33)
          continue;
        s.add("chess/" + str(g.r) + "x" + str(g.c) + "-rot" + str(a) + "-tilt" + str(t), [=](vf::Ctx& c) {
          Chess b(g.r, g.c, cv::aruco::DICT_4X4_50);
          double scale = 6;
          int w = scale * (std::hypot(b.W(), b.Hh()) + 16);
          Scene sc = render2(b.ms, b.sq, view(b.W(), b.Hh(), deg(a), TILTS[t].first, TILTS[t].second, scale, w, w), w, w);
          CharucoGridBoardTargetFinder f(CharucoGridTarget(g.r, g.c, b.square, b.side, b.dict));
          int n = b.ms.size();
          for (int m = 0; m < 1 << n; ++m)
          {
            cv::Mat img = sc.image.clone();
            std::set<int> vis;
            for (int i = 0; i < n; ++i)
              if (m >> i & 1)
                cover(img, sc.H, b.ms[i].x - 0.7, b.ms[i].y - 0.7, b.ms[i].x + b.ms[i].s + 0.7, b.ms[i].y + b.ms[i].s + 0.7, 255);
              else
                vis.insert(b.ms[i].id);
            checkChess(c, f, b, img, sc, vis, "hidden " + str(m));
          }
          c.outcome("largest corner error <= " + str(std::ceil(worst * 4) / 4));
        });
      }
  // whole squares of the board hidden
  for (auto g : std::vector<G>{ { 4, 5 }, { 5, 4 }, { 5, 7 } })
    s.add("chess-bar/" + str(g.r) + "x" + str(g.c), [=](vf::Ctx& c) {
      Chess b(g.r, g.c, cv::aruco::DICT_5X5_100);
      double scale = 7;
      int w = scale * (std::hypot(b.W(), b.Hh()) + 16);
      for (double a : { 0., 20., 130. })
      {
        Scene sc = render2(b.ms, b.sq, view(b.W(), b.Hh(), deg(a), 0, 0, scale, w, w), w, w, 2);
        CharucoGridBoardTargetFinder f(CharucoGridTarget(g.r, g.c, b.square, b.side, b.dict));
        for (int x0 = 0; x0 < g.c; ++x0)
          for (int x1 = x0 + 1; x1 <= g.c; ++x1)
            for (int color : { 255, 0 })
            {
              cv::Mat img = sc.image.clone();
              double l = x0 == 0 ? -6 : x0 * b.square, r = x1 == g.c ? b.W() + 6 : x1 * b.square;
              cover(img, sc.H, l, -6, r, b.Hh() + 6, color);
              std::set<int> vis;
              for (auto& m : b.ms)
                if (m.x + m.s < l || m.x > r)
                  vis.insert(m.id);
              // corners at the very edge of the bar are not seen entirely
              checkChess(c, f, b, img, sc, vis, "bar " + str(x0) + ".." + str(x1) + " colour " + str(color) + " rotation " + str(a), 3.0, false);
            }
      }
    });
  // foreign boards: another dictionary, another size, nothing at all
  s.add("chess-foreign", [=](vf::Ctx& c) {
    for (auto g : std::vector<G>{ { 3, 4 }, { 4, 3 } })
    {
      Chess b(g.r, g.c, cv::aruco::DICT_4X4_50);
      double scale = 6;
      int w = scale * (std::hypot(b.W(), b.Hh()) + 16);
      CharucoGridBoardTargetFinder f(CharucoGridTarget(g.r, g.c, b.square, b.side, b.dict));
      TargetFeatures got;
      for (int v : { 0, 128, 255 })
      {
        bool ok = find(c, f, cv::Mat(200, 220, CV_8UC1, cv::Scalar(v)), got, "blank");
        c.require(!ok || got.empty(), "blank image ", v, ": nothing found");
      }
      Chess o(g.r, g.c, cv::aruco::DICT_6X6_250);
      Scene so = render2(o.ms, o.sq, view(b.W(), b.Hh(), 0, 0, 0, 8, 2 * w, 2 * w), 2 * w, 2 * w, 2);
      bool ok = find(c, f, so.image, got, "other dictionary");
      c.require(!ok || got.empty(), "board of another dictionary: nothing found");
      // board of the same dictionary with markers that the target does not have: a marker grid with foreign numbers
      for (int first : { (int)b.ms.size(), 20 })
      {
        Grid m{ 2, 2, cv::aruco::DICT_4X4_50, first };
        Scene sm = render2(m.markers(), {}, view(m.W(), m.Hh(), 0, 0, 0, 4.2, w, w), w, w, 2);
        ok = find(c, f, sm.image, got, "foreign markers");
        c.require(!ok || got.empty(), "foreign markers from ", first, ": nothing found");
      }
      // the board together with a foreign marker in the scene
      for (int id : { (int)b.ms.size(), 33 })
      {
        auto ms = b.ms;
        ms.push_back({ id, b.W() + 4, 2, 9, bitsOf(cv::aruco::getPredefinedDictionary(b.dict), id) });
        int W2 = scale * (std::hypot(b.W() + 30, b.Hh()) + 16);
        Scene sm = render2(ms, b.sq, view(b.W(), b.Hh(), deg(8), 0, 0, scale, W2, W2), W2, W2, 2);
        std::set<int> vis;
        for (auto& q : b.ms)
          vis.insert(q.id);
        checkChess(c, f, b, sm.image, sm, vis, "foreign marker " + str(id));
      }
    }
    for (int r = 1; r <= 2; ++r)
    {
      Grid g{ r, 2, cv::aruco::DICT_4X4_50, 0 };
      ArucoGridBoardTargetFinder f(g.target());
      TargetFeatures got;
      for (int v : { 0, 128, 255 })
      {
        bool ok = find(c, f, cv::Mat(200, 220, CV_8UC1, cv::Scalar(v)), got, "blank");
        c.require(!ok || got.empty(), "blank image ", v, ": nothing found");
      }
    }
  });

  // ---------------------------------------------------------------- drawing
  for (int type : { CV_8UC1, CV_8UC3 })
    s.add("draw/" + str(type == CV_8UC3 ? 3 : 1), [=](vf::Ctx& c) {
      Grid g{ 2, 2, cv::aruco::DICT_4X4_50, 0 };
      Chess b(3, 4, cv::aruco::DICT_4X4_50);
      Scene sg = render2(g.markers(), {}, view(g.W(), g.Hh(), deg(10), 0, 0, 4.2, 260, 260), 260, 260, 2);
      Scene sb = render2(b.ms, b.sq, view(b.W(), b.Hh(), deg(10), 0, 0, 6, 500, 500), 500, 500, 2);
      ArucoGridBoardTargetFinder fg(g.target());
      CharucoGridBoardTargetFinder fb(CharucoGridTarget(3, 4, b.square, b.side, b.dict));
      for (int k = 0; k < 2; ++k)
      {
        cv::Mat img = k ? sb.image : sg.image;
        if (type == CV_8UC3)
          cv::cvtColor(img, img, cv::COLOR_GRAY2BGR);
        const TargetFinder& f = k ? (const TargetFinder&)fb : fg;
        TargetFeatures got = f.findTargetFeatures(img);
        // every subset of the found features
        std::vector<TargetFeatures::value_type> all(got.begin(), got.end());
        for (size_t m = 0; m < size_t(1) << all.size(); ++m)
        {
          TargetFeatures sub;
          for (size_t i = 0; i < all.size(); ++i)
            if (m >> i & 1)
              sub.insert(all[i]);
          cv::Mat before = img.clone(), out;
          TargetFeatures keep = sub;
          out = f.drawTargetFeatures(img, sub);
          c.eval();
          c.require(cv::norm(before, img, cv::NORM_INF) == 0, k ? "chessboard" : "grid", ": drawing leaves the caller's image alone");
          c.require(out.size() == img.size(), "drawing has the size of the image");
          c.require(sub.size() == keep.size(), "features unchanged");
          c.require((cv::norm(before, out, cv::NORM_INF) > 0) == !sub.empty(), "the drawing shows features if there are any");
        }
      }
    });
}

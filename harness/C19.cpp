// LIBS: img
// C19: circle detection on rendered images with known discs, all filters, all degenerate small images.
#include "kit.h"
#include "render.h"
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/circle_detector.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace kit;
using rct_image_tools::CircleDetector;
using rct_image_tools::CircleDetectorParams;

// ------------------------------------------------------------------ image buffers between inaccessible pages
namespace guard
{
/** every image buffer ends (mode 1) or starts (mode 2) at an inaccessible page */
struct Alloc : cv::MatAllocator
{
  mutable int mode = 1;
  cv::UMatData* allocate(int dims, const int* sizes, int type, void* data0, size_t* step, cv::AccessFlag, cv::UMatUsageFlags) const override
  {
    size_t total = CV_ELEM_SIZE(type);
    for (int i = dims - 1; i >= 0; i--)
    {
      if (step)
      {
        if (data0 && step[i] != size_t(0x7fffffff))
          total = step[i];
        else
          step[i] = total;
      }
      total *= sizes[i];
    }
    auto* u = new cv::UMatData(this);
    u->size = total;
    if (data0)
    {
      u->data = u->origdata = (uchar*)data0;
      u->flags |= cv::UMatData::USER_ALLOCATED;
      return u;
    }
    const size_t P = 4096;
    size_t pages = (total + P - 1) / P;
    uchar* m = (uchar*)mmap(nullptr, (pages + 2) * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
      throw std::bad_alloc();
    mprotect(m + P, pages * P, PROT_READ | PROT_WRITE);
    u->origdata = m;
    u->userdata = (void*)((pages + 2) * P);
    u->data = mode == 1 ? m + P + (pages * P - total) : m + P;
    return u;
  }
  bool allocate(cv::UMatData* d, cv::AccessFlag, cv::UMatUsageFlags) const override { return d != nullptr; }
  void deallocate(cv::UMatData* u) const override
  {
    if (!u)
      return;
    if (!(u->flags & cv::UMatData::USER_ALLOCATED))
      munmap(u->origdata, (size_t)u->userdata);
    delete u;
  }
};
static Alloc alloc;
struct Scope
{
  cv::MatAllocator* old;
  explicit Scope(int mode) : old(cv::Mat::getDefaultAllocator())
  {
    alloc.mode = mode;
    cv::Mat::setDefaultAllocator(&alloc);
  }
  ~Scope() { cv::Mat::setDefaultAllocator(old); }
};
}  // namespace guard

// ------------------------------------------------------------------ checks
static std::vector<cv::KeyPoint> detect(vf::Ctx& c, const CircleDetectorParams& p, const cv::Mat& image, const std::string& what)
{
  cv::Mat before = image.clone();
  CircleDetector d(p);
  std::vector<cv::KeyPoint> k;
  d.detect(image, k);
  c.require(before.size() == image.size() && before.type() == image.type() && std::memcmp(before.data, image.data, before.total() * before.elemSize()) == 0, what,
            ": image is left alone");
  for (auto& q : k)
  {
    c.require(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size) && q.size > 0, what, ": finite keypoint");
    c.require(q.pt.x > -0.5 && q.pt.y > -0.5 && q.pt.x < image.cols - 0.5 && q.pt.y < image.rows - 0.5, what, ": keypoint ", q.pt.x, ",", q.pt.y, " in the image");
  }
  return k;
}
static void same(vf::Ctx& c, const std::vector<cv::KeyPoint>& a, const std::vector<cv::KeyPoint>& b, const std::string& what, double dx = 0, double dy = 0, double tol = 0)
{
  c.require(a.size() == b.size(), what, ": ", a.size(), " and ", b.size(), " circles");
  std::vector<char> used(b.size(), 0);
  for (auto& q : a)
  {
    bool ok = false;
    for (size_t i = 0; i < b.size() && !ok; ++i)
      if (!used[i] && std::hypot(q.pt.x + dx - b[i].pt.x, q.pt.y + dy - b[i].pt.y) <= tol && std::abs(q.size - b[i].size) <= tol)
        used[i] = ok = true;
    c.require(ok, what, ": circle ", q.pt.x, ",", q.pt.y, ",", q.size, " is reported by both");
  }
}
static double worstCentre = 0, worstDiameter = 0, lowDiameter = 0;
struct Truth
{
  double x, y, d;
};
static void matches(vf::Ctx& c, const std::vector<cv::KeyPoint>& k, const std::vector<Truth>& t, const std::string& what, double tolC = 0.25, double tolD = 1.6)
{
  std::string all;
  for (auto& q : k)
    all += " (" + str(q.pt.x) + "," + str(q.pt.y) + " d" + str(q.size) + ")";
  c.require(k.size() == t.size(), what, ": ", t.size(), " circles expected, got", all.empty() ? " none" : all);
  std::vector<char> used(k.size(), 0);
  for (auto& e : t)
  {
    int best = -1;
    for (size_t i = 0; i < k.size(); ++i)
      if (!used[i] && (best < 0 || std::hypot(k[i].pt.x - e.x, k[i].pt.y - e.y) + std::abs(k[i].size - e.d) <
                                       std::hypot(k[best].pt.x - e.x, k[best].pt.y - e.y) + std::abs(k[best].size - e.d)))
        best = i;
    used[best] = 1;
    double ec = std::hypot(k[best].pt.x - e.x, k[best].pt.y - e.y), ed = k[best].size - e.d;
    worstCentre = std::max(worstCentre, ec), worstDiameter = std::max(worstDiameter, ed), lowDiameter = std::min(lowDiameter, ed);
    c.require(ec <= tolC, what, ": centre ", e.x, ",", e.y, " reported at ", k[best].pt.x, ",", k[best].pt.y);
    c.require(std::abs(ed) <= tolD, what, ": diameter ", e.d, " reported as ", k[best].size);
  }
}
static const Eigen::Matrix3d ID = Eigen::Matrix3d::Identity();

// ------------------------------------------------------------------ shapes with known continuous measures
struct Shape
{
  std::string name;
  std::function<bool(double, double)> in;  // relative to the middle
  double ext;                              // half extent
  double w, h;                             // axes (diameter = mean)
  bool circle;                             // the outline is an ellipse
  double inertia, convexity, circularity;  // continuous values
  bool full;                               // centre pixel belongs to the shape
};
static cv::Mat draw(int w, int h, const std::vector<std::pair<Shape, V2>>& shapes, int value, int background, int S = 4)
{
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(background));
  for (auto& s : shapes)
    for (int y = std::max(0, int(s.second[1] - s.first.ext) - 2); y < std::min(h, int(s.second[1] + s.first.ext) + 3); ++y)
      for (int x = std::max(0, int(s.second[0] - s.first.ext) - 2); x < std::min(w, int(s.second[0] + s.first.ext) + 3); ++x)
      {
        int in = 0;
        for (int a = 0; a < S; ++a)
          for (int b = 0; b < S; ++b)
            in += s.first.in(x + (a + 0.5) / S - 0.5 - s.second[0], y + (b + 0.5) / S - 0.5 - s.second[1]);
        if (in)
        {
          double f = double(in) / (S * S);
          m.at<uchar>(y, x) = cv::saturate_cast<uchar>(std::lround((1 - f) * m.at<uchar>(y, x) + f * value));
        }
      }
  return m;
}
static Shape ellipse(double a, double b, double angle)
{
  // a >= b half axes
  double h = std::pow((a - b) / (a + b), 2), per = M_PI * (a + b) * (1 + 3 * h / (10 + std::sqrt(4 - 3 * h)));
  double ca = std::cos(angle), sa = std::sin(angle);
  return { "ellipse" + str(a) + "/" + str(b) + "@" + str(std::lround(angle * 180 / M_PI)),
           [=](double x, double y) {
             double u = x * ca + y * sa, v = -x * sa + y * ca;
             return u * u / (a * a) + v * v / (b * b) <= 1;
           },
           a, 2 * a, 2 * b, true, b * b / (a * a), 1.0, 4 * M_PI * M_PI * a * b / (per * per), true };
}
static Shape disc(double r)
{
  Shape s = ellipse(r, r, 0);
  s.name = "disc" + str(r);
  return s;
}
static Shape box(double r, double angle)
{
  double ca = std::cos(angle), sa = std::sin(angle);
  return { "square" + str(r) + "@" + str(std::lround(angle * 180 / M_PI)),
           [=](double x, double y) { return std::abs(x * ca + y * sa) <= r && std::abs(-x * sa + y * ca) <= r; },
           1.5 * r, 2 * r, 2 * r, false, 1, 1, M_PI / 4, true };
}
static Shape pacman(double r)
{
  return { "pacman" + str(r), [=](double x, double y) { return x * x + y * y <= r * r && !(x > 0 && std::abs(y) < x); }, r, 2 * r, 2 * r, false, 0.8, 0.82, 0.5, true };
}
static Shape bar(double a, double b)
{
  return { "bar" + str(a) + "/" + str(b), [=](double x, double y) { return std::abs(x) <= a && std::abs(y) <= b; }, a, 2 * a, 2 * b, false, b * b / a / a, 1, M_PI * a * b / ((a + b) * (a + b)), true };
}

/** +1 the value is clearly in [lo, hi), -1 clearly outside, 0 too close to tell */
static int in(double low, double high, double lo, double hi)
{
  if (low >= lo && high < hi)
    return 1;
  if (high < lo || low >= hi)
    return -1;
  return 0;
}
/** is the shape to be reported under the filters? (1 yes, -1 no, 0 too close to tell) */
static int verdict(const Shape& s, bool dark, const CircleDetectorParams& p)
{
  int v = s.circle ? 1 : 0;
  auto both = [&](int x) {
    if (x == -1 || v == -1)
      v = -1;
    else
      v = std::min(v, x);
  };
  if (p.filterByColor)
    both((p.circleColor == 0) == (dark == s.full) ? 1 : -1);
  if (p.filterByArea)
    both(in(M_PI / 4 * std::max(0., s.w - 2.6) * std::max(0., s.h - 2.6), M_PI / 4 * (s.w + 2.6) * (s.h + 2.6), p.minArea, p.maxArea));
  if (p.filterByInertia)
    both(in(s.inertia * 0.8, s.inertia * 1.25, p.minInertiaRatio, p.maxInertiaRatio));
  if (p.filterByConvexity)
    both(in(s.convexity * 0.93, s.convexity * 1.0001, p.minConvexity, p.maxConvexity));
  if (p.filterByCircularity)
    both(in(s.circularity * 0.82, s.circularity * 1.05, p.minCircularity, p.maxCircularity));
  return v;
}

void vf::define(Suite& s)
{
  s.property = "C19";
  s.rule = "all radii x sub-pixel positions x colours; all subsets of nine slots; all shapes x single and paired filter settings; all grey levels x threshold "
           "settings x repeatabilities; all concentric levels x grouping tolerances; every 4x4 (thorough: 4x5) binary image pattern at every corner; discs cut by the border at every position";
  s.assumptions = { "discs are well separated and at least 3 px in radius where they must be found", "filter limits closer than the discretisation error to a disc's own value are not judged" };
  const bool T = s.thorough;

  // ---------------------------------------------------------------- place and size
  for (double r : { 3., 3.5, 4., 5., 6.3, 8., 10., 14.5, 20., 30. })
    for (int dark = 0; dark < 2; ++dark)
      s.add(std::string("place/") + (dark ? "dark" : "light") + "-r" + str(r), [=](vf::Ctx& c) {
        int n = T ? 8 : 4, w = 2 * r + 24;
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
          {
            double x = w / 2 + i / double(n), y = w / 2 + 3 + j / double(n);
            cv::Mat m = render::scene(w, w + 9, { { x, y, r, dark ? 0 : 255 } }, ID, dark ? 255 : 0, 8);
            CircleDetectorParams p;
            p.circleColor = dark ? 0 : 255;
            p.minArea = 10;
            std::string what = "disc at " + str(x) + "," + str(y);
            auto k = detect(c, p, m, what);
            matches(c, k, { { x, y, 2 * r } }, what);
            cv::Mat col;
            cv::cvtColor(m, col, cv::COLOR_GRAY2BGR);
            same(c, k, detect(c, p, col, what + " colour"), what + ": colour and grey");
            same(c, k, detect(c, p, m, what), what + ": repeated");
            CircleDetectorParams q = p;
            q.circleColor = 255 - p.circleColor;
            c.require(detect(c, q, m, what).empty(), what, ": wrong colour is not reported");
            q.filterByColor = false;
            same(c, k, detect(c, q, m, what), what + ": colour filter off");
            // a region of a larger image (rows not contiguous)
            cv::Mat large(m.rows + 7, m.cols + 11, CV_8UC1, cv::Scalar(dark ? 255 : 0));
            m.copyTo(large(cv::Rect(5, 3, m.cols, m.rows)));
            CircleDetector d(p);
            std::vector<cv::KeyPoint> kr, kl;
            d.detect(large(cv::Rect(5, 3, m.cols, m.rows)), kr);
            same(c, k, kr, what + ": region of an image");
            d.detect(large, kl);
            same(c, k, kl, what + ": moved by whole pixels", 5, 3, 1e-3);
            c.eval(6);
          }
        c.outcome("largest centre error <= " + str(std::ceil(worstCentre * 100) / 100));
      });

  // ---------------------------------------------------------------- arrangements
  for (int dark = 0; dark < 2; ++dark)
    for (int rs = 0; rs < 3; ++rs)
      s.add(std::string("subset/") + (dark ? "dark" : "light") + str(rs), [=](vf::Ctx& c) {
        const double radii[3][9] = { { 5, 5, 5, 5, 5, 5, 5, 5, 5 }, { 4, 5, 6, 7, 8, 9, 10, 11, 12 }, { 12, 3, 12, 3, 12, 3, 12, 3, 12 } };
        for (int m = 0; m < 512; ++m)
        {
          std::vector<render::Disc> d;
          std::vector<Truth> t;
          for (int b = 0; b < 9; ++b)
            if (m >> b & 1)
            {
              double x = 20 + 30 * (b % 3) + 0.3 * b, y = 22 + 31 * (b / 3) - 0.2 * b, r = radii[rs][b];
              d.push_back({ x, y, r, dark ? 20 : 240 });
              t.push_back({ x, y, 2 * r });
            }
          cv::Mat img = render::scene(110, 115, d, ID, dark ? 250 : 5);
          CircleDetectorParams p;
          p.circleColor = dark ? 0 : 255;
          p.minArea = 10;
          matches(c, detect(c, p, img, "subset " + str(m)), t, "subset " + str(m));
          c.eval();
        }
      });

  // many discs
  for (int dark = 0; dark < 2; ++dark)
    for (int n : { 33, 65, 130, 257, 300 })
      s.add(std::string("many/") + (dark ? "dark" : "light") + str(n), [=](vf::Ctx& c) {
        for (int kind = 0; kind < 3; ++kind)
        {
          std::vector<render::Disc> d;
          std::vector<Truth> t;
          for (int b = 0; b < n; ++b)
          {
            double r = kind == 0 ? 4 : kind == 1 ? 3.5 + b % 5 : b + 1 == n ? 8 : 4;
            double x = 20 + 23 * (b % 20) + 0.03 * (b % 20), y = 20 + 23 * (b / 20) - 0.02 * b;
            d.push_back({ x, y, r, dark ? 20 : 240 });
            t.push_back({ x, y, 2 * r });
          }
          cv::Mat img = render::scene(480, 400, d, ID, dark ? 250 : 5);
          CircleDetectorParams p;
          p.circleColor = dark ? 0 : 255;
          p.minArea = 10;
          std::string w = str(n) + " discs, kind " + str(kind);
          matches(c, detect(c, p, img, w), t, w);
          c.eval();
        }
      });

  // ---------------------------------------------------------------- filters
  {
    std::vector<Shape> shapes = { disc(4), disc(6), disc(9), disc(15), disc(25) };
    for (double q : { 1.25, 1.6, 2.2, 3.0 })
      for (double a : { 0., 30., 90., 135. })
        shapes.push_back(ellipse(6 * q, 6, deg(a)));
    for (double a : { 0., 45., 20. })
      shapes.push_back(box(12, deg(a)));
    shapes.push_back(pacman(12));
    shapes.push_back(pacman(20));
    shapes.push_back(bar(20, 6));
    shapes.push_back(bar(10, 8));
    for (auto& sh : shapes)
      for (int dark = 0; dark < 2; ++dark)
        s.add("filter/" + std::string(dark ? "dark-" : "light-") + sh.name, [=](vf::Ctx& c) {
          int w = 2 * sh.ext + 40;
          V2 at(w / 2 + 0.3, w / 2 - 0.2);
          cv::Mat m = draw(w, w, { { sh, at } }, dark ? 0 : 255, dark ? 255 : 0);
          const float INF = std::numeric_limits<float>::max();
          typedef std::function<void(CircleDetectorParams&)> Set;
          std::vector<std::vector<std::pair<std::string, Set>>> options;
          auto none = std::make_pair(std::string(), Set([](CircleDetectorParams&) {}));
          std::vector<std::pair<std::string, Set>> color = { none }, area = { none }, circ = { none }, inertia = { none }, conv = { none };
          for (int v : { 0, 255 })
            color.push_back({ "colour " + str(v), [=](CircleDetectorParams& p) { p.filterByColor = true, p.circleColor = v; } });
          std::vector<float> A = { 0, 30, 100, 250, 500, 1000, 2500, INF }, R = { 0.05f, 0.2f, 0.35f, 0.5f, 0.7f, INF }, V = { 0.3f, 0.7f, 0.9f, INF }, C = { 0.1f, 0.4f, 0.6f, 0.75f, INF };
          for (size_t i = 0; i < A.size(); ++i)
            for (size_t j = i + 1; j < A.size(); ++j)
              area.push_back({ " area " + str(A[i]) + ".." + str(A[j]), [=](CircleDetectorParams& p) { p.filterByArea = true, p.minArea = A[i], p.maxArea = A[j]; } });
          for (size_t i = 0; i < C.size(); ++i)
            for (size_t j = i + 1; j < C.size(); ++j)
              circ.push_back({ " circularity " + str(C[i]) + ".." + str(C[j]), [=](CircleDetectorParams& p) { p.filterByCircularity = true, p.minCircularity = C[i], p.maxCircularity = C[j]; } });
          for (size_t i = 0; i < R.size(); ++i)
            for (size_t j = i + 1; j < R.size(); ++j)
              inertia.push_back({ " inertia " + str(R[i]) + ".." + str(R[j]), [=](CircleDetectorParams& p) { p.filterByInertia = true, p.minInertiaRatio = R[i], p.maxInertiaRatio = R[j]; } });
          for (size_t i = 0; i < V.size(); ++i)
            for (size_t j = i + 1; j < V.size(); ++j)
              conv.push_back({ " convexity " + str(V[i]) + ".." + str(V[j]), [=](CircleDetectorParams& p) { p.filterByConvexity = true, p.minConvexity = V[i], p.maxConvexity = V[j]; } });
          std::vector<std::vector<std::pair<std::string, Set>>*> dims = { &color, &area, &circ, &inertia, &conv };
          auto run = [&](const std::vector<const std::pair<std::string, Set>*>& sets) {
            CircleDetectorParams p;
            p.filterByArea = p.filterByCircularity = p.filterByColor = p.filterByConvexity = p.filterByInertia = false;
            p.minThreshold = 100, p.maxThreshold = 156, p.nThresholds = 3;
            std::string what = sh.name;
            for (auto q : sets)
            {
              q->second(p);
              what += " " + q->first;
            }
            int v = verdict(sh, dark, p);
            if (v == 0)
            {
              c.outcome("not judged");
              return;
            }
            p.maxAverageEllipseError = 0.02f;
            // the frame of the image is an outline of its own when the background is light; it is larger than the limit
            if (!p.filterByArea)
              p.filterByArea = true, p.minArea = 0, p.maxArea = 0.8f * w * w;
            else
              p.maxArea = std::min(p.maxArea, 0.8f * w * w);
            auto k = detect(c, p, m, what);
            std::vector<Truth> t;
            if (v > 0)
              t.push_back({ at[0], at[1], (sh.w + sh.h) / 2 });
            c.eval();
            c.outcome(v > 0 ? "reported" : "filtered");
            matches(c, k, t, what);
          };
          for (size_t a = 0; a < dims.size(); ++a)
            for (size_t b = a + 1; b < dims.size(); ++b)
              for (auto& x : *dims[a])
                for (auto& y : *dims[b])
                  run({ &x, &y });
        });
  }
  // the ellipse tolerance decides between round and square outlines
  s.add("filter/ellipse-error", [=](vf::Ctx& c) {
    for (double a : { 0., 20., 45. })
      for (int dark = 0; dark < 2; ++dark)
        for (double r : { 9., 14., 20. })
        {
          Shape b = box(r, deg(a)), d = disc(r);
          cv::Mat m = draw(180, 90, { { b, V2(50, 45) }, { d, V2(120.4, 44.7) } }, dark ? 0 : 255, dark ? 255 : 0);
          CircleDetectorParams p;
          p.circleColor = dark ? 0 : 255;
          p.minArea = 50;
          p.maxAverageEllipseError = 0.008f;
          matches(c, detect(c, p, m, "square and disc"), { { 120.4, 44.7, 2 * r } }, "square and disc");
          p.maxAverageEllipseError = 0.2f, p.filterByConvexity = false;
          c.require(detect(c, p, m, "").size() == 2, "wide tolerance reports both");
          p.maxAverageEllipseError = 0.f;
          c.require(detect(c, p, m, "").empty(), "zero tolerance reports none");
          c.eval(3);
        }
  });

  // ---------------------------------------------------------------- thresholds and repeatability
  for (int bg : { 255, 200, 128, 60, 0 })
    for (size_t n : { 0, 1, 2, 3, 5, 18 })
      s.add("repeat/bg" + str(bg) + "-n" + str(n), [=](vf::Ctx& c) {
        for (int v = 0; v <= 255; v += T ? 5 : 15)
        {
          if (std::abs(v - bg) < 10)
            continue;
          cv::Mat m = render::scene(50, 50, { { 24.3, 25.2, 8, v } }, ID, bg);
          for (auto range : { std::make_pair(50.f, 220.f), std::make_pair(0.f, 255.f), std::make_pair(100.5f, 101.5f), std::make_pair(90.f, 90.f) })
            for (size_t rep = 0; rep <= n + 2; rep += (n == 18 && !T ? 3 : 1))
            {
              CircleDetectorParams p;
              p.minThreshold = range.first, p.maxThreshold = range.second, p.nThresholds = n, p.minRepeatability = rep;
              p.filterByArea = true, p.maxArea = 1000;
              p.circleColor = v < bg ? 0 : 255;
              size_t seen = 0;
              bool close = false;
              for (size_t i = 0; i < n; ++i)
              {
                double t = n < 2 ? (range.first + range.second) / 2 : range.first + double(i) / (n - 1) * (double(range.second) - range.first);
                seen += std::min(v, bg) <= t && t < std::max(v, bg);
                // thresholds within the anti-aliased rim (less than a quarter grey level coverage) shift the outline but do not hide it
                close |= std::abs(t - std::min(v, bg)) < 1e-3 || std::abs(t - std::max(v, bg)) < 1e-3;
              }
              std::string what = "level " + str(v) + " thresholds " + str(range.first) + ".." + str(range.second) + " repeat " + str(rep);
              c.eval();
              if (rep > n)
              {
                c.require(throws([&] { detect(c, p, m, what); }), what, ": more repetitions than thresholds are refused");
                c.require(throws([&] { CircleDetector(p).drawDetectedCircles(m); }), what, ": more repetitions than thresholds are refused in drawing");
                c.outcome("refused");
                continue;
              }
              auto k = detect(c, p, m, what);
              c.outcome(close ? "threshold equals a level" : seen >= std::max<size_t>(1, rep) ? "found" : "not found");
              std::vector<Truth> t;
              if (seen >= std::max<size_t>(1, rep))
                t.push_back({ 24.3, 25.2, 16 });
              matches(c, k, t, what, 0.3, 2.2);
            }
        }
      });

  // ---------------------------------------------------------------- grouping of concentric circles
  for (int dark = 0; dark < 2; ++dark)
    s.add(std::string("group/") + (dark ? "dark" : "light"), [=](vf::Ctx& c) {
      for (double r1 : { 5., 8. })
        for (double r2 : { 12., 16., 20. })
          for (float tolR : { 0.6f, 2.f, 5.f, 9.5f, 17.5f })
            for (float tolC : { 0.7f, 5.f, 40.f })
              for (int shift = 0; shift < 2; ++shift)
              {
                if (std::abs((r2 - r1) - tolR) < 1.2)
                  continue;
                double off = shift ? 2.5 : 0;
                cv::Mat m = render::scene(70, 70, { { 34.2, 35.1, r2, 128 }, { 34.2 + off, 35.1, r1, dark ? 0 : 255 } }, ID, dark ? 255 : 0);
                CircleDetectorParams p;
                p.circleColor = dark ? 0 : 255;
                p.maxRadiusDiff = tolR, p.circleInclusionRadius = tolC;
                p.minThreshold = 40, p.maxThreshold = 210, p.nThresholds = 18, p.minRepeatability = 3;
                auto k = detect(c, p, m, "concentric");
                bool merged = r2 - r1 < tolR && off < tolC;
                std::string what = "radii " + str(r1) + "," + str(r2) + " tolerance " + str(tolR) + "," + str(tolC) + " shift " + str(off);
                c.eval();
                c.outcome(merged ? "merged" : "separate");
                if (!merged)
                  matches(c, k, { { 34.2 + off, 35.1, 2 * r1 }, { 34.2, 35.1, 2 * r2 } }, what);
                else
                {
                  c.require(k.size() == 1, what, ": one circle, got ", k.size());
                  c.require(k[0].pt.x > 34.2 - 0.25 && k[0].pt.x < 34.2 + off + 0.25 && std::abs(k[0].pt.y - 35.1) < 0.25, what, ": merged centre");
                  c.require(k[0].size > 2 * r1 - 1.6 && k[0].size < 2 * r2 + 1.6, what, ": merged diameter");
                }
              }
    });
  // neighbours closer than the inclusion radius count as one feature; beyond it they are two
  s.add("group/neighbours", [=](vf::Ctx& c) {
    for (double gap = 8; gap <= 40; gap += 2)
      for (float tolC : { 1.f, 5.f, 11.f, 15.f, 21.f, 35.f })
      {
        if (std::abs(gap - tolC) < 0.7)
          continue;
        cv::Mat m = render::scene(90, 40, { { 20.2, 20.1, 3 }, { 20.2 + gap, 20.1, 3 } }, ID);
        CircleDetectorParams p;
        p.circleInclusionRadius = tolC;
        auto k = detect(c, p, m, "neighbours");
        c.eval();
        if (gap > tolC)
          matches(c, k, { { 20.2, 20.1, 6 }, { 20.2 + gap, 20.1, 6 } }, "gap " + str(gap) + " inclusion radius " + str(tolC));
        else
          c.require(k.size() == 1, "gap ", gap, " inclusion radius ", tolC, ": one feature");
      }
  });

  // ---------------------------------------------------------------- every small pattern
  for (int corner = 0; corner < 5; ++corner)
    for (int part = 0; part < 8; ++part)
      s.add("pattern/" + str(corner) + "-" + str(part), [=](vf::Ctx& c) {
        const int W = 7, PC = T ? 5 : 4;
        int ox = corner == 4 ? 1 : corner & 1 ? W - PC : 0, oy = corner == 4 ? 2 : corner & 2 ? W - 4 : 0;
        CircleDetectorParams p;
        p.filterByArea = p.filterByConvexity = false;
        p.nThresholds = 1, p.minRepeatability = 1;
        p.maxAverageEllipseError = 0.3f;
        for (int mode = 1; mode <= 2; ++mode)
        {
          guard::Scope g(mode);
          for (int m = part; m < 1 << 4 * PC; m += T ? 8 : 8 * (mode == 1 ? 3 : 5))
            for (int inv = 0; inv < 2; ++inv)
            {
              cv::Mat img(W, W, CV_8UC1, cv::Scalar(inv ? 255 : 0));
              for (int b = 0; b < 4 * PC; ++b)
                if (m >> b & 1)
                  img.at<uchar>(oy + b / PC, ox + b % PC) = inv ? 0 : 255;
              p.circleColor = (m >> 3) & 1 ? 255 : 0;
              CircleDetector d(p);
              std::vector<cv::KeyPoint> k;
              d.detect(img, k);
              for (auto& q : k)
              {
                c.require(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size), "pattern ", m, ": finite keypoint");
                c.require(q.pt.x > -0.5 && q.pt.y > -0.5 && q.pt.x < W - 0.5 && q.pt.y < W - 0.5, "pattern ", m, ": keypoint ", q.pt.x, ",", q.pt.y, " in the image");
              }
              c.outcome(str(k.size()) + " circles");
              p.filterByColor = false;
              CircleDetector(p).detect(img, k);
              p.filterByColor = true;
              for (auto& q : k)
                c.require(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size), "pattern ", m, ": finite keypoint without colour filter");
              c.eval();
            }
        }
      });
  // ---------------------------------------------------------------- discs cut by the border
  for (double r : { 4., 7., 12. })
    for (int dark = 0; dark < 2; ++dark)
      s.add(std::string("border/") + (dark ? "dark" : "light") + "-r" + str(r), [=](vf::Ctx& c) {
        int w = 4 * r + 8;
        for (int mode = 1; mode <= 2; ++mode)
        {
          guard::Scope g(mode);
          for (double x = -1.5 * r; x <= w + 1.5 * r; x += T ? 0.5 : 1.5)
            for (double y : { -0.7 * r, -0.2 * r, 0.4 * r, w / 2., w - 0.4 * r, w + 0.3 * r })
            {
              cv::Mat m = render::scene(w, w, { { x, y, r, dark ? 0 : 255 } }, ID, dark ? 255 : 0);
              CircleDetectorParams p;
              p.circleColor = dark ? 0 : 255;
              p.minArea = 8;
              p.maxArea = 0.8 * w * w;
              for (float e : { 0.02f, 0.5f })
              {
                p.maxAverageEllipseError = e;
                std::string what = "disc at " + str(x) + "," + str(y) + " tolerance " + str(e);
                auto k = detect(c, p, m, what);
                bool inside = x >= r + 2 && y >= r + 2 && x <= w - r - 3 && y <= w - r - 3;
                bool outside = x <= -r - 1 || y <= -r - 1 || x >= w + r || y >= w + r;
                if (inside)
                  matches(c, k, { { x, y, 2 * r } }, what);
                if (outside)
                  matches(c, k, {}, what);
                c.outcome(inside ? "inside" : outside ? "outside" : k.empty() ? "cut: refused" : "cut: found");
                c.eval();
                cv::Mat before = m.clone();
                cv::Mat o = CircleDetector(p).drawDetectedCircles(m);
                c.require(o.size() == m.size() && o.data != m.data && cv::norm(before, m, cv::NORM_INF) == 0, what, ": drawing leaves the image alone");
              }
            }
        }
      });
  // ---------------------------------------------------------------- drawing
  s.add("draw", [=](vf::Ctx& c) {
    for (int type : { CV_8UC1, CV_8UC3 })
      for (int n = 0; n < 4; ++n)
      {
        std::vector<render::Disc> d;
        for (int i = 0; i < n; ++i)
          d.push_back({ 20.0 + 30 * i, 25, 6 });
        cv::Mat m = render::scene(130, 50, d, ID);
        if (type == CV_8UC3)
          cv::cvtColor(m, m, cv::COLOR_GRAY2BGR);
        cv::Mat before = m.clone();
        CircleDetectorParams p;
        cv::Mat o = CircleDetector(p).drawDetectedCircles(m);
        c.require(cv::norm(before, m, cv::NORM_INF) == 0 && o.data != m.data, "drawing leaves the image alone");
        c.require(o.size() == m.size() && o.type() == CV_8UC3, "colour drawing of the same size");
        cv::Mat col = m;
        if (type == CV_8UC1)
          cv::cvtColor(m, col, cv::COLOR_GRAY2BGR);
        // changes are confined to the surroundings of the discs, and every disc is marked
        cv::Mat diff;
        cv::absdiff(o, col, diff);
        cv::cvtColor(diff, diff, cv::COLOR_BGR2GRAY);
        std::vector<char> marked(n, 0);
        for (int y = 0; y < m.rows; ++y)
          for (int x = 0; x < m.cols; ++x)
            if (diff.at<uchar>(y, x))
            {
              bool near = false;
              for (int i = 0; i < n; ++i)
                if (std::hypot(x - d[i].x, y - d[i].y) < d[i].r + 6)
                  near = marked[i] = true;
              c.require(near, "drawing at ", x, ",", y, " belongs to a disc");
            }
        for (int i = 0; i < n; ++i)
          c.require(marked[i], "disc ", i, " is marked");
        c.eval();
        auto q = CircleDetector::create(p);
        std::vector<cv::KeyPoint> k;
        q->detect(m, k);
        c.require((int)k.size() == n, "created detector");
      }
  });
}

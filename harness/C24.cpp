// LIBS: img ros
// C24: the command-line calibration and validation tools, run as programs on every pattern of usable and unusable images.
#include "kit.h"
#include "render.h"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/calib3d.hpp>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <pluginlib/class_list_macros.h>
#include <rct_common/print_utils.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>

using namespace kit;
namespace ro = rct_optimizations;
namespace fs = std::filesystem;
using Corrs = Corr2::Set;

static std::string str(double v)
{
  std::ostringstream s;
  s.precision(17);
  s << v;
  std::string t = s.str();
  return t.find_first_of(".en") == std::string::npos ? t + ".0" : t;
}
static std::string num(long v) { return std::to_string(v); }

struct Scratch
{
  std::string dir;
  Scratch()
  {
    char t[] = "/tmp/vf-c24-XXXXXX";
    if (!mkdtemp(t))
      throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    std::error_code ec;
    if (dir.rfind("/tmp/vf-c24-", 0) == 0)
      fs::remove_all(dir, ec);
  }
};
static void put(const std::string& path, const std::string& text)
{
  std::ofstream f(path, std::ios::binary);
  f << text;
}
static std::string get(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

// ------------------------------------------------------------------ running a tool
struct Frame
{
  std::string window;
  cv::Mat image;
};
struct Run
{
  bool ended = false;  // by itself, not by a signal
  int code = 0, signal = 0;
  std::string out;
  std::vector<Frame> frames;
  long count(const std::string& s) const
  {
    long n = 0;
    for (size_t p = out.find(s); p != std::string::npos; p = out.find(s, p + 1))
      ++n;
    return n;
  }
};
static Run runTool(const std::string& tool, const std::string& params, const std::string& dir, bool frames = false)
{
  put(dir + "/params.yaml", params);
  std::string dump = dir + "/frames", exe = std::string(TOOLS_DIR) + "/tool_" + tool;
  if (frames)
    fs::create_directories(dump);
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(100);
    int fd = open((dir + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1), dup2(fd, 2);
    setenv("RCT_PARAMS", (dir + "/params.yaml").c_str(), 1);
    setenv("RCT_PACKAGES", dir.c_str(), 1);
    if (frames)
      setenv("RCT_DUMP", dump.c_str(), 1);
    else
      unsetenv("RCT_DUMP");
    setenv("OPENCV_FOR_THREADS_NUM", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    if (chdir(dir.c_str()))
      _exit(126);
    execl(exe.c_str(), exe.c_str(), (char*)nullptr);
    _exit(127);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Run r;
  r.ended = WIFEXITED(st);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  r.out = get(dir + "/out");
  if (frames)
    for (int i = 0; fs::exists(dump + "/frame" + num(i)); ++i)
    {
      std::string raw = get(dump + "/frame" + num(i));
      int h[4];
      memcpy(h, raw.data(), sizeof h);
      Frame f;
      f.window = raw.substr(sizeof h, h[3]);
      f.image = cv::Mat(h[0], h[1], h[2], (void*)(raw.data() + sizeof h + h[3])).clone();
      r.frames.push_back(f);
    }
  return r;
}
// a tool that fails shows nothing that could be taken for a result
static void noResult(vf::Ctx& c, const Run& r, const std::string& what)
{
  for (const char* k : { "Did converge?: 1", "URDF Format", "is valid!", "Noise Results" })
    c.require(r.count(k) == 0, what, ": no result is shown after a failure ('", k, "')\n", r.out);
}
/** all numbers of a text */
static std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  for (const char* p = s.c_str(); *p;)
  {
    char* e;
    if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit((unsigned char)p[1])))
    {
      v.push_back(strtod(p, &e));
      p = e;
    }
    else if (isalpha((unsigned char)*p))
    {
      std::string w;
      const char* q = p;
      while (isalnum((unsigned char)*q) || *q == '_')
        w += *q++;
      if (w == "nan" || w == "inf")
        v.push_back(std::nan(""));
      p = q;
    }
    else
      ++p;
  }
  return v;
}
/** the part of the output that follows the nth line starting with head */
static std::string after(vf::Ctx& c, const std::string& out, const std::string& head, int nth = 0)
{
  size_t p = 0;
  for (;;)
  {
    p = out.find(head, p);
    c.require(p != std::string::npos, "output has no (further) '", head, "':\n", out.size() > 3000 ? out.substr(out.size() - 3000) : out);
    if ((p == 0 || out[p - 1] == '\n') && nth-- == 0)
      return out.substr(p + head.size());
    ++p;
  }
}
/** the transform printed under a heading; every printed form of it must say the same */
static Iso transform(vf::Ctx& c, const std::string& out, const std::string& head, int nth = 0)
{
  std::string t = after(c, out, head + ":", nth);
  size_t u = t.find("---");
  c.require(u != std::string::npos, head, ": URDF form is printed");
  auto m = numbers(t.substr(0, u));
  c.require(m.size() == 16, head, ": matrix has ", m.size(), " numbers");
  Iso r = Iso::Identity();
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      r.matrix()(i, j) = m[4 * i + j];
  auto field = [&](const std::string& n, size_t k) {
    size_t a = t.find(n + "=\"", u);
    c.require(a != std::string::npos, head, ": ", n, " is printed");
    a += n.size() + 2;
    auto v = numbers(t.substr(a, t.find('"', a) - a));
    c.require(v.size() == k, head, ": ", n, " has ", v.size(), " numbers");
    return v;
  };
  auto x = field("xyz", 3), a = field("rpy", 6), q = field("qxyzw", 4);
  for (int i = 0; i < 3; ++i)
  {
    c.near(x[i], r.translation()[i], 2e-5 * (1 + std::fabs(x[i])), head, ": xyz ", i);
    c.near(a[2 * i] * 180 / PI, a[2 * i + 1], 2e-3, head, ": angle ", i, " in degrees");
  }
  Eigen::Matrix3d R = rot({ 0, 0, 1 }, a[4]) * rot({ 0, 1, 0 }, a[2]) * rot({ 1, 0, 0 }, a[0]);
  c.near((R - r.linear()).norm(), 0, 2e-4, head, ": roll, pitch, yaw give the rotation");
  Eigen::Matrix3d Q = Eigen::Quaterniond(q[3], q[0], q[1], q[2]).toRotationMatrix();
  c.near((Q - r.linear()).norm(), 0, 2e-4, head, ": quaternion gives the rotation");
  return r;
}
/** the difference of two transforms printed under a heading: where the second one is, seen from the parent frame and from the first one */
static void difference(vf::Ctx& c, const std::string& out, const std::string& head, const Iso& a, const Iso& b, const std::string& what)
{
  std::string t = after(c, out, head + ":");
  size_t second = t.find("--- ", t.find("---\n") + 4);
  c.require(second != std::string::npos, what, ": both forms of the difference are printed");
  Iso d = Iso(a.inverse() * b);
  double angle = Eigen::AngleAxisd(d.linear()).angle() * 180 / PI;
  for (int k = 0; k < 2; ++k)
  {
    std::string u = k ? t.substr(second) : t.substr(0, second), w = what + (k ? ": relative difference" : ": difference");
    V3 v = k ? V3(d.translation()) : V3(b.translation() - a.translation());
    auto line = [&](const std::string& n, size_t count) {
      std::string l = after(c, u, n);
      auto x = numbers(l.substr(0, l.find('\n')));
      c.require(x.size() == count, w, ": ", n, " has ", x.size(), " numbers");
      return x;
    };
    auto x = line("DELTA S:", 4), y = line("DELTA A:", 7);
    c.near(x[0], v.norm(), 1e-6 + 1e-4 * v.norm(), w, ": distance");
    for (int i = 0; i < 3; ++i)
    {
      c.near(x[1 + i], v[i], 1e-6 + 1e-4 * v.norm(), w, ": xyz ", i);
      c.near(y[1 + 2 * i] * 180 / PI, y[2 + 2 * i], 2e-3, w, ": angle ", i, " in degrees");
    }
    c.near(y[0], angle, 1e-4 + 1e-4 * angle, w, ": angle");
    c.near((rot({ 0, 0, 1 }, y[5]) * rot({ 0, 1, 0 }, y[3]) * rot({ 1, 0, 0 }, y[1]) - d.linear()).norm(), 0, 5e-5, w, ": roll, pitch, yaw give the rotation");
    if (!k)
      continue;
    u = u.substr(u.find('\n'));
    auto m = numbers(u.substr(0, u.find("DELTA")));
    c.require(m.size() == 16, w, ": matrix has ", m.size(), " numbers");
    for (int i = 0; i < 16; ++i)
      c.near(m[i], d.matrix()(i / 4, i % 4), 1e-5 * (1 + std::fabs(d.matrix()(i / 4, i % 4))), w, ": matrix ", i);
  }
}
static void same(vf::Ctx& c, const Iso& got, const Iso& want, const std::string& what, double tol = 3e-5)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      c.near(got.matrix()(i, j), want.matrix()(i, j), tol * (1 + std::fabs(want.matrix()(i, j))), what, " (", i, ",", j, ")");
}
static void sameNumbers(vf::Ctx& c, const std::vector<double>& got, const std::vector<double>& want, const std::string& what, double rel, double abs)
{
  c.require(got.size() >= want.size(), what, ": ", got.size(), " numbers printed");
  for (size_t i = 0; i < want.size(); ++i)
    if (!std::isfinite(want[i]))
      c.require(!std::isfinite(got[i]), what, " ", i, ": got ", got[i], ", expected no number");
    else
      c.near(got[i], want[i], abs + rel * std::fabs(want[i]), what, " ", i);
}
static void optResults(vf::Ctx& c, const std::string& out, int nth, bool converged, double initial, double final, const std::string& what)
{
  c.near(numbers(after(c, out, "Did converge?:", nth)).at(0), converged, 0, what, ": converged");
  c.near(numbers(after(c, out, "Initial cost?:", nth)).at(0), std::sqrt(initial), 1e-6 + 2e-5 * std::sqrt(initial), what, ": initial cost");
  c.near(numbers(after(c, out, "Final cost?:", nth)).at(0), std::sqrt(final), 1e-6 + 2e-5 * std::sqrt(final), what, ": final cost");
}

// ------------------------------------------------------------------ targets and images
static const std::string CIRCLE_PARAMS = "  circle_detector_params: {minThreshold: 20, maxThreshold: 220, nThresholds: 10, minRepeatability: 3, circleInclusionRadius: 5, maxRadiusDiff: 5, "
                                         "maxAverageEllipseError: 0.02, filterByColor: true, circleColor: 0, filterByArea: true, minArea: 25.0, maxArea: 5000.0, filterByCircularity: false, "
                                         "minCircularity: 0.8, maxCircularity: 99999999.0, filterByInertia: false, minInertiaRatio: 0.1, maxInertiaRatio: 99999999.0, filterByConvexity: true, "
                                         "minConvexity: 0.95, maxConvexity: 99999999.0}\n";
struct Board
{
  bool charuco = false;
  int rows = 5, cols = 7;
  double s = 0.025;
  std::string config() const
  {
    if (charuco)
      return "target_finder:\n  type: rct_ros_tools::CharucoGridTargetFinderPlugin\n  rows: " + num(rows) + "\n  cols: " + num(cols) + "\n  chessboard_dim: " + str(s) +
             "\n  aruco_marker_dim: " + str(0.6 * s) + "\n  dictionary: 10\n";
    return "target_finder:\n  type: rct_ros_tools::ModifiedCircleGridTargetFinderPlugin\n  rows: " + num(rows) + "\n  cols: " + num(cols) + "\n  spacing: " + str(s) + "\n" + CIRCLE_PARAMS;
  }
  V3 centre() const { return charuco ? V3(cols * s / 2, rows * s / 2, 0) : V3((cols - 1) * s / 2, (rows - 1) * s / 2, 0); }
};
static Board circles() { return Board(); }
static Board charucos()
{
  Board b;
  b.charuco = true;
  b.rows = 5, b.cols = 5;
  return b;
}

/** image of a board whose frame is at pose (in the camera) */
static cv::Mat picture(const Board& b, const CameraIntrinsics& k, const Iso& pose, int w = 640, int h = 480)
{
  Eigen::Matrix3d K, P;
  K << k.values[0], 0, k.values[2], 0, k.values[1], k.values[3], 0, 0, 1;
  P << pose.linear().col(0), pose.linear().col(1), pose.translation();
  if (!b.charuco)
  {
    std::vector<render::Disc> d;
    for (int r = 0; r < b.rows; ++r)
      for (int q = 0; q < b.cols; ++q)
        d.push_back({ q * b.s, r * b.s, b.s * (r == 0 && q == 0 ? 0.4 : 0.2) });
    return render::scene(w, h, d, K * P, 255, 4);
  }
  // chessboard: one plane pixel per 1/40 square, drawn by hand from the board's description
  auto dic = cv::aruco::getPredefinedDictionary(10);
  auto board = cv::aruco::CharucoBoard::create(b.cols, b.rows, b.s, 0.6 * b.s, dic);
  const int U = 40;
  cv::Mat plane((b.rows + 2) * U, (b.cols + 2) * U, CV_8UC1, cv::Scalar(255));
  for (int y = 0; y < b.rows; ++y)
    for (int x = 0; x < b.cols; ++x)
      plane(cv::Rect((x + 1) * U, (y + 1) * U, U, U)).setTo(0);
  for (size_t i = 0; i < board->ids.size(); ++i)
  {
    double x0 = 1e9, y0 = 1e9;
    for (auto& p : board->objPoints[i])
      x0 = std::min<double>(x0, p.x), y0 = std::min<double>(y0, p.y);
    int cx = int(x0 / b.s), cy = int(y0 / b.s);
    plane(cv::Rect((cx + 1) * U, (cy + 1) * U, U, U)).setTo(255);
    cv::Mat m;
    int n = 24;
    cv::aruco::drawMarker(dic, board->ids[i], n, m, 1);
    m.copyTo(plane(cv::Rect((cx + 1) * U + (U - n) / 2, (cy + 1) * U + (U - n) / 2, n, n)));
  }
  Eigen::Matrix3d Hi = (K * P).inverse();
  cv::Mat img(h, w, CV_8UC1);
  const int S = 3;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
    {
      int sum = 0;
      for (int a = 0; a < S; ++a)
        for (int e = 0; e < S; ++e)
        {
          Eigen::Vector3d q = Hi * Eigen::Vector3d(x + (a + 0.5) / S - 0.5, y + (e + 0.5) / S - 0.5, 1);
          int u = std::floor((q[0] / q[2] / b.s + 1) * U), v = std::floor((q[1] / q[2] / b.s + 1) * U);
          sum += u < 0 || v < 0 || u >= plane.cols || v >= plane.rows ? 255 : plane.at<uchar>(v, u);
        }
      img.at<uchar>(y, x) = sum / (S * S);
    }
  return img;
}
/** bends the image, such that no plane explains the feature places */
static cv::Mat bend(const cv::Mat& m, double k = 1.2)
{
  cv::Mat mx(m.size(), CV_32F), my(m.size(), CV_32F), r;
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols; ++x)
    {
      double u = (x - 320) / 320., v = (y - 240) / 320., f = 1 + k * (u * u + v * v);
      mx.at<float>(y, x) = 320 + 320 * u * f, my.at<float>(y, x) = 240 + 320 * v * f;
    }
  cv::remap(m, r, mx, my, cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(255));
  return r;
}
struct Picture
{
  cv::Mat bgr;
  std::string png;
  bool found = false;
  Corrs corrs;
};
static std::shared_ptr<rct_ros_tools::TargetFinderPlugin> finder(const Board& b)
{
  auto n = YAML::Load(b.config())["target_finder"];
  auto& r = pluginlib::registry<rct_ros_tools::TargetFinderPlugin>();
  auto it = r.find(n["type"].as<std::string>());
  if (it == r.end())
    throw std::runtime_error("target finder is not registered");
  auto p = it->second();
  p->init(n);
  return p;
}
static Picture finish(const Board& b, const cv::Mat& grey, std::shared_ptr<const rct_image_tools::TargetFinder> f = nullptr)
{
  Picture p;
  cv::cvtColor(grey, p.bgr, cv::COLOR_GRAY2BGR);
  std::vector<uchar> buf;
  cv::imencode(".png", grey, buf);
  p.png.assign(buf.begin(), buf.end());
  try
  {
    if (!f)
      f = finder(b);
    auto t = f->findTargetFeatures(p.bgr);
    p.corrs = f->target().createCorrespondences(t);
    p.found = !p.corrs.empty();
  }
  catch (const std::exception&)
  {
    p.corrs.clear();
  }
  return p;
}
static Picture blank(const Board& b, int i, int w = 640, int h = 480) { return finish(b, cv::Mat(h, w, CV_8UC1, cv::Scalar(150 + 10 * i))); }

/** poses of the board in the camera: the board's centre 0.4 m away, facing the camera, tilted */
static Iso view(const Board& b, int i)
{
  static const double tilt[][5] = { { 20, 0, 5, 0, 0 }, { -22, 5, -10, 0.02, 0.01 }, { 4, 25, 15, -0.02, 0.01 }, { -5, -24, 25, 0.01, -0.02 }, { 17, 18, -20, 0, 0.02 }, { -16, 19, 0, -0.01, -0.01 }, { 18, -17, -30, 0.03, 0 }, { -20, -15, 35, -0.03, 0.01 } };
  auto& t = tilt[i % 8];
  Iso facing = make(rot({ 1, 0, 0 }, deg(t[0])) * rot({ 0, 1, 0 }, deg(t[1])) * rot({ 0, 0, 1 }, deg(t[2])) * rot({ 1, 0, 0 }, b.charuco ? 0 : PI), V3(t[3], t[4], 0.38 + 0.02 * (i % 4)));
  Iso c = make(Eigen::Matrix3d::Identity(), -b.centre());
  return make(facing.linear() * c.linear(), xf(facing, c.translation()));
}
static CameraIntrinsics cam() { return intr(550, 550, 320, 240); }
static CameraIntrinsics camC(int c) { return c == 0 ? cam() : c == 1 ? intr(530, 540, 310, 250) : intr(570, 560, 325, 235); }

// ------------------------------------------------------------------ parameters
static std::string intrText(const CameraIntrinsics& k, const std::string& in = "")
{
  return in + "intrinsics:\n" + in + "  fx: " + str(k.values[0]) + "\n" + in + "  fy: " + str(k.values[1]) + "\n" + in + "  cx: " + str(k.values[2]) + "\n" + in + "  cy: " + str(k.values[3]) + "\n";
}
static std::string poseText(const Iso& p, const std::string& in = "")
{
  Eigen::Quaterniond q(p.linear());
  return in + "x: " + str(p.translation()[0]) + "\n" + in + "y: " + str(p.translation()[1]) + "\n" + in + "z: " + str(p.translation()[2]) + "\n" + in + "qx: " + str(q.x()) + "\n" + in + "qy: " + str(q.y()) + "\n" + in +
         "qz: " + str(q.z()) + "\n" + in + "qw: " + str(q.w()) + "\n";
}
static std::string poseParam(const std::string& name, const Iso& p, const std::string& in = "") { return in + name + ":\n" + poseText(p, in + "  "); }

/** what an entry of the data set is like */
enum Kind { GOOD, BLANK, BENT, NOIMAGE, NOPOSE };
struct Entry
{
  const Picture* pic;
  Iso pose;
  bool image = true, posed = true;
};
static void writeSet(const std::string& dir, const std::vector<Entry>& v)
{
  fs::create_directories(dir + "/images");
  fs::create_directories(dir + "/poses");
  std::string index = v.empty() ? "[]\n" : "";
  for (size_t i = 0; i < v.size(); ++i)
  {
    std::string n = num(i * 7 % 11);  // the files' names do not follow the order of the set
    index += "- pose: poses/" + n + ".yaml\n  image: images/" + n + ".png\n";
    if (v[i].image)
      put(dir + "/images/" + n + ".png", v[i].pic->png);
    if (v[i].posed)
      put(dir + "/poses/" + n + ".yaml", poseText(v[i].pose));
  }
  put(dir + "/data.yaml", index);
}
static void clean(vf::Ctx& c, const Run& r, const std::string& what)
{
  c.require(r.ended, what, ": the tool was ended by signal ", r.signal, "\n", r.out.size() > 2000 ? r.out.substr(r.out.size() - 2000) : r.out);
}
/** which of the pictures a frame was drawn on */
static int source(const cv::Mat& frame, const std::vector<const Picture*>& v)
{
  int best = -1;
  long least = frame.total() / 3;
  for (size_t i = 0; i < v.size(); ++i)
  {
    if (v[i]->bgr.size() != frame.size() || frame.type() != CV_8UC3)
      continue;
    cv::Mat d, g;
    cv::absdiff(v[i]->bgr, frame, d);
    cv::transform(d, g, cv::Matx13f(1, 1, 1));
    long n = cv::countNonZero(g);
    if (n < least)
      least = n, best = i;
  }
  return best;
}
/** everything drawn on the frame lies at one of the places, and every place is marked */
static void marks(vf::Ctx& c, const cv::Mat& frame, const Picture& p, const std::vector<V2>& places, double radius, const std::string& what)
{
  std::vector<int> hit(places.size());
  for (int y = 0; y < frame.rows; ++y)
    for (int x = 0; x < frame.cols; ++x)
    {
      if (frame.at<cv::Vec3b>(y, x) == p.bgr.at<cv::Vec3b>(y, x))
        continue;
      bool ok = false;
      for (size_t i = 0; i < places.size(); ++i)
        if ((places[i] - V2(x, y)).norm() <= radius)
          ok = true, ++hit[i];
      c.require(ok, what, ": something is drawn at (", x, ",", y, "), where no feature projects to");
    }
  for (size_t i = 0; i < places.size(); ++i)
    c.require(hit[i] > 0, what, ": feature ", i, " is marked at (", places[i][0], ",", places[i][1], ")");
}
static std::vector<V2> projections(const CameraIntrinsics& k, const Iso& cameraToTarget, const std::vector<Corrs>& sets)
{
  std::vector<V2> v;
  for (auto& s : sets)
    for (auto& p : s)
      v.push_back(project(k, xf(cameraToTarget, p.in_target)));
  return v;
}
template <class F>
static bool quietly(F f)
{
  try
  {
    f();
    return true;
  }
  catch (const std::exception&)
  {
    return false;
  }
}
static Iso mul(const Iso& a, const Iso& b) { return make(a.linear() * b.linear(), xf(a, b.translation())); }
static Iso off(const Iso& a, double r, double t) { return mul(a, make(V3(1, 2, -1), deg(r), V3(t, -t, t))); }

// ------------------------------------------------------------------ hand-eye tools
struct HandEye
{
  bool wrist;  // camera on the wrist, or static camera
  Board board;
  Iso mountToCamera, mountToTarget;
  HandEye(bool w, const Board& b) : wrist(w), board(b)
  {
    if (wrist)
    {
      mountToCamera = rpyxyz(0.05, -0.04, 1.5, 0.05, -0.02, 0.1);
      mountToTarget = rpyxyz(0.02, 0.03, -0.4, 0.9, 0.2, -0.1);
    }
    else
    {
      mountToCamera = rpyxyz(-2.0, 0.1, 0.3, 1.2, 0.4, 0.7);
      mountToTarget = rpyxyz(0.1, -0.2, 0.5, 0.05, 0.02, 0.08);
    }
  }
  Iso tool(int i) const
  {
    Iso v = view(board, i);
    return wrist ? mul(mountToTarget, mul(inv(v), inv(mountToCamera))) : mul(mountToCamera, mul(v, inv(mountToTarget)));
  }
  std::string name() const { return wrist ? "camera_on_wrist_extrinsic" : "static_camera_extrinsic"; }
  Iso cameraGuess() const { return off(mountToCamera, 3, 0.01); }
  Iso targetGuess() const { return off(mountToTarget, -3, -0.01); }
  std::string params(const std::string& data, double threshold = 2) const
  {
    return "homography_threshold: " + str(threshold) + "\ndata_path: " + data + "\n" + intrText(cam()) + board.config() + poseParam(wrist ? "wrist_to_camera_guess" : "base_to_camera_guess", cameraGuess()) +
           poseParam(wrist ? "base_to_target_guess" : "wrist_to_target_guess", targetGuess());
  }
};
static const Picture& pooled(const Board& b, int kind, int i, const CameraIntrinsics& k = cam())
{
  static std::map<std::string, Picture> m;
  std::string key = num(b.charuco) + "/" + num(b.rows) + "/" + num(b.cols) + "/" + num(kind) + "/" + num(i) + "/" + str(k.values[0]);
  auto it = m.find(key);
  if (it == m.end())
  {
    cv::Mat g = picture(b, k, view(b, i));
    it = m.emplace(key, kind == BLANK ? blank(b, i) : finish(b, kind == BENT ? bend(g) : g)).first;
  }
  return it->second;
}

/** pictures bent more and less, and how far they may be from a plane */
struct Limit
{
  std::vector<double> bend;
  int keep;  // the number of pictures within the limit
  mutable double threshold = 2;
};
static const Picture& bent(const Board& b, int i, double k)
{
  static std::map<std::pair<int, double>, Picture> m;
  auto it = m.find({ i, k });
  if (it == m.end())
    it = m.emplace(std::make_pair(i, k), finish(b, bend(picture(b, cam(), view(b, i)), k))).first;
  return it->second;
}
/** which of the pictures are within the limit; empty if this depends on the sampling */
static std::vector<bool> within(vf::Ctx& c, const HandEye& h, const Limit& l)
{
  const size_t n = l.bend.size();
  std::vector<double> least(n, 1e9), most(n, 0);
  std::vector<int> order;
  for (size_t i = 0; i < n; ++i)
  {
    auto& pic = bent(h.board, i, l.bend[i]);
    c.require(pic.found, "bent view ", i, " is detected");
    for (unsigned seed = 0; seed < 8; ++seed)
    {
      ro::RandomCorrespondenceSampler sampler(pic.corrs.size(), pic.corrs.size() / 3, seed);
      double e = ro::calculateHomographyError(pic.corrs, sampler).mean();
      least[i] = std::min(least[i], e), most[i] = std::max(most[i], e);
    }
    order.push_back(i);
  }
  std::sort(order.begin(), order.end(), [&](int a, int b) { return least[a] < least[b]; });
  double lo = 0, hi = least[order.back()] + 100;
  for (int k = 0; k < int(n); ++k)
    if (k < l.keep)
      lo = std::max(lo, most[order[k]]);
    else
      hi = std::min(hi, least[order[k]]);
  std::vector<bool> in;
  if (hi < lo * 1.05 + 0.01)
    return in;
  l.threshold = (lo + hi) / 2;
  in.resize(n);
  for (int k = 0; k < l.keep; ++k)
    in[order[k]] = true;
  return in;
}
static void handEye(vf::Ctx& c, const HandEye& h, std::vector<int> kinds, int tail, const Limit* limit = nullptr)
{
  std::vector<bool> in;
  if (limit)
  {
    in = within(c, h, *limit);
    c.outcome(in.empty() ? "limit depends on the sampling" : "limit");
    if (in.empty())
      return c.eval();
    kinds.clear();
    for (bool b : in)
      kinds.push_back(b ? GOOD : BENT);
    tail = 0;
  }
  Scratch t;
  std::vector<Entry> set;
  std::vector<const Picture*> pics, good;
  ro::ExtrinsicHandEyeProblem2D3D p;
  p.intr = cam();
  p.camera_mount_to_camera_guess = h.cameraGuess();
  p.target_mount_to_target_guess = h.targetGuess();
  std::string pattern;
  long warned = 0;
  for (size_t i = 0; i < kinds.size() + tail; ++i)
  {
    int k = i < kinds.size() ? kinds[i] : GOOD;
    pattern += "gbwip"[k];
    const Picture& pic = limit ? bent(h.board, i, limit->bend[i]) : pooled(h.board, k == BLANK || k == BENT ? k : GOOD, i);
    set.push_back({ &pic, h.tool(i), k != NOIMAGE, k != NOPOSE });
    pics.push_back(&pic);
    if (k == GOOD)
    {
      c.require(pic.found, "view ", i, " of the target is detected");
      ro::Observation2D3D o;
      (h.wrist ? o.to_camera_mount : o.to_target_mount) = h.tool(i);
      (h.wrist ? o.to_target_mount : o.to_camera_mount) = Iso::Identity();
      o.correspondence_set = pic.corrs;
      p.observations.push_back(o);
      good.push_back(&pic);
    }
    else
      ++warned;
    if (k == BENT)
      c.require(pic.found, "bent view ", i, " is detected");
  }
  writeSet(t.dir, set);
  ro::ExtrinsicHandEyeResult ref;
  bool solvable = quietly([&] { ref = ro::optimize(p); });
  Run r = runTool(h.name(), h.params(t.dir + "/data.yaml", limit ? limit->threshold : 2), t.dir, true);
  c.eval();
  c.outcome(num(good.size()) + " usable: exit " + num(r.code));
  std::string what = h.name() + " " + pattern;
  clean(c, r, what);
  c.require(r.count("[warn]") >= warned, what, ": ", warned, " entries are left out, each with a warning; got ", r.count("[warn]"));
  if (!solvable)
  {
    c.require(r.code != 0, what, ": the failing calibration is reported");
    c.require(r.count("[error]") > 0, what, ": the failing calibration is reported as an error");
    noResult(c, r, what);
    return;
  }
  if (good.empty())
    return;  // nothing to calibrate with; ending on its own is all that is asked
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  if (good.size() < 3)
    return;  // too few views for a unique answer
  Iso cm = transform(c, r.out, h.wrist ? "WRIST TO CAMERA" : "BASE TO CAMERA"), tg = transform(c, r.out, h.wrist ? "BASE TO TARGET" : "WRIST_TO_TARGET");
  same(c, cm, ref.camera_mount_to_camera, what + ": camera pose");
  same(c, tg, ref.target_mount_to_target, what + ": target pose");
  if (!limit)
  {
    same(c, cm, h.mountToCamera, what + ": true camera pose", 0.02);
    same(c, tg, h.mountToTarget, what + ": true target pose", 0.02);
  }
  // analysis
  Eigen::ArrayXd e = ro::compute3DProjectionError(p.observations, p.intr, ref.camera_mount_to_camera, ref.target_mount_to_target);
  double sd = std::sqrt((e - e.mean()).square().sum() / (e.size() - 1));
  sameNumbers(c, numbers(after(c, r.out, "\tMean +/- Std. Dev. (m):")), { e.mean(), sd }, what + ": 3D error", 2e-5, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "\tMin (m):")), { e.minCoeff() }, what + ": least 3D error", 2e-5, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "\tMax (m):")), { e.maxCoeff() }, what + ": greatest 3D error", 2e-5, 1e-9);
  double pos = 0, ang = 0;
  std::vector<Iso> ct;
  for (auto& o : p.observations)
  {
    ro::PnPProblem q;
    q.intr = p.intr;
    q.correspondences = o.correspondence_set;
    q.camera_to_target_guess = mul(inv(ref.camera_mount_to_camera), mul(inv(o.to_camera_mount), mul(o.to_target_mount, ref.target_mount_to_target)));
    ct.push_back(q.camera_to_target_guess);
    Iso s = ro::optimize(q).camera_to_target;
    pos += (s.translation() - q.camera_to_target_guess.translation()).norm() / p.observations.size();
    Eigen::Matrix3d d = q.camera_to_target_guess.linear().transpose() * s.linear();
    ang += std::atan2(V3(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)).norm(), d.trace() - 1) * 180 / PI / p.observations.size();
  }
  sameNumbers(c, numbers(after(c, r.out, "\tMean (m):")), { pos }, what + ": mean position difference", 1e-3, 1e-7);
  sameNumbers(c, numbers(after(c, r.out, "\tMean (deg):")), { ang }, what + ": mean angular difference", 1e-3, 1e-5);
  // the windows: the last ones show the reprojections on the pictures they belong to
  c.require(r.frames.size() >= good.size(), what, ": reprojections are shown");
  for (size_t i = 0; i < good.size(); ++i)
  {
    auto& f = r.frames[r.frames.size() - good.size() + i];
    c.require(source(f.image, good) == (int)i, what, ": reprojections of view ", i, " are shown on their own picture");
    marks(c, f.image, *good[i], projections(p.intr, ct[i], { p.observations[i].correspondence_set }), 6, what + ": view " + num(i));
  }
}

// ------------------------------------------------------------------ several static cameras
struct Multi
{
  Board board = circles();
  int n;
  std::vector<Iso> cameras;
  Iso wristToTarget = rpyxyz(0.1, -0.2, 0.5, 0.05, 0.02, 0.08);
  Multi(int k) : n(k)
  {
    cameras.push_back(rpyxyz(-2.0, 0.1, 0.3, 1.2, 0.4, 0.7));
    cameras.push_back(mul(cameras[0], make(V3(0.1, 1, 0), deg(-14), V3(0.1, 0.01, 0.02))));
    cameras.push_back(mul(cameras[0], make(V3(1, 0.2, 0), deg(12), V3(-0.01, 0.09, 0.0))));
    cameras.resize(n);
  }
  Iso tool(int i) const { return mul(cameras[0], mul(view(board, i), inv(wristToTarget))); }
  Iso inCamera(int c, int i) const { return mul(inv(cameras[c]), mul(tool(i), wristToTarget)); }
  Iso cameraGuess(int c) const { return c ? off(cameras[c], 2 - c, 0.01) : cameras[0]; }
  Iso targetGuess() const { return off(wristToTarget, -3, 0.01); }
  const Picture& pic(int c, int kind, int i) const
  {
    static std::map<std::array<int, 3>, Picture> m;
    auto it = m.find({ c, kind, i });
    if (it == m.end())
      it = m.emplace(std::array<int, 3>{ c, kind, i }, kind == BLANK ? blank(board, i + 4 * c) : finish(board, picture(board, camC(c), inCamera(c, i)))).first;
    return it->second;
  }
  std::string params(const std::string& dir, const std::string& cameraParam, bool fix) const
  {
    std::string s = "num_of_cameras: " + num(n) + "\nfix_first_camera: " + (fix ? "true" : "false") + "\n" + board.config() + poseParam("wrist_to_target_guess", targetGuess());
    for (int c = 0; c < n; ++c)
      s += "camera_" + num(c) + ":\n  data_path: " + dir + "/c" + num(c) + "/data.yaml\n" + intrText(camC(c), "  ") + poseParam(cameraParam, cameraGuess(c), "  ");
    return s;
  }
};
struct Pattern
{
  std::vector<std::vector<int>> kind;  // [camera][image]
  std::string text;
};
static Pattern pattern(int cameras, int images, int tail, long code)
{
  Pattern p;
  p.kind.assign(cameras, std::vector<int>(images + tail, GOOD));
  for (int c = 0; c < cameras; ++c)
  {
    for (int i = 0; i < images; ++i, code /= 2)
      p.kind[c][i] = code % 2 ? BLANK : GOOD;
    for (int k : p.kind[c])
      p.text += "gb"[k];
    p.text += " ";
  }
  return p;
}
static void writeSets(vf::Ctx& c, const Multi& m, const Pattern& p, const std::string& dir)
{
  for (int k = 0; k < m.n; ++k)
  {
    std::vector<Entry> v;
    for (size_t i = 0; i < p.kind[k].size(); ++i)
    {
      auto& pic = m.pic(k, p.kind[k][i], i);
      c.require(pic.found == (p.kind[k][i] == GOOD), "view ", i, " of camera ", k, " is detected exactly if the target is in it");
      v.push_back({ &pic, m.tool(i) });
    }
    writeSet(dir + "/c" + num(k), v);
  }
}
/** a printed reprojection block and its two frames */
static void reprojection(vf::Ctx& c, const Run& r, int nth, const std::vector<int>& used, const Multi& m, const std::vector<Iso>& cams, const Iso& guess, int image, const std::string& what, const char* diff)
{
  ro::MultiCameraPnPProblem p;
  p.base_to_target_guess = guess;
  for (int k : used)
  {
    p.base_to_camera.push_back(cams[k]);
    p.intr.push_back(camC(k));
    p.image_observations.push_back(m.pic(k, GOOD, image).corrs);
  }
  auto ref = ro::optimize(p);
  auto blockAt = [&](int k) {
    size_t a = 0;
    for (int i = 0; i <= k; ++i)
    {
      a = r.out.find("REPROJECT IMAGE", a + (i ? 1 : 0));
      if (a == std::string::npos)
        return a;
    }
    return a;
  };
  size_t a = blockAt(nth), b = blockAt(nth + 1);
  c.require(a != std::string::npos, what, ": reprojection ", nth, " is reported");
  std::string text = r.out.substr(a, b == std::string::npos ? b : b - a);
  optResults(c, text, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what + ": reprojection " + num(nth));
  // the multi-camera PnP shows the poses in the base frame, the others in the frame of the first camera
  Iso given = std::string(diff) == "PNP Diff" ? guess : mul(inv(cams[used[0]]), guess), found = std::string(diff) == "PNP Diff" ? ref.base_to_target : mul(inv(cams[used[0]]), ref.base_to_target);
  same(c, transform(c, text, std::string(diff) == "PNP Diff" ? "BASE TO TARGET" : "CAMERA 0 TO TARGET"), given, what + ": reprojection " + num(nth) + ": given pose");
  if (std::string(diff) != "PNP")
    same(c, transform(c, text, "PNP"), found, what + ": reprojection " + num(nth) + ": pose found");
  difference(c, text, diff, given, found, what + ": reprojection " + num(nth));
  std::vector<const Frame*> before, after;
  for (auto& f : r.frames)
    if (f.window == "repr_before" || f.window == "repr_after")
      (f.window == "repr_before" ? before : after).push_back(&f);
  c.require((int)before.size() > nth && before.size() == after.size(), what, ": reprojection ", nth, " is shown");
  std::vector<const Picture*> all;
  size_t images = 0;
  std::vector<int> id;
  for (int k = 0; k < m.n; ++k)
    for (int i = 0; i < 8; ++i)
    {
      all.push_back(&m.pic(k, GOOD, i));
      id.push_back(k * 8 + i);
    }
  (void)images;
  const Picture& own = m.pic(used[0], GOOD, image);
  for (auto* f : { before[nth], after[nth] })
  {
    int s = source(f->image, all);
    c.require(s >= 0 && id[s] == used[0] * 8 + image, what, ": reprojection ", nth, " of image ", image, " is shown on the picture of camera ", s < 0 ? -1 : id[s] / 8, ", image ", s < 0 ? -1 : id[s] % 8);
  }
  Iso c0 = mul(inv(cams[used[0]]), guess), c1 = mul(inv(cams[used[0]]), ref.base_to_target);
  marks(c, before[nth]->image, own, projections(camC(used[0]), c0, p.image_observations), 6, what + ": reprojection before");
  marks(c, after[nth]->image, own, projections(camC(used[0]), c1, p.image_observations), 6, what + ": reprojection after");
}
/** the printing functions by themselves, with poses that the data sets do not give */
static void printed(vf::Ctx& c, int i)
{
  auto capture = [](const std::function<void()>& f) {
    std::stringstream text;
    auto* keep = std::cout.rdbuf(text.rdbuf());
    f();
    std::cout.rdbuf(keep);
    return text.str();
  };
  std::vector<Iso> poses;
  for (auto axis : { V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, -2, 0.5) })
    for (double a : { 0.0, 0.004, -1.1, 2.3, 3.1 })
      for (auto& t : { V3(0, 0, 0), V3(0.5, -1.25, 20), V3(-0.0003, 0, 0.002) })
        poses.push_back(make(axis, a, t));
  for (size_t k = i; k < poses.size(); k += 12)
  {
    c.eval();
    std::string w = "printed pose " + num(k);
    same(c, transform(c, capture([&] { rct_common::printTransform(poses[k], "A", "B", "A TO B"); }), "A TO B"), poses[k], w);
    for (size_t j = 0; j < poses.size(); ++j)
      difference(c, capture([&] { rct_common::printTransformDiff(poses[k], poses[j], "A", "B", "DIFF"); }), "DIFF", poses[k], poses[j], w + " and " + num(j));
    for (bool ok : { true, false })
      for (double x : { 0.0, 1e-12, 0.25, 9e6 })
        for (double y : { 0.0, 4e-8, 0.36, 1e10 })
          optResults(c, capture([&] { rct_common::printOptResults(ok, x, y); }), 0, ok, x, y, "printed results " + num(ok) + " " + str(x) + " " + str(y));
  }
  c.outcome("printed");
}
static long shown(const Run& r)
{
  long n = 0;
  for (auto& f : r.frames)
    n += f.window == "repr_before";
  return n;
}

static void announced(vf::Ctx& c, const Run& r, const Pattern& p, const std::string& what)
{
  long n = 0;
  for (auto& k : p.kind)
    for (int i : k)
      n += i != GOOD;
  c.require(r.count("[warn]") + r.count("[error]") >= n, what, ": ", n, " images without target, each is announced; got ", r.count("[warn]") + r.count("[error]"));
}

static void multiStatic(vf::Ctx& c, const Multi& m, const Pattern& p)
{
  Scratch t;
  writeSets(c, m, p, t.dir);
  const int I = p.kind[0].size();
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem q;
  q.wrist_to_target_guess = m.targetGuess();
  q.wrist_poses.resize(m.n), q.image_observations.resize(m.n);
  for (int k = 0; k < m.n; ++k)
  {
    q.intr.push_back(camC(k));
    q.base_to_camera_guess.push_back(m.cameraGuess(k));
    for (int i = 0; i < I; ++i)
      if (p.kind[k][i] == GOOD)
      {
        q.wrist_poses[k].push_back(m.tool(i));
        q.image_observations[k].push_back(m.pic(k, GOOD, i).corrs);
      }
  }
  ro::ExtrinsicMultiStaticCameraMovingTargetResult ref;
  bool solvable = quietly([&] { ref = ro::optimize(q); }), any = false;
  for (auto& w : q.wrist_poses)
    any = any || !w.empty();
  Run r = runTool("multi_static_camera_extrinsic", m.params(t.dir, "base_to_camera_guess", false), t.dir, true);
  c.eval();
  c.outcome("multi_static exit " + num(r.code));
  std::string what = "multi_static_camera_extrinsic " + p.text;
  clean(c, r, what);
  announced(c, r, p, what);
  if (!solvable || !any)
  {
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported, exit code ", r.code, "\n", r.out);
    noResult(c, r, what);
    return;
  }
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  same(c, transform(c, r.out, "WRIST TO TARGET"), ref.wrist_to_target, what + ": target pose");
  same(c, ref.wrist_to_target, m.wristToTarget, what + ": true target pose", 0.02);
  for (int k = 0; k < m.n; ++k)
  {
    same(c, transform(c, r.out, "BASE TO CAMERA (camera_" + num(k) + ")"), ref.base_to_camera[k], what + ": camera " + num(k));
    same(c, transform(c, r.out, "CAMERA 0 TO CAMERA (camera_" + num(k) + ")"), mul(inv(ref.base_to_camera[0]), ref.base_to_camera[k]), what + ": relative camera " + num(k));
    same(c, ref.base_to_camera[k], m.cameras[k], what + ": true camera pose", 0.02);
  }
  int n = 0;
  for (int i = 0; i < I; ++i)
  {
    std::vector<int> used;
    for (int k = 0; k < m.n; ++k)
      if (p.kind[k][i] == GOOD)
        used.push_back(k);
    if (used.size() >= 2)
      reprojection(c, r, n++, used, m, ref.base_to_camera, mul(m.tool(i), ref.wrist_to_target), i, what, "PNP DIFF");
  }
  c.near(shown(r), n, 0, what, ": number of reprojections");
}
static std::string text(const std::vector<int>& v, const char* letters);
/** cameras whose data sets were taken at different places of the robot, in any order */
static void ownPoses(vf::Ctx& c, const Multi& m, const std::vector<std::vector<int>>& places)
{
  Scratch t;
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem q;
  q.wrist_to_target_guess = m.targetGuess();
  q.wrist_poses.resize(m.n), q.image_observations.resize(m.n);
  std::string what = "multi_static_camera_extrinsic with places";
  for (int k = 0; k < m.n; ++k)
  {
    q.intr.push_back(camC(k));
    q.base_to_camera_guess.push_back(m.cameraGuess(k));
    std::vector<Entry> v;
    what += " " + text(places[k], "01234567");
    for (int i : places[k])
    {
      auto& pic = m.pic(k, GOOD, i);
      c.require(pic.found, "view ", i, " of camera ", k, " is detected");
      v.push_back({ &pic, m.tool(i) });
      q.wrist_poses[k].push_back(m.tool(i));
      q.image_observations[k].push_back(pic.corrs);
    }
    writeSet(t.dir + "/c" + num(k), v);
  }
  auto ref = ro::optimize(q);
  Run r = runTool("multi_static_camera_extrinsic", m.params(t.dir, "base_to_camera_guess", false), t.dir, true);
  c.eval();
  clean(c, r, what);
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  same(c, transform(c, r.out, "WRIST TO TARGET"), ref.wrist_to_target, what + ": target pose");
  same(c, ref.wrist_to_target, m.wristToTarget, what + ": true target pose", 0.02);
  for (int k = 0; k < m.n; ++k)
  {
    same(c, transform(c, r.out, "BASE TO CAMERA (camera_" + num(k) + ")"), ref.base_to_camera[k], what + ": camera " + num(k));
    same(c, ref.base_to_camera[k], m.cameras[k], what + ": true camera pose", 0.02);
  }
}
static void multiStep(vf::Ctx& c, const Multi& m, const Pattern& p, bool fix)
{
  Scratch t;
  writeSets(c, m, p, t.dir);
  const int I = p.kind[0].size();
  std::vector<int> all, cams;
  for (int k = 0; k < m.n; ++k)
    cams.push_back(k);
  ro::ExtrinsicMultiStaticCameraOnlyProblem q;
  ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem w;
  q.fix_first_camera = fix;
  q.image_observations.resize(m.n);
  for (int k = 0; k < m.n; ++k)
  {
    q.intr.push_back(camC(k));
    q.base_to_camera_guess.push_back(m.cameraGuess(k));
  }
  for (int i = 0; i < I; ++i)
  {
    int seen = 0;
    for (int k = 0; k < m.n; ++k)
      seen += p.kind[k][i] == GOOD;
    if (seen < m.n)
      continue;
    all.push_back(i);
    q.base_to_target_guess.push_back(mul(m.tool(i), m.targetGuess()));
    w.wrist_poses.push_back(m.tool(i));
    for (int k = 0; k < m.n; ++k)
      q.image_observations[k].push_back(m.pic(k, GOOD, i).corrs);
  }
  ro::ExtrinsicMultiStaticCameraOnlyResult ref;
  ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult ref2;
  bool solvable = quietly([&] { ref = ro::optimize(q); });
  w.intr = q.intr;
  w.wrist_to_target_guess = m.targetGuess();
  w.image_observations = q.image_observations;
  w.base_to_camera_guess = ref.base_to_camera;
  solvable = solvable && quietly([&] { ref2 = ro::optimize(w); });
  Run r = runTool("multi_static_camera_multi_step_extrinsic", m.params(t.dir, "base_to_camera_guess", fix), t.dir, true);
  c.eval();
  c.outcome("multi_step exit " + num(r.code));
  std::string what = "multi_static_camera_multi_step_extrinsic " + p.text + (fix ? "first camera fixed" : "");
  clean(c, r, what);
  announced(c, r, p, what);
  if (!solvable || all.empty())
  {
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported, exit code ", r.code, "\n", r.out);
    c.require(r.count("Wrist to Target") == 0, what, ": no result is shown after a failure");
    if (all.empty())
      noResult(c, r, what);
    return;
  }
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what + ": cameras");
  optResults(c, r.out, 1, ref2.converged, ref2.initial_cost_per_obs, ref2.final_cost_per_obs, what + ": wrist");
  for (int step = 0; step < 2; ++step)
    for (int k = 0; k < m.n; ++k)
    {
      auto& b = step ? ref2.base_to_camera : ref.base_to_camera;
      same(c, transform(c, r.out, "Base To Camera (camera_" + num(k) + ")", step), b[k], what + ": camera " + num(k), 1e-4);
      same(c, transform(c, r.out, "Camera 0 to Camera " + num(k), step), mul(inv(b[0]), b[k]), what + ": relative camera " + num(k), 1e-4);
    }
  same(c, transform(c, r.out, "Wrist to Target"), ref2.wrist_to_target, what + ": target pose", 1e-4);
  for (size_t n = 0; n < all.size(); ++n)
    reprojection(c, r, n, cams, m, ref2.base_to_camera, mul(m.tool(all[n]), ref2.wrist_to_target), all[n], what, "PNP");
  c.near(shown(r), all.size(), 0, what, ": number of reprojections");
}
static void multiPnp(vf::Ctx& c, const Multi& m, const Pattern& p)
{
  Scratch t;
  std::vector<int> cams;
  // here the poses of the set are guesses of the target's pose
  for (int k = 0; k < m.n; ++k)
  {
    cams.push_back(k);
    std::vector<Entry> v;
    for (size_t i = 0; i < p.kind[k].size(); ++i)
      v.push_back({ &m.pic(k, p.kind[k][i], i), off(mul(m.tool(i), m.wristToTarget), 2, 0.004 * (i + 1)) });
    writeSet(t.dir + "/c" + num(k), v);
  }
  std::string params = m.params(t.dir, "base_to_camera", false);
  Run r = runTool("solve_multi_camera_pnp", params, t.dir, true);
  c.eval();
  c.outcome("multi_pnp exit " + num(r.code));
  std::string what = "solve_multi_camera_pnp " + p.text;
  clean(c, r, what);
  announced(c, r, p, what);
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  std::vector<Iso> poses;
  for (int k = 0; k < m.n; ++k)
    poses.push_back(m.cameraGuess(k));
  int n = 0;
  for (size_t i = 0; i < p.kind[0].size(); ++i)
  {
    bool everywhere = true;
    for (int k = 0; k < m.n; ++k)
      everywhere = everywhere && p.kind[k][i] == GOOD;
    if (!everywhere)
      continue;
    Iso guess = off(mul(m.tool(i), m.wristToTarget), 2, 0.004 * (i + 1));
    same(c, transform(c, r.out, "BASE TO TARGET", n), guess, what + ": guess of image " + num(i));
    ro::MultiCameraPnPProblem q;
    q.base_to_target_guess = guess;
    q.base_to_camera = poses;
    for (int k = 0; k < m.n; ++k)
    {
      q.intr.push_back(camC(k));
      q.image_observations.push_back(m.pic(k, GOOD, i).corrs);
    }
    same(c, transform(c, r.out, "PNP", n), ro::optimize(q).base_to_target, what + ": pose of image " + num(i));
    reprojection(c, r, n++, cams, m, poses, guess, i, what, "PNP Diff");
  }
  c.near(shown(r), n, 0, what, ": number of reprojections");
}

// ------------------------------------------------------------------ the rest
static void noise(vf::Ctx& c, const std::vector<int>& seq)
{
  const Board b = circles();
  static std::map<int, Picture> m;
  for (int v = 0; v < 4; ++v)
    if (!m.count(v))
      m[v] = v == 3 ? blank(b, 0) : finish(b, picture(b, cam(), off(view(b, 0), 0.4 * v, 0.002 * v)));
  Scratch t;
  std::string index = seq.empty() ? "[]\n" : "";
  std::vector<ro::PnPProblem> p;
  std::string text;
  Iso guess = off(view(b, 0), 3, 0.01);
  for (size_t i = 0; i < seq.size(); ++i)
  {
    text += "012bnc"[seq[i]];
    if (seq[i] == 5)
      put(t.dir + "/img" + num(i) + ".png", m[0].png.substr(0, 40));
    else if (seq[i] < 4)
      put(t.dir + "/img" + num(i) + ".png", m[seq[i]].png);
    index += "- image: img" + num(i) + ".png\n";
    if (seq[i] > 2)
      continue;
    c.require(m[seq[i]].found, "target is detected");
    ro::PnPProblem q;
    q.intr = cam();
    q.camera_to_target_guess = guess;
    q.correspondences = m[seq[i]].corrs;
    p.push_back(q);
  }
  put(t.dir + "/index.yaml", index);
  ro::PnPNoiseStat ref;
  bool ok = quietly([&] { ref = ro::qualifyNoise2D(p); });
  Run r = runTool("noise_qualification_2d", "data_path: " + t.dir + "\ndata_file: " + t.dir + "/index.yaml\n" + b.config() + intrText(cam()) + poseParam("camera_to_target_guess", guess), t.dir);
  c.eval();
  c.outcome("noise " + num(p.size()) + " usable: exit " + num(r.code));
  std::string what = "noise_qualification_2d " + text;
  clean(c, r, what);
  c.require(r.count("[warn]") >= (long)(seq.size() - p.size()), what, ": unusable images are reported");
  if (!ok || p.empty())
  {
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported");
    noResult(c, r, what);
    return;
  }
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  auto vec = [](const auto& v) { return std::vector<double>(v.data(), v.data() + v.size()); };
  sameNumbers(c, numbers(after(c, r.out, "[info] Position mean (m)\n")), vec(ref.p_stat.mean), what + ": position mean", 2e-3, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "[info] Position standard deviation (m)\n")), vec(ref.p_stat.stdev), what + ": position deviation", 2e-3, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "[info] Quaternion mean (qx, qy, qz, qw)\n")), vec(ref.q_stat.mean.coeffs()), what + ": mean orientation", 2e-3, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "[info] Quaternion standard deviation\n")), { ref.q_stat.stdev }, what + ": orientation deviation", 2e-3, 1e-7);
  if (std::set<int>(seq.begin(), seq.end()).count(1) && std::set<int>(seq.begin(), seq.end()).count(2))
    c.require(ref.p_stat.stdev.norm() > 1e-4, what, ": different images spread");
}
static void intrinsic(vf::Ctx& c, const std::vector<int>& kinds, int tail)
{
  const Board b = circles();
  Scratch t;
  CameraIntrinsics guess = intr(530, 560, 325, 236);
  std::vector<Entry> set;
  ro::IntrinsicEstimationProblem p;
  p.intrinsics_guess = guess;
  std::string text;
  long warned = 0;
  for (size_t i = 0; i < kinds.size() + tail; ++i)
  {
    int k = i < kinds.size() ? kinds[i] : GOOD;
    text += "gbwip"[k];
    const Picture& pic = pooled(b, k == BLANK ? k : GOOD, i);
    set.push_back({ &pic, Iso::Identity(), k != NOIMAGE, k != NOPOSE });
    if (k == GOOD)
      p.image_observations.push_back(pic.corrs);
    else
      ++warned;
  }
  writeSet(t.dir, set);
  ro::IntrinsicEstimationResult ref;
  bool ok = quietly([&] { ref = ro::optimize(p); });
  Run r = runTool("intrinsic_calibration", "data_path: " + t.dir + "/data.yaml\n" + b.config() + intrText(guess), t.dir);
  c.eval();
  c.outcome("intrinsic: exit " + num(r.code));
  std::string what = "intrinsic_calibration " + text;
  clean(c, r, what);
  c.require(r.count("[warn]") >= warned, what, ": unusable images are reported");
  if (p.image_observations.empty() || !ok)
  {
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported");
    noResult(c, r, what);
    return;
  }
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  if (p.image_observations.size() < 3)
    return;
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  // the digits after the equals signs
  auto values = [&](const std::string& head, const std::vector<std::string>& names) {
    std::string s = after(c, r.out, head);
    std::vector<double> v;
    for (auto& n : names)
    {
      size_t a = s.find(n + " = ");
      c.require(a != std::string::npos, head, " shows ", n);
      v.push_back(atof(s.c_str() + a + n.size() + 3));
    }
    return v;
  };
  auto k = values("RCT Intrinsics:", { "fx", "fy", "cx", "cy" });
  sameNumbers(c, k, std::vector<double>(ref.intrinsics.values.begin(), ref.intrinsics.values.end()), what + ": intrinsics", 1e-4, 0);
  sameNumbers(c, values("RCT Distortion:", { "k1", "k2", "p1", "p2", "k3" }), std::vector<double>(ref.distortions.begin(), ref.distortions.end()), what + ": distortion", 1e-2, 1e-4);
  for (int i = 0; i < 4; ++i)
    c.near(k[i], cam().values[i], 15, what, ": true intrinsics ", i);
}
static void validation(vf::Ctx& c, const HandEye& h, const std::vector<int>& kinds, int tail, double scale)
{
  Scratch t;
  std::vector<Entry> set;
  ro::Observation2D3D::Set obs;
  std::string text;
  CameraIntrinsics k = intr(550 * scale, 550 * scale, 320, 240);
  long warned = 0;
  for (size_t i = 0; i < kinds.size() + tail; ++i)
  {
    int q = i < kinds.size() ? kinds[i] : GOOD;
    text += "gbwip"[q];
    const Picture& pic = pooled(h.board, q == BLANK ? q : GOOD, i);
    set.push_back({ &pic, h.tool(i), q != NOIMAGE, q != NOPOSE });
    if (q != GOOD)
    {
      ++warned;
      continue;
    }
    ro::Observation2D3D o;
    o.to_camera_mount = h.tool(i);
    o.to_target_mount = Iso::Identity();
    o.correspondence_set = pic.corrs;
    obs.push_back(o);
  }
  writeSet(t.dir, set);
  ro::IntrinsicCalibrationAccuracyResult ref;
  bool ok = quietly([&] { ref = ro::measureIntrinsicCalibrationAccuracy(obs, k, h.cameraGuess(), h.targetGuess(), Iso::Identity(), 1.0); });
  Run r = runTool("camera_intrinsic_calibration_validation",
                  "data_path: " + t.dir + "/data.yaml\n" + h.board.config() + intrText(k) + poseParam("wrist_to_camera_guess", h.cameraGuess()) + poseParam("base_to_target_guess", h.targetGuess()), t.dir);
  c.eval();
  std::string what = "camera_intrinsic_calibration_validation " + text + " focal length x " + str(scale);
  clean(c, r, what);
  c.require(r.count("[warn]") >= warned, what, ": unusable images are reported");
  if (!ok)
  {
    c.outcome("validation failed");
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported");
    noResult(c, r, what);
    return;
  }
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  if (obs.empty())
    return;
  bool valid = ref.pos_error.first + 2 * ref.pos_error.second <= 1e-3 && ref.ang_error.first + 2 * ref.ang_error.second <= 0.05 * PI / 180;
  c.outcome(valid ? "validation: valid" : "validation: out of tolerance");
  sameNumbers(c, numbers(after(c, r.out, "Mean (m):")), { ref.pos_error.first, ref.pos_error.second }, what + ": positional error", 1e-3, 1e-9);
  sameNumbers(c, numbers(after(c, r.out, "Mean (rad):")), { ref.ang_error.first, ref.ang_error.second }, what + ": angular error", 1e-3, 1e-9);
  c.require((r.count("is valid!") > 0) == valid, what, ": verdict ", valid ? "valid" : "not within tolerance");
  c.require((r.count("not within tolerance") > 0) == !valid, what, ": warning");
}
static void pnp(vf::Ctx& c, const Board& b, int i, int kind)
{
  Scratch t;
  const Picture& pic = pooled(b, kind, i);
  put(t.dir + "/image.png", pic.png);
  Run r = runTool("solve_pnp", "image_path: " + t.dir + "/" + (kind == NOIMAGE ? "no.png" : "image.png") + "\n" + b.config() + intrText(cam()), t.dir);
  c.eval();
  std::string what = "solve_pnp view " + num(i) + " kind " + num(kind);
  clean(c, r, what);
  c.outcome("pnp exit " + num(r.code));
  if (kind != GOOD)
  {
    c.require(r.code != 0 && r.count("[error]") > 0, what, ": failure is reported");
    noResult(c, r, what);
    return;
  }
  c.require(pic.found, "view is detected");
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  ro::PnPProblem p;
  p.intr = cam();
  p.correspondences = pic.corrs;
  p.camera_to_target_guess = make(V3(1, 0, 0), PI, V3(0, 0, 0.1));
  auto ref = ro::optimize(p);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  Iso g = transform(c, r.out, "RCT CAMERA TO TARGET");
  same(c, g, ref.camera_to_target, what);
  if (!b.charuco)  // (from the fixed guess the upside-down board is out of reach)
    same(c, g, view(b, i), what + ": true pose", 0.03);
  same(c, transform(c, r.out, "OpenCV solvePNP"), view(b, i), what + ": OpenCV's pose", 0.03);
}
static void example(vf::Ctx& c, const std::vector<int>& kinds, int tail)
{
  Board b;
  b.rows = b.cols = 10, b.s = 0.0254;
  CameraIntrinsics k = intr(510, 510, 320.2, 208.9);
  Eigen::Matrix3d R;
  R << 0, 1, 0, -1, 0, 0, 0, 0, 1;
  Iso w2c = off(make(R, V3(0.015, 0, 0.15)), 2, 0.01), b2t = off(make(R, V3(1, 0, 0)), -2, 0.01);
  Scratch t;
  std::vector<Entry> set;
  ro::ExtrinsicHandEyeProblem2D3D p;
  p.intr = k;
  p.camera_mount_to_camera_guess = make(R, V3(0.015, 0, 0.15));
  p.target_mount_to_target_guess = make(R, V3(1, 0, 0));
  static std::map<int, Picture> m;
  std::string text;
  for (size_t i = 0; i < kinds.size() + tail; ++i)
  {
    int q = i < kinds.size() ? kinds[i] : GOOD;
    text += "gbwip"[q];
    int key = i + 10 * (q == BLANK);
    Iso v = mul(make(Eigen::Matrix3d::Identity(), V3(0, 0.02, 0.15)), view(b, i));
    if (!m.count(key))
      m[key] = q == BLANK ? blank(b, i) : finish(b, picture(b, k, v), std::make_shared<rct_image_tools::ModifiedCircleGridTargetFinder>(rct_image_tools::ModifiedCircleGridTarget(b.rows, b.cols, b.s)));
    Iso tool = mul(b2t, mul(inv(v), inv(w2c)));
    set.push_back({ &m[key], tool, q != NOIMAGE, q != NOPOSE });
    if (q != GOOD)
      continue;
    c.require(m[key].found, "view ", i, " is detected");
    ro::Observation2D3D o;
    o.to_camera_mount = tool;
    o.to_target_mount = Iso::Identity();
    o.correspondence_set = m[key].corrs;
    p.observations.push_back(o);
  }
  std::string dir = t.dir + "/rct_examples/data/test_set_10x10";
  writeSet(dir, set);
  fs::rename(dir + "/data.yaml", dir + "/cal_data.yaml");
  auto ref = ro::optimize(p);
  Run r = runTool("camera_on_wrist", "{}\n", t.dir);
  c.eval();
  std::string what = "camera_on_wrist example " + text;
  clean(c, r, what);
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  optResults(c, r.out, 0, ref.converged, ref.initial_cost_per_obs, ref.final_cost_per_obs, what);
  Iso a = transform(c, r.out, "WRIST TO CAMERA"), d = transform(c, r.out, "BASE TO TARGET");
  same(c, a, ref.camera_mount_to_camera, what + ": camera pose");
  same(c, d, ref.target_mount_to_target, what + ": target pose");
  same(c, a, w2c, what + ": true camera pose", 0.02);
  same(c, d, b2t, what + ": true target pose", 0.02);
}
/** every parameter in turn is missing, or leads nowhere */
static void incomplete(vf::Ctx& c, const std::string& tool, const std::string& params, const std::string& dir, const std::vector<std::string>& needed)
{
  auto strip = [&](const YAML::Node& root, const std::string& path) {
    YAML::Node n = YAML::Clone(root);
    size_t s = path.find('/');
    if (s == std::string::npos)
      n.remove(path);
    else
    {
      YAML::Node in = n[path.substr(0, s)];
      size_t s2 = path.find('/', s + 1);
      if (s2 == std::string::npos)
        in.remove(path.substr(s + 1));
      else
      {
        YAML::Node in2 = in[path.substr(s + 1, s2 - s - 1)];
        in2.remove(path.substr(s2 + 1));
      }
    }
    return n;
  };
  auto emit = [&](const YAML::Node& n) {
    std::stringstream s;
    s << n;
    return s.str() + "\n";
  };
  YAML::Node root = YAML::Load(params);
  for (auto& k : needed)
  {
    Run r = runTool(tool, emit(strip(root, k)), dir);
    c.eval();
    clean(c, r, tool + " without " + k);
    c.outcome("without a parameter: exit " + num(r.code));
    c.require(r.code != 0 && r.count("[error]") > 0, tool, " without parameter ", k, ": failure is reported, exit code ", r.code);
    noResult(c, r, tool + " without parameter " + k);
    if (k.find("path") == std::string::npos && k.find("data_file") == std::string::npos)
      continue;
    for (std::string content : { "", "*", "a: [\n", "just text\n" })
    {
      std::string bad = dir + "/bad.yaml";
      if (content != "*")
        put(bad, content);
      YAML::Node n = YAML::Clone(root);
      std::string to = content == "*" ? dir + "/no/such.yaml" : bad;
      size_t s = k.find('/');
      if (s == std::string::npos)
        n[k] = to;
      else
      {
        YAML::Node in = n[k.substr(0, s)];
        in[k.substr(s + 1)] = to;
      }
      Run q = runTool(tool, emit(n), dir);
      c.eval();
      clean(c, q, tool + " with " + k + (content == "*" ? " of a missing file" : " of a file with '" + content + "'"));
      // (a file without any entries may count as an empty list)
      if (content == "*" || content == "a: [\n")
        c.require(q.code != 0 && q.count("[error]") > 0, tool, " with ", k, " of a ", content == "*" ? "missing" : "broken", " file: failure is reported, exit code ", q.code);
    }
  }
}

static std::vector<std::vector<int>> words(const std::vector<int>& alphabet, int n)
{
  std::vector<std::vector<int>> v = { {} };
  for (int i = 0; i < n; ++i)
  {
    std::vector<std::vector<int>> w;
    for (auto& x : v)
      for (int a : alphabet)
      {
        auto y = x;
        y.push_back(a);
        w.push_back(y);
      }
    v = w;
  }
  return v;
}
static std::string text(const std::vector<int>& v, const char* letters = "gbwip")
{
  std::string s;
  for (int i : v)
    s += letters[i];
  return s;
}

// ------------------------------------------------------------------ the launch files and data that come with the tools
struct Launch
{
  std::string source;  // program
  YAML::Node params{ YAML::NodeType::Map };
};
static std::string repoFile(const std::string& f) { return std::string(REPO_DIR) + "/" + f; }
/** what roslaunch makes of a launch file */
static Launch launch(vf::Ctx& c, const std::string& file, const std::map<std::string, std::string>& given)
{
  namespace pt = boost::property_tree;
  pt::ptree tree;
  pt::read_xml(repoFile(file), tree);
  std::map<std::string, std::string> args;
  auto value = [&](std::string v) {
    for (size_t a; (a = v.find("$(")) != std::string::npos;)
    {
      size_t e = v.find(')', a), sp = v.find(' ', a);
      c.require(e != std::string::npos && sp < e, file, ": '", v, "'");
      std::string verb = v.substr(a + 2, sp - a - 2), arg = v.substr(sp + 1, e - sp - 1);
      if (verb == "find")
      {
        c.require(fs::exists(repoFile(arg + "/package.xml")), file, ": package ", arg, " exists");
        v.replace(a, e - a + 1, repoFile(arg));
      }
      else
      {
        c.require(verb == "arg" && args.count(arg), file, ": argument ", arg, " is declared");
        v.replace(a, e - a + 1, args[arg]);
      }
    }
    return v;
  };
  Launch l;
  int nodes = 0;
  for (auto& x : tree.get_child("launch"))
  {
    if (x.first == "arg")
    {
      std::string n = x.second.get<std::string>("<xmlattr>.name");
      auto d = x.second.get_optional<std::string>("<xmlattr>.default");
      c.require(given.count(n) || d, file, ": argument ", n, " has a value");
      args[n] = given.count(n) ? given.at(n) : value(*d);
    }
    if (x.first != "node")
      continue;
    ++nodes;
    std::string pkg = x.second.get<std::string>("<xmlattr>.pkg"), type = x.second.get<std::string>("<xmlattr>.type");
    // the program's source, according to the build file of its package
    std::istringstream in(get(repoFile(pkg + "/CMakeLists.txt")));
    std::string all((std::istreambuf_iterator<char>(in)), {}), exe;
    size_t at = all.find("OUTPUT_NAME " + type + " ");
    c.require(at != std::string::npos, file, ": package ", pkg, " builds a program ", type);
    size_t p = all.rfind("set_target_properties(", at) + strlen("set_target_properties(");
    std::string target = all.substr(p, all.find_first_of(" \n", p) - p);
    p = all.find("add_executable(" + target);
    c.require(p != std::string::npos, file, ": ", target, " is a program");
    p = all.find("src/", p);
    l.source = all.substr(p, all.find_first_of(" )\n", p) - p);
    c.require(fs::exists(repoFile(pkg + "/" + l.source)), file, ": ", l.source, " exists");
    for (auto& y : x.second)
    {
      if (y.first == "param")
        l.params[y.second.get<std::string>("<xmlattr>.name")] = value(y.second.get<std::string>("<xmlattr>.value"));
      if (y.first != "rosparam")
        continue;
      YAML::Node n;
      if (auto f = y.second.get_optional<std::string>("<xmlattr>.file"))
      {
        c.require(fs::exists(value(*f)), file, ": ", value(*f), " exists");
        n = YAML::LoadFile(value(*f));
      }
      else
        n = YAML::Load(y.second.data());
      for (auto kv : n)
        l.params[kv.first.as<std::string>()] = kv.second;
    }
  }
  c.require(nodes == 1, file, ": one program is started");
  return l;
}
static Run start(vf::Ctx& c, const std::string& file, const std::map<std::string, std::string>& given, const std::string& what)
{
  Scratch t;
  Launch l = launch(c, file, given);
  YAML::Emitter e;
  e << l.params;
  Run r = runTool(fs::path(l.source).stem().string(), std::string(e.c_str()) + "\n", t.dir);
  c.eval(file + what);
  clean(c, r, file + what);
  c.require(r.code == 0 && r.count("[error]") == 0, file, what, ": exit code ", r.code, "\n", r.out.size() > 1500 ? r.out.substr(r.out.size() - 1500) : r.out);
  c.outcome("shipped example runs");
  return r;
}
/** the shipped data set with some images only, or in another order */
static std::string rearranged(const std::string& dir, const std::string& set, const std::vector<int>& take)
{
  for (std::string sub : { "images", "poses" })
    fs::create_directory_symlink(repoFile("rct_examples/data/" + set + "/" + sub), dir + "/" + sub);
  YAML::Node n = YAML::LoadFile(repoFile("rct_examples/data/" + set + "/cal_data.yaml")), out(YAML::NodeType::Sequence);
  for (int i : take)
    out.push_back(n[i]);
  YAML::Emitter e;
  e << out;
  put(dir + "/cal_data.yaml", std::string(e.c_str()) + "\n");
  return dir + "/cal_data.yaml";
}
static void shippedHandEye(vf::Ctx& c, bool wrist, const std::vector<std::vector<int>>& takes)
{
  std::string file = std::string("rct_examples/launch/") + (wrist ? "camera_on_wrist" : "static_camera") + "_example.launch";
  const char* heads[2] = { wrist ? "WRIST TO CAMERA" : "BASE TO CAMERA", wrist ? "BASE TO TARGET" : "WRIST_TO_TARGET" };
  Run all = start(c, file, {}, "");
  for (auto& take : takes)
  {
    std::string what = " images";
    for (int i : take)
      what += " " + num(i);
    Scratch t;
    Run r = start(c, file, { { "data_path", rearranged(t.dir, wrist ? "test_set_10x10" : "test_set_charuco", take) } }, what);
    bool same = take.size() == (wrist ? 15 : 16);  // another order only
    for (const char* h : heads)
    {
      Iso a = transform(c, all.out, h), b = transform(c, r.out, h), d = mul(inv(a), b);
      c.require(d.translation().norm() < (same ? 1e-3 : 0.03) && std::fabs(Eigen::AngleAxisd(d.linear()).angle()) < (same ? 1e-3 : 0.05), file, what, ": ", h,
                " differs from that of all images by ", d.translation().norm(), " m, ", std::fabs(Eigen::AngleAxisd(d.linear()).angle()));
    }
    c.require(numbers(after(c, r.out, "Did converge?:", 0))[0] == 1 && numbers(after(c, r.out, "Final cost?:", 0))[0] < 2, file, what, ": converges\n", r.out.substr(0, 3000));
  }
}
static void shippedIntrinsic(vf::Ctx& c, const std::vector<std::vector<int>>& takes)
{
  std::string file = "rct_examples/launch/camera_intrinsic_calibration_example.launch", data = "rct_examples/data/test_set_10x10/";
  YAML::Node known = YAML::LoadFile(repoFile(data + "camera_intr_calibrated.yaml"))["intrinsics"];
  for (auto& take : takes)
    for (std::string guess : { "camera_intr.yaml", "camera_intr_calibrated.yaml" })
    {
      std::string what = " from " + guess + " images";
      for (int i : take)
        what += " " + num(i);
      Scratch t;
      Run r = start(c, file, { { "camera_file", repoFile(data + guess) }, { "data_path", rearranged(t.dir, "test_set_10x10", take) } }, what);
      c.require(numbers(after(c, r.out, "Did converge?:", 0))[0] == 1, file, what, ": converges");
      auto v = numbers(after(c, r.out, "RCT Intrinsics:", 0));
      const char* f[4] = { "fx", "fy", "cx", "cy" };
      for (int i = 0; i < 4; ++i)
        c.near(v[i], known[f[i]].as<double>(), take.size() == 15 ? 0.1 : 12.0, file, what, ": ", f[i]);
    }
}
static void shippedPnp(vf::Ctx& c, int image)
{
  std::string file = "rct_examples/launch/pnp_example.launch", data = "rct_examples/data/test_set_10x10/";
  Iso t[2];
  for (int k = 0; k < 2; ++k)
  {
    Run r = start(c, file, { { "camera_file", repoFile(data + (k ? "camera_intr_calibrated.yaml" : "camera_intr.yaml")) }, { "image_path", repoFile(data + "images/" + num(image) + ".png") } },
                  " image " + num(image) + " intrinsics " + num(k));
    c.require(numbers(after(c, r.out, "Did converge?:", 0))[0] == 1 && numbers(after(c, r.out, "Final cost?:", 0))[0] < 5, file, ": image ", image, ": converges\n", r.out);
    t[k] = transform(c, r.out, "RCT CAMERA TO TARGET");
    c.require(t[k].translation().z() > 0.3 && t[k].translation().z() < 1.5, file, ": image ", image, ": distance");
  }
  Iso d = mul(inv(t[0]), t[1]);
  c.require(d.translation().norm() < 0.05 && std::fabs(Eigen::AngleAxisd(d.linear()).angle()) < 0.08, file, ": image ", image, ": similar intrinsics give similar poses");
}

void vf::define(Suite& s)
{
  const bool T = s.thorough;
  s.property = "C24";
  s.rule = "tools x every pattern of usable and unusable images in their data sets x cameras x target types, every missing parameter or unreadable file, and the launch files and photographs that come with the tools: every launch file as it is, every photograph, reversed and with one left out";
  s.assumptions = { "the ROS layer is represented by stand-ins for its headers (parameters from a file, windows stored instead of shown)", "the target finders, solvers and statistics that the tools call are judged by C01-C20; here the tools' use of them is judged against the same functions called with correctly paired data, and against the true poses" };
  s.case_timeout = 150;
  const std::vector<int> all = { GOOD, BLANK, BENT, NOIMAGE, NOPOSE };
  for (bool wrist : { true, false })
  {
    std::string n = wrist ? "wrist/" : "static/";
    for (auto& w : words(all, T ? 4 : 3))
      s.add(n + text(w), [=](vf::Ctx& c) { handEye(c, HandEye(wrist, circles()), w, 3); });
    // few usable images
    for (int len = 0; len <= (T ? 3 : 2); ++len)
      for (auto& w : words(all, len))
        s.add(n + "few/" + text(w), [=](vf::Ctx& c) { handEye(c, HandEye(wrist, circles()), w, 0); });
    // every order of pictures bent more and less, and every place of the limit among them
    std::vector<double> bends = { 0, 0.2, 0.4, 0.7, 1.2 };
    int turn = 0;
    do
      for (int keep = 0; keep <= 5; ++keep)
        if (T || (turn + keep) % 8 == 0)
        {
          std::string id = n + "limit" + num(keep);
          for (double b : bends)
            id += "/" + str(b);
          Limit l{ bends, keep };
          s.add(id, [=](vf::Ctx& c) { handEye(c, HandEye(wrist, circles()), {}, 0, &l); });
        }
    while (++turn, std::next_permutation(bends.begin(), bends.end()));
    for (auto& w : words({ GOOD, BLANK, NOIMAGE }, T ? 3 : 2))
      s.add(n + "charuco/" + text(w), [=](vf::Ctx& c) { handEye(c, HandEye(wrist, charucos()), w, 4); });
  }
  for (int cams = 2; cams <= 3; ++cams)
  {
    int images = cams == 2 ? (T ? 4 : 3) : (T ? 3 : 2);
    for (long code = 0; code < (1L << (cams * images)); ++code)
    {
      Pattern p = pattern(cams, images, 3, code);
      std::string id = num(cams) + "/" + p.text;
      std::replace(id.begin(), id.end(), ' ', '.');
      s.add("multi/" + id, [=](vf::Ctx& c) { multiStatic(c, Multi(cams), p); });
      for (bool fix : { true, false })
        if (T || fix || code % 4 == 0)
          s.add(std::string("step/") + (fix ? "fixed/" : "free/") + id, [=](vf::Ctx& c) { multiStep(c, Multi(cams), p, fix); });
      s.add("multipnp/" + id, [=](vf::Ctx& c) { multiPnp(c, Multi(cams), p); });
    }
  }
  for (int cams = 2; cams <= 3; ++cams)
    for (auto& w : subsets(6, 4))
      for (int turn = 1; turn <= (T ? 3 : 1); ++turn)
      {
        std::vector<std::vector<int>> places;
        for (int k = 0; k < cams; ++k)
        {
          places.push_back(k == 1 ? std::vector<int>{ 0, 1, 2, 3 } : w);
          std::rotate(places.back().begin(), places.back().begin() + (turn * k) % 4, places.back().end());
        }
        s.add("places/" + num(cams) + "/" + text(w, "01234567") + "/" + num(turn), [=](vf::Ctx& c) { ownPoses(c, Multi(cams), places); });
      }
  // few images, or none
  for (int cams = 1; cams <= 2; ++cams)
    for (int images = 0; images <= (cams == 1 ? 3 : 2); ++images)
      for (long code = 0; code < (1L << (cams * images)); ++code)
      {
        Pattern p = pattern(cams, images, 0, code);
        std::string id = num(cams) + "/" + p.text;
        std::replace(id.begin(), id.end(), ' ', '.');
        s.add("multi/few/" + id, [=](vf::Ctx& c) { multiStatic(c, Multi(cams), p); });
        for (bool fix : { true, false })
          s.add(std::string("step/few/") + (fix ? "fixed/" : "free/") + id, [=](vf::Ctx& c) { multiStep(c, Multi(cams), p, fix); });
        s.add("multipnp/few/" + id, [=](vf::Ctx& c) { multiPnp(c, Multi(cams), p); });
      }
  for (int i = 0; i < 12; ++i)
    s.add("print/" + num(i), [=](vf::Ctx& c) { printed(c, i); });
  for (int len = 0; len <= (T ? 4 : 3); ++len)
    for (auto& w : words({ 0, 1, 2, 3, 4, 5 }, len))
      s.add("noise/" + text(w, "012bnc"), [=](vf::Ctx& c) { noise(c, w); });
  for (auto& w : words({ GOOD, BLANK, NOIMAGE, NOPOSE }, T ? 4 : 2))
    s.add("intrinsic/" + text(w), [=](vf::Ctx& c) { intrinsic(c, w, 5); });
  for (int len = 0; len <= 2; ++len)
    for (auto& w : words({ GOOD, BLANK, NOIMAGE }, len))
      s.add("intrinsic/few/" + text(w), [=](vf::Ctx& c) { intrinsic(c, w, 0); });
  for (double scale : { 1.0, 1.004, 1.05 })
    for (auto& w : words({ GOOD, BLANK, NOIMAGE, NOPOSE }, T ? 3 : 2))
      s.add("validation/" + str(scale) + "/" + text(w), [=](vf::Ctx& c) { validation(c, HandEye(true, circles()), w, 3, scale); });
  for (bool charuco : { false, true })
    for (int i = 0; i < 8; ++i)
      for (int k : { GOOD, BLANK, NOIMAGE })
        s.add(std::string("pnp/") + (charuco ? "charuco/" : "circles/") + num(i) + "gbwip"[k], [=](vf::Ctx& c) { pnp(c, charuco ? charucos() : circles(), i, k); });
  for (auto& w : words({ GOOD, BLANK, NOIMAGE, NOPOSE }, T ? 3 : 2))
    s.add("example/" + text(w), [=](vf::Ctx& c) { example(c, w, 3); });
  // incomplete parameters
  const std::vector<std::string> pose = { "x", "y", "z", "qx", "qy", "qz", "qw" }, k4 = { "fx", "fy", "cx", "cy" };
  auto with = [](std::vector<std::string> v, const std::string& name, const std::vector<std::string>& members) {
    v.push_back(name);
    for (auto& m : members)
      v.push_back(name + "/" + m);
    return v;
  };
  for (bool wrist : { true, false })
    s.add(std::string("incomplete/") + (wrist ? "wrist" : "static"), [=](vf::Ctx& c) {
      HandEye h(wrist, circles());
      Scratch t;
      std::vector<Entry> set;
      for (int i = 0; i < 3; ++i)
        set.push_back({ &pooled(h.board, GOOD, i), h.tool(i) });
      writeSet(t.dir, set);
      auto n = with({ "homography_threshold", "data_path", "target_finder", "target_finder/type", "target_finder/rows" }, "intrinsics", k4);
      n = with(n, wrist ? "wrist_to_camera_guess" : "base_to_camera_guess", pose);
      n = with(n, wrist ? "base_to_target_guess" : "wrist_to_target_guess", pose);
      incomplete(c, h.name(), h.params(t.dir + "/data.yaml"), t.dir, n);
    });
  for (std::string tool : { "multi_static_camera_extrinsic", "multi_static_camera_multi_step_extrinsic", "solve_multi_camera_pnp" })
    s.add("incomplete/" + tool, [=](vf::Ctx& c) {
      Multi m(2);
      Scratch t;
      writeSets(c, m, pattern(2, 0, 2, 0), t.dir);
      bool pnpTool = tool == "solve_multi_camera_pnp";
      std::string cp = pnpTool ? "base_to_camera" : "base_to_camera_guess";
      std::vector<std::string> n = { "num_of_cameras", "target_finder", "target_finder/type" };
      for (std::string k : { "camera_0", "camera_1" })
      {
        n.push_back(k);
        n.push_back(k + "/data_path");
        n = with(n, k + "/intrinsics", k4);
        n = with(n, k + "/" + cp, pose);
      }
      if (!pnpTool)
        n = with(n, "wrist_to_target_guess", pose);
      if (tool == "multi_static_camera_multi_step_extrinsic")
        n.push_back("fix_first_camera");
      incomplete(c, tool, m.params(t.dir, cp, true), t.dir, n);
    });
  s.add("incomplete/others", [=](vf::Ctx& c) {
    Board b = circles();
    HandEye h(true, b);
    Scratch t;
    std::vector<Entry> set;
    for (int i = 0; i < 3; ++i)
      set.push_back({ &pooled(b, GOOD, i), h.tool(i) });
    writeSet(t.dir, set);
    put(t.dir + "/index.yaml", "- image: images/0.png\n- image: images/7.png\n");
    put(t.dir + "/image.png", pooled(b, GOOD, 0).png);
    std::string base = b.config() + intrText(cam());
    auto n = with({ "target_finder", "target_finder/type" }, "intrinsics", k4);
    auto n1 = n, n2 = n, n3 = n, n4 = n;
    n1.push_back("data_path"), n1.push_back("data_file");
    // an unreadable image path is the image's problem, not the parameter's
    n1 = with(n1, "camera_to_target_guess", pose);
    std::vector<std::string> noPath;
    for (auto& k : n1)
      if (k != "data_path")
        noPath.push_back(k);
    incomplete(c, "noise_qualification_2d", "data_path: " + t.dir + "\ndata_file: " + t.dir + "/index.yaml\n" + base + poseParam("camera_to_target_guess", view(b, 0)), t.dir, noPath);
    n2.push_back("data_path");
    incomplete(c, "intrinsic_calibration", "data_path: " + t.dir + "/data.yaml\n" + base, t.dir, n2);
    n3.push_back("image_path");
    incomplete(c, "solve_pnp", "image_path: " + t.dir + "/image.png\n" + base, t.dir, n3);
    n4.push_back("data_path");
    n4 = with(with(n4, "wrist_to_camera_guess", pose), "base_to_target_guess", pose);
    incomplete(c, "camera_intrinsic_calibration_validation", "data_path: " + t.dir + "/data.yaml\n" + base + poseParam("wrist_to_camera_guess", h.cameraGuess()) + poseParam("base_to_target_guess", h.targetGuess()), t.dir, n4);
  });
  // what comes with the tools
  {
    std::map<std::string, std::map<std::string, std::string>> given{ { "rct_ros_tools/launch/command_line_data_collection.launch", { { "target_file", "" } } } };
    std::string any = repoFile("rct_examples/data/test_set_10x10/target.yaml");
    for (std::string pkg : { "rct_examples", "rct_ros_tools" })
      if (fs::exists(repoFile(pkg + "/launch")))
        for (auto& f : fs::directory_iterator(repoFile(pkg + "/launch")))
        {
          if (f.path().extension() != ".launch")
            continue;
          std::string name = f.path().filename().string(), file = pkg + "/launch/" + name;
          std::string text = get(f.path().string());
          bool node = pkg == "rct_ros_tools", needs = text.find("<arg name=\"data_file\"/>") != std::string::npos;
          s.add("shipped/launch/" + name, [=](vf::Ctx& c) {
            if (node || needs)  // cannot be started without data of one's own
            {
              launch(c, file, { { "target_file", any }, { "data_file", any } });
              c.eval();
            }
            else
              start(c, file, {}, "");
          });
        }
    for (int i = 0; i < 15; ++i)
      s.add("shipped/pnp/" + num(i), [=](vf::Ctx& c) { shippedPnp(c, i); });
    for (int kind = 0; kind < 3; ++kind)
    {
      int n = kind == 1 ? 16 : 15;
      std::vector<std::vector<int>> takes{ {} };
      for (int i = 0; i < n; ++i)
        takes[0].insert(takes[0].begin(), i);
      for (int i = 0; i < n; i += T ? 1 : 4)
      {
        takes.emplace_back();
        for (int j = 0; j < n; ++j)
          if (j != i)
            takes.back().push_back(j);
      }
      for (size_t k = 0; k < takes.size(); ++k)
        s.add("shipped/set" + num(kind) + "/" + num(k), [=](vf::Ctx& c) {
          if (kind == 2)
            shippedIntrinsic(c, { takes[k] });
          else
            shippedHandEye(c, kind == 0, { takes[k] });
        });
    }
  }
}

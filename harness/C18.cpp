// LIBS: img
// C18: labelling of the modified circle grid under every listing and every failure of the underlying grid detection.
#include "kit.h"
#include "render.h"
#include <dlfcn.h>
#include <opencv2/calib3d.hpp>
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/modified_circle_grid_finder.h>

using namespace kit;
using namespace rct_image_tools;

// ------------------------------------------------------------------ scripted stand-in for the grid detection of the vision library
namespace script
{
using Answer = std::function<bool(cv::Mat image, cv::Size size, std::vector<cv::Point2f>& centers, const cv::Ptr<cv::FeatureDetector>& det)>;
static Answer answer;  // empty: ask the real library
static int calls;
}  // namespace script
namespace cv
{
typedef bool (*Grid4)(InputArray, Size, OutputArray, int, const Ptr<FeatureDetector>&);
typedef bool (*Grid5)(InputArray, Size, OutputArray, int, const Ptr<FeatureDetector>&, const CirclesGridFinderParameters&);
static bool scripted(InputArray image, Size size, OutputArray centers, const Ptr<FeatureDetector>& det)
{
  std::vector<Point2f> c;
  bool r = script::answer(image.getMat(), size, c, det);
  Mat(c).copyTo(centers);
  return r;
}
bool findCirclesGrid(InputArray image, Size size, OutputArray centers, int flags, const Ptr<FeatureDetector>& det)
{
  ++script::calls;
  if (script::answer)
    return scripted(image, size, centers, det);
  static Grid4 real = (Grid4)dlsym(RTLD_NEXT, "_ZN2cv15findCirclesGridERKNS_11_InputArrayENS_5Size_IiEERKNS_12_OutputArrayEiRKNS_3PtrINS_9Feature2DEEE");
  return real(image, size, centers, flags, det);
}
bool findCirclesGrid(InputArray image, Size size, OutputArray centers, int flags, const Ptr<FeatureDetector>& det, const CirclesGridFinderParameters& par)
{
  ++script::calls;
  if (script::answer)
    return scripted(image, size, centers, det);
  static Grid5 real = (Grid5)dlsym(RTLD_NEXT, "_ZN2cv15findCirclesGridERKNS_11_InputArrayENS_5Size_IiEERKNS_12_OutputArrayEiRKNS_3PtrINS_9Feature2DEEERKNS_27CirclesGridFinderParametersE");
  return real(image, size, centers, flags, det, par);
}
}  // namespace cv

// ------------------------------------------------------------------ scenes
struct Scene
{
  int rows, cols;
  cv::Mat image;
  std::vector<V2> dots;  // image place of every feature, in feature order
};
/** board with the big dot at the lower left, features row by row from the top left; view: plane -> image */
static Scene board(int rows, int cols, const Eigen::Matrix3d& H, int w, int h, double big = 2.0, double spacing = 25, double r = 5)
{
  Scene s;
  s.rows = rows, s.cols = cols;
  std::vector<render::Disc> d;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
    {
      d.push_back({ j * spacing, i * spacing, i == rows - 1 && j == 0 ? r * big : r });
      s.dots.push_back(render::map(H, j * spacing, i * spacing));
    }
  s.image = render::scene(w, h, d, H);
  return s;
}
/** in-plane rotation about the middle of the board, optional tilt (perspective), placed in the middle of the image */
static Eigen::Matrix3d view(int rows, int cols, double rotation, double tiltX, double tiltY, double scale, int w, int h, double spacing = 25)
{
  Eigen::Matrix3d R = rot({ 1, 0, 0 }, tiltX) * rot({ 0, 1, 0 }, tiltY) * rot({ 0, 0, 1 }, rotation);
  double f = 1200, z = f / scale;
  Eigen::Matrix3d K;
  K << f, 0, w / 2.0, 0, f, h / 2.0, 0, 0, 1;
  Eigen::Matrix3d P;
  V3 mid((cols - 1) * spacing / 2, (rows - 1) * spacing / 2, 0);
  P.col(0) = R.col(0);
  P.col(1) = R.col(1);
  P.col(2) = V3(0, 0, z) - R * mid;
  return K * P;
}
/** square-ish image that holds the board in every rotation */
static int side(int rows, int cols, double scale) { return (int)(scale * (25 * std::hypot(rows - 1, cols - 1) + 60)); }

// ------------------------------------------------------------------ checks
enum Outcome
{
  FOUND,
  REFUSED
};
static Outcome find(vf::Ctx& c, const ModifiedCircleGridTargetFinder& f, const Scene& s, const std::string& what, double tol = 1.0)
{
  cv::Mat before = s.image.clone();
  TargetFeatures got;
  bool refused = false;
  std::string why;
  try
  {
    got = f.findTargetFeatures(s.image);
  }
  catch (const std::exception& e)
  {
    refused = true;
    why = e.what();
  }
  c.require(cv::norm(before, s.image, cv::NORM_INF) == 0, what, ": image is left alone");
  c.eval();
  if (refused)
    return REFUSED;
  size_t n = s.rows * s.cols;
  c.require(got.size() == n, what, ": complete set, got ", got.size());
  for (size_t i = 0; i < n; ++i)
  {
    auto it = got.find(i);
    c.require(it != got.end() && it->second.size() == 1, what, ": feature ", i, " exactly once");
    double e = (it->second[0] - s.dots[i]).norm();
    c.require(e <= tol, what, ": feature ", i, " is dot ", i, "; reported at ", it->second[0].transpose(), ", dot at ", s.dots[i].transpose());
  }
  // and the target accepts the set
  auto corr = f.target().createCorrespondences(got);
  c.require(corr.size() == n, what, ": pairing");
  return FOUND;
}

/** the dots in feature order as the detector that is handed in reports them */
static bool detected(cv::Mat image, const cv::Ptr<cv::FeatureDetector>& det, const Scene& s, std::vector<cv::Point2f>& out)
{
  std::vector<cv::KeyPoint> k;
  det->detect(image, k);
  out.clear();
  for (auto& d : s.dots)
  {
    const cv::KeyPoint* best = nullptr;
    for (auto& p : k)
      if (std::hypot(p.pt.x - d[0], p.pt.y - d[1]) < 2)
        best = &p;
    if (!best)
      return false;
    out.push_back(best->pt);
  }
  return true;
}
/** listing k (0..7) of an R x C grid: rows of the listing have width W; false if the listing does not fit */
static bool listing(int k, int R, int C, cv::Size size, std::vector<int>& idx)
{
  bool tr = k & 4;
  int W = tr ? R : C, H = tr ? C : R;
  if (size.width != W || size.height != H)
    return false;
  idx.clear();
  for (int a = 0; a < H; ++a)
    for (int b = 0; b < W; ++b)
    {
      int aa = k & 1 ? H - 1 - a : a, bb = k & 2 ? W - 1 - b : b;
      int r = tr ? bb : aa, q = tr ? aa : bb;
      idx.push_back(r * C + q);
    }
  return true;
}

/** kinds of answers of the grid detection */
enum Kind
{
  OK,
  FAIL_EMPTY,
  FAIL_PARTIAL,
  FAIL_FULL,
  TRUE_EMPTY,
  TRUE_PARTIAL,
  TRUE_SURPLUS,
  TRUE_DUPLICATE,
  TRUE_FOREIGN,
  THROWS,
  N_KINDS
};
static const char* names[] = { "found", "failed", "failed-partial", "failed-full", "found-none", "found-partial", "found-surplus", "found-duplicate", "found-foreign", "throws" };

/** scripted answer of the given kind; list: which listing; at: which element is dropped / doubled / replaced */
static script::Answer answerer(const Scene& s, std::function<Kind(cv::Size, int)> kind, std::function<int(cv::Size)> list, int at)
{
  auto count = std::make_shared<int>(0);
  return [=](cv::Mat image, cv::Size size, std::vector<cv::Point2f>& out, const cv::Ptr<cv::FeatureDetector>& det) {
    Kind k = kind(size, (*count)++);
    if (k == THROWS)
      throw cv::Exception(cv::Error::StsError, "scripted", "findCirclesGrid", __FILE__, __LINE__);
    if (k == FAIL_EMPTY || k == TRUE_EMPTY)
      return k == TRUE_EMPTY;
    std::vector<cv::Point2f> d;
    std::vector<int> idx;
    if (!detected(image, det, s, d) || !listing(list(size), s.rows, s.cols, size, idx))
      return false;
    for (int i : idx)
      out.push_back(d[i]);
    int n = out.size(), a = ((at % n) + n) % n, b = (a + 1) % n;
    switch (k)
    {
      case FAIL_PARTIAL:
      case TRUE_PARTIAL: out.erase(out.begin() + a); break;
      case TRUE_SURPLUS: out.push_back(cv::Point2f(3, 3)); break;
      case TRUE_DUPLICATE: out[a] = out[b]; break;
      case TRUE_FOREIGN: out[a] += cv::Point2f(3, -2); break;
      default: break;
    }
    return k == OK || k >= TRUE_EMPTY;
  };
}

void vf::define(Suite& s)
{
  s.property = "C18";
  s.rule = "all grid shapes x in-plane rotations x the eight listings of the grid; all pairs of answers (ten kinds) of the two attempts of the grid "
           "detection x position of the fault; all shapes x rotations x tilts with the real grid detection";
  s.assumptions = { "the grid detection lists the grid row by row in one of the listings that fit the requested size" };
  const bool T = s.thorough;
  const int N = T ? 7 : 5;

  // ---------------------------------------------------------------- every listing
  std::vector<std::pair<int, int>> shapes = { { 9, 4 }, { 3, 11 }, { 10, 10 }, { 9, 13 } };
  for (int R = 2; R <= N; ++R)
    for (int C = 2; C <= N; ++C)
      shapes.push_back({ R, C });
  for (auto [R_, C_] : shapes)
    for (int R = R_, C = C_, once = 1; once--;)
      s.add("listing/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
        std::vector<double> rots = { 0, 37, 90, 143, 180, 217, 270, 325 };
        if (R * C > 25 && !T)
          rots = { 0, 143 };
        for (double a : rots)
          for (double big : { 2.0, 1.4 })
          {
            int w = side(R, C, 1.5);
            Scene sc = board(R, C, view(R, C, deg(a), 0, 0, 1.5, w, w), w, w, big);
            ModifiedCircleGridTargetFinder f{ ModifiedCircleGridTarget(R, C, 0.025) };
            for (int k = 0; k < 8; ++k)
            {
              // the attempts whose size does not fit listing k fail
              script::answer = answerer(sc, [=](cv::Size z, int) { std::vector<int> i; return listing(k, R, C, z, i) ? OK : FAIL_EMPTY; }, [=](cv::Size) { return k; }, 0);
              Outcome o = find(c, f, sc, "listing " + str(k) + " rotation " + str(a));
              c.require(o == FOUND, "listing ", k, " rotation ", a, ": completely listed grid is found");
              c.outcome("found");
            }
            script::answer = nullptr;
          }
      });

  // ---------------------------------------------------------------- faults of the grid detection
  for (int R = 2; R <= (T ? 5 : 4); ++R)
    for (int C = 2; C <= (T ? 5 : 4); ++C)
      s.add("fault/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
        int w = side(R, C, 1.5);
        Scene sc = board(R, C, view(R, C, deg(20), 0, 0, 1.5, w, w), w, w);
        ModifiedCircleGridTargetFinder f{ ModifiedCircleGridTarget(R, C, 0.025) };
        for (int k1 = 0; k1 < N_KINDS; ++k1)
          for (int k2 = 0; k2 < N_KINDS; ++k2)
            for (int at = 0; at < R * C; at += (R * C > 6 && !T ? 3 : 1))
              for (int l = 0; l < 4; l += 3)
              {
                if (k1 == OK && k2 != OK)
                  continue;  // the second attempt is not needed
                // first attempt: the size of the target; second attempt: the flipped size (for square grids: the second call)
                auto kind = [=](cv::Size z, int n) { return Kind(R == C ? (n == 0 ? k1 : k2) : (z.width == C ? k1 : k2)); };
                auto list = [=](cv::Size z) { return z.width == C ? l : l + 4; };
                script::answer = answerer(sc, kind, list, at);
                std::string what = std::string("attempts ") + names[k1] + "/" + names[k2] + " at " + str(at) + " listing " + str(l);
                Outcome o = find(c, f, sc, what);
                c.outcome(o == FOUND ? "found" : "refused");
                if (k1 != OK && k2 != OK)
                  c.require(o == REFUSED, what, ": incomplete grid is refused");
                if (k1 == OK || (k2 == OK && (k1 == FAIL_EMPTY || k1 == FAIL_PARTIAL)))
                  c.require(o == FOUND, what, ": completely listed grid is found");
              }
        script::answer = nullptr;
      });

  // ---------------------------------------------------------------- shapes without a neighbourhood
  for (int R = 1; R <= 4; ++R)
    for (int C = 1; C <= 4; ++C)
      if (R == 1 || C == 1)
        s.add("thin/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
          int w = side(R, C, 1.5);
          for (double a : { 0, 90, 180, 270 })
          {
            Scene sc = board(R, C, view(R, C, deg(a), 0, 0, 1.5, w, w), w, w);
            ModifiedCircleGridTarget t(R, C, 0.025);
            for (int k = 0; k < 8; ++k)
            {
              script::answer = answerer(sc, [=](cv::Size z, int) { std::vector<int> i; return listing(k, R, C, z, i) ? OK : FAIL_EMPTY; }, [=](cv::Size) { return k; }, 0);
              try
              {
                ModifiedCircleGridTargetFinder f(t);
                find(c, f, sc, "listing " + str(k) + " rotation " + str(a));  // refusing is fine, a wrong label is not
              }
              catch (const std::exception&)
              {
              }
            }
          }
          script::answer = nullptr;
        });
  s.add("thin/0", [=](vf::Ctx& c) {
    cv::Mat img(100, 100, CV_8UC1, cv::Scalar(255));
    for (auto rc : { std::make_pair(0, 0), std::make_pair(0, 3), std::make_pair(3, 0) })
    {
      bool refused = false;
      try
      {
        ModifiedCircleGridTargetFinder f(ModifiedCircleGridTarget(rc.first, rc.second, 0.025));
        f.findTargetFeatures(img);
      }
      catch (const std::exception&)
      {
        refused = true;
      }
      c.require(refused, "target without dots is refused");
      c.eval();
    }
  });

  // ---------------------------------------------------------------- no large dot
  for (int R = 2; R <= 4; ++R)
    for (int C = 2; C <= 4; ++C)
      s.add("uniform/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
        for (double a : { 0., 20., 45. })
        {
          int w = side(R, C, 1.5);
          Scene sc = board(R, C, view(R, C, deg(a), 0, 0, 1.5, w, w), w, w, 1.0);
          ModifiedCircleGridTargetFinder f{ ModifiedCircleGridTarget(R, C, 0.025) };
          int found = 0;
          for (int k = 0; k < 8; ++k)
          {
            script::answer = answerer(sc, [=](cv::Size z, int) { std::vector<int> i; return listing(k, R, C, z, i) ? OK : FAIL_EMPTY; }, [=](cv::Size) { return k; }, 0);
            try
            {
              f.findTargetFeatures(sc.image);
              ++found;
            }
            catch (const std::exception&)
            {
            }
            c.eval();
          }
          script::answer = nullptr;
          c.require(found == 0, "grid without a large dot is refused, rotation ", a);
        }
      });

  // ---------------------------------------------------------------- the real grid detection
  shapes = { { 9, 4 }, { 10, 11 } };
  for (int R = 3; R <= (T ? 8 : 6); ++R)
    for (int C = 3; C <= (T ? 8 : 6); ++C)
      shapes.push_back({ R, C });
  for (auto [R_, C_] : shapes)
    for (int R = R_, C = C_, color = 0; color < 2; ++color)
      {
        if (color && (R != 4 || C != 5))
          continue;
        s.add(std::string("real") + (color ? "-color" : "") + "/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
          std::vector<std::pair<double, double>> tilts = { { 0, 0 }, { 0.5, 0 }, { 0, -0.5 }, { -0.4, 0.4 } };
          int step = T ? 10 : R * C > 36 ? 90 : 30, found = 0, all = 0;
          for (int a = 0; a < 360; a += step)
            for (auto& t : tilts)
            {
              int w = side(R, C, 2.0);
              Scene sc = board(R, C, view(R, C, deg(a + (t.first != 0 ? 7 : 0)), t.first, t.second, 2.0, w, w), w, w);
              if (color)
                cv::cvtColor(sc.image, sc.image, cv::COLOR_GRAY2BGR);
              ModifiedCircleGridTargetFinder f{ ModifiedCircleGridTarget(R, C, 0.025) };
              Outcome o = find(c, f, sc, "rotation " + str(a) + " tilt " + str(t.first) + "," + str(t.second), 1.5);
              ++all;
              found += o == FOUND;
              c.outcome(o == FOUND ? "real: found" : "real: refused");
            }
          c.require(found * 2 >= all, "the real detection finds most grids: ", found, " of ", all);
        });
      }
  // partly hidden or out of the image, never a partial or shifted answer
  for (int R = 3; R <= 5; ++R)
    for (int C = 3; C <= 5; ++C)
      s.add("real-hidden/" + str(R) + "x" + str(C), [=](vf::Ctx& c) {
        int w = side(R, C, 1.5);
        for (double a : { 0., 100. })
          for (int hide = 0; hide < R * C; hide += T ? 1 : 3)
          {
            Scene sc = board(R, C, view(R, C, deg(a), 0, 0, 1.5, w, w), w, w);
            cv::circle(sc.image, cv::Point(std::lround(sc.dots[hide][0]), std::lround(sc.dots[hide][1])), 18, cv::Scalar(255), -1);
            CircleDetectorParams p;
            p.nThresholds = 2, p.minRepeatability = 1;
            ModifiedCircleGridTargetFinder f{ ModifiedCircleGridTarget(R, C, 0.025), p };
            c.require(find(c, f, sc, "hidden " + str(hide)) == REFUSED, "grid with a hidden dot is refused: ", hide);
          }
      });
}

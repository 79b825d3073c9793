// LIBS: img ros
// C23: saving, loading, crashing and failing in every order; found masks; parameter and file loaders.
#include "kit.h"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <opencv2/core.hpp>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/target_finder.h>
#include <rct_optimizations/serialization/eigen.h>
#include <rct_optimizations/serialization/types.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/exceptions.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <ros/console.h>
#include <ros/node_handle.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace kit;
using namespace rct_ros_tools;
namespace fs = std::filesystem;

// ------------------------------------------------------------------ crash points and failing image writes
namespace crash
{
static bool armed = false;   // only ever set in a forked child
static long at = -1, count;  // die at this file operation
static int cut;              // how much of it reaches the disk: 0 nothing, 1 one byte, 2 half, 3 all but one byte
static size_t part(size_t n)
{
  switch (cut)
  {
    case 0: return 0;
    case 1: return std::min<size_t>(n, 1);
    case 2: return n / 2;
    default: return n ? n - 1 : 0;
  }
}
static bool now() { return armed && count++ == at; }
static long imwrites, failImage = -1, throwImage = -1;
}  // namespace crash
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
  if (fd > 2 && crash::now())
  {
    syscall(SYS_write, fd, b, crash::part(n));
    _exit(42);
  }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k)
{
  if (fd > 2 && crash::now())
  {
    std::string all;
    for (int i = 0; i < k; ++i)
      all.append((const char*)v[i].iov_base, v[i].iov_len);
    syscall(SYS_write, fd, all.data(), crash::part(all.size()));
    _exit(42);
  }
  return syscall(SYS_writev, fd, v, k);
}
extern "C" FILE* fopen64(const char* path, const char* mode)
{
  static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  FILE* f = real(path, mode);
  if (mode[0] != 'r' && crash::now())
    _exit(42);  // the file is there, and empty
  return f;
}
namespace cv
{
bool imwrite(const String& name, InputArray img, const std::vector<int>& p)
{
  static auto real = (bool (*)(const String&, InputArray, const std::vector<int>&))dlsym(
      RTLD_NEXT, "_ZN2cv7imwriteERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERKSt6vectorIiSaIiEE");
  long k = crash::imwrites++;
  if (k == crash::failImage)
    return false;
  if (k == crash::throwImage)
    throw cv::Exception(cv::Error::StsError, "scripted", "imwrite", __FILE__, __LINE__);
  if (crash::now())
  {
    crash::armed = false;
    real(name, img, p);
    std::error_code ec;
    auto n = fs::file_size(name, ec);
    if (!ec)
      fs::resize_file(name, crash::part(n), ec);
    _exit(42);
  }
  bool was = crash::armed;
  crash::armed = false;
  bool r = real(name, img, p);
  crash::armed = was;
  return r;
}
}  // namespace cv

// ------------------------------------------------------------------ data with recognisable entries
static std::vector<std::vector<int>> tuples(int k, int n)
{
  std::vector<std::vector<int>> out(1);
  for (int i = 0; i < n; ++i)
  {
    std::vector<std::vector<int>> next;
    for (auto& t : out)
      for (int v = 0; v < k; ++v)
      {
        next.push_back(t);
        next.back().push_back(v);
      }
    out = next;
  }
  return out;
}
struct Scratch
{
  std::string dir;
  Scratch()
  {
    char t[] = "/tmp/vf-c23-XXXXXX";
    if (!mkdtemp(t))
      throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    std::error_code ec;
    if (dir.rfind("/tmp/vf-c23-", 0) == 0)
      fs::remove_all(dir, ec);
  }
};
static cv::Mat image(int version, int entry, int type = CV_8UC3)
{
  cv::Mat m(9, 11, type);
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols * m.channels(); ++x)
      m.at<uchar>(y, x) = (x * 7 + y * 13 + entry * 31 + version * 97 + x * y * (entry + 1) + (entry >> 8) * (x + 3 * y + 1)) & 255;
  return m;
}
static Iso pose(int version, int entry) { return make(rot({ 1, 2, double(entry) }, 0.3 + entry + 0.1 * version), V3(0.1 * entry, version, -1.25 - entry * 1e-7)); }
static ExtrinsicDataSet dataSet(int version, int n)
{
  ExtrinsicDataSet d;
  for (int i = 0; i < n; ++i)
  {
    d.images.push_back(image(version, i));
    d.tool_poses.push_back(pose(version, i));
  }
  return d;
}
static bool sameImage(const cv::Mat& a, const cv::Mat& b) { return a.size() == b.size() && a.type() == b.type() && cv::norm(a, b, cv::NORM_INF) == 0; }
static bool samePose(const Iso& a, const Iso& b) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() < 1e-12; }
/** the entries (version, index) that were loaded; fails if an image comes with another entry's pose */
static std::vector<std::pair<int, int>> identify(vf::Ctx& c, const ExtrinsicDataSet& d, const std::string& what, int versions = 4, int n = 12)
{
  c.require(d.images.size() == d.tool_poses.size(), what, ": as many images as poses");
  std::vector<std::pair<int, int>> out;
  for (size_t k = 0; k < d.images.size(); ++k)
  {
    std::pair<int, int> im{ -1, -1 }, po{ -1, -1 };
    for (int v = 0; v < versions; ++v)
      for (int e = 0; e < n; ++e)
      {
        if (sameImage(d.images[k], image(v, e)))
          im = { v, e };
        if (samePose(d.tool_poses[k], pose(v, e)))
          po = { v, e };
      }
    c.require(im.first >= 0, what, ": entry ", k, ": image is one that was saved");
    c.require(po.first >= 0, what, ": entry ", k, ": pose is one that was saved");
    c.require(im == po, what, ": entry ", k, ": image of entry ", im.second, " (set ", im.first, ") comes with the pose of entry ", po.second, " (set ", po.first, ")");
    out.push_back(im);
  }
  return out;
}
static std::vector<std::pair<int, int>> all(int version, int n)
{
  std::vector<std::pair<int, int>> v;
  for (int i = 0; i < n; ++i)
    v.emplace_back(version, i);
  return v;
}
static bool save(const std::string& dir, const ExtrinsicDataSet& d)
{
  try
  {
    return saveToDirectory(dir, d);
  }
  catch (const std::exception&)
  {
    return false;
  }
}
enum Status
{
  LOADED,
  REFUSED
};
static Status load(const std::string& path, ExtrinsicDataSet& d)
{
  d = {};
  try
  {
    auto r = parseFromFile(path);
    if (!r)
      return REFUSED;
    d = *r;
    return LOADED;
  }
  catch (const std::exception&)
  {
    return REFUSED;
  }
}
static void put(const std::string& path, const std::string& text)
{
  std::ofstream f(path, std::ios::binary);
  f << text;
}
static std::string get(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static std::string poseText(const Iso& p)
{
  Eigen::Quaterniond q(p.linear());
  std::ostringstream ss;
  ss.precision(17);
  ss << "x: " << p.translation().x() << "\ny: " << p.translation().y() << "\nz: " << p.translation().z() << "\nqx: " << q.x() << "\nqy: " << q.y() << "\nqz: " << q.z()
     << "\nqw: " << q.w() << "\n";
  return ss.str();
}

// ------------------------------------------------------------------ scripted target and finder
struct StubTarget : rct_image_tools::Target
{
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    rct_optimizations::Correspondence2D3D::Set s;
    for (auto& q : f)
      for (auto& o : q.second)
      {
        if (q.first > 50)
          throw std::out_of_range("foreign");
        rct_optimizations::Correspondence2D3D k;
        k.in_image = o;
        k.in_target = V3(q.first, 0, 0);
        s.push_back(k);
      }
    return s;
  }
};
/** what is found is written in the image: pixel (0,0): behaviour, (0,1): tag */
struct StubFinder : rct_image_tools::TargetFinder
{
  StubTarget t;
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    int b = image.at<uchar>(0, 0), tag = image.at<uchar>(0, 1);
    rct_image_tools::TargetFeatures f;
    if (b == 1)
      throw std::runtime_error("not found");
    if (b == 2)
      return f;
    for (int i = 0; i < 2 + tag % 3; ++i)
      f[b == 3 ? 60 + i : i].push_back(V2(tag, i));
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const rct_image_tools::TargetFeatures&) const override { return image.clone(); }
  const rct_image_tools::Target& target() const override { return t; }
};
/** cameras x images behaviours; ragged lists allowed */
static void mask(vf::Ctx& c, const std::vector<std::vector<int>>& beh, const std::string& what)
{
  std::vector<ExtrinsicDataSet> d(beh.size());
  bool ragged = false;
  for (size_t k = 0; k < beh.size(); ++k)
    for (size_t i = 0; i < beh[k].size(); ++i)
    {
      cv::Mat m(1, 2, CV_8UC1);
      m.at<uchar>(0, 0) = beh[k][i];
      m.at<uchar>(0, 1) = k * 10 + i;
      d[k].images.push_back(m);
      d[k].tool_poses.push_back(pose(0, i));
    }
  size_t n = beh.empty() ? 0 : beh[0].size();
  for (auto& b : beh)
    ragged |= b.size() != n;
  StubFinder f;
  c.eval();
  std::unique_ptr<ExtrinsicCorrespondenceDataSet> s;
  try
  {
    s.reset(new ExtrinsicCorrespondenceDataSet(d, f));
  }
  catch (const std::exception&)
  {
    c.require(ragged || beh.empty(), what, ": consistent data sets are accepted");
    c.outcome("refused");
    return;
  }
  c.outcome(ragged ? "ragged accepted" : "accepted");
  c.require(s->getCameraCount() == beh.size(), what, ": camera count");
  if (beh.empty())
    return;
  for (auto& b : beh)
    n = std::max(n, b.size());
  c.require(s->getImageCount() == n, what, ": image count ", s->getImageCount());
  std::vector<size_t> perImage(n, 0);
  for (size_t k = 0; k < beh.size(); ++k)
  {
    size_t perCamera = 0;
    for (size_t i = 0; i < n; ++i)
    {
      bool found = i < beh[k].size() && beh[k][i] == 0;
      perCamera += found, perImage[i] += found;
      c.require(s->foundCorrespondence(k, i) == found, what, ": camera ", k, " image ", i, found ? " is found" : " is not found");
      auto& set = s->getCorrespondenceSet(k, i);
      if (!found)
      {
        c.require(set.empty(), what, ": no observations where nothing was found");
        continue;
      }
      int tag = k * 10 + i;
      c.require((int)set.size() == 2 + tag % 3, what, ": camera ", k, " image ", i, ": all features");
      for (size_t q = 0; q < set.size(); ++q)
        c.require(set[q].in_image == V2(tag, q) && set[q].in_target == V3(q, 0, 0), what, ": camera ", k, " image ", i, ": its own features");
    }
    c.require(s->getCameraImageCount(k) == perCamera, what, ": images found by camera ", k);
  }
  for (size_t i = 0; i < n; ++i)
    c.require(s->getImageCameraCount(i) == perImage[i], what, ": cameras that found image ", i);
}

void vf::define(Suite& s)
{
  s.property = "C23";
  s.rule = "all crash points (every file operation x torn part) of saving over every earlier data set; all single write faults; all sequences of saves, losses and loads "
           "up to the depth; all entry states of hand-written sets; every truncation of every file; all found patterns; all single faults of stored poses and intrinsics";
  s.assumptions = { "operations reach the disk in program order", "images are 8-bit grey or colour (grey is loaded as colour)" };
  const bool T = s.thorough;

  // ---------------------------------------------------------------- round trip
  std::vector<int> sizes = { 33, 65, 101, 130, 257 };
  for (int n = 0; n <= 12; ++n)
    sizes.push_back(n);
  for (int n : sizes)
    s.add("roundtrip/" + str(n), [=](vf::Ctx& c) {
      for (int type : { CV_8UC3, CV_8UC1 })
        for (std::string sub : { "", "/set", "/a b.c" })
        {
          Scratch t;
          ExtrinsicDataSet d = dataSet(1, n), keep;
          if (type == CV_8UC1)
            for (int i = 0; i < n; ++i)
              d.images[i] = image(1, i, CV_8UC1);
          for (auto& m : d.images)
            keep.images.push_back(m.clone());
          std::string dir = t.dir + sub;
          c.require(save(dir, d), "saving succeeds");
          for (int i = 0; i < n; ++i)
            c.require(sameImage(keep.images[i], d.images[i]) && samePose(d.tool_poses[i], pose(1, i)), "saving leaves the data alone");
          for (std::string path : { dir + "/data.yaml", dir + "//data.yaml", dir + "/../" + fs::path(dir).filename().string() + "/data.yaml" })
          {
            ExtrinsicDataSet r;
            c.require(load(path, r) == LOADED, "saved set loads");
            c.eval();
            if (type == CV_8UC3)
              c.require(identify(c, r, "loaded set", n > 12 ? 2 : 4, std::max(n, 12)) == all(1, n), "the same entries in the same order");
            else
            {
              c.require((int)r.images.size() == n && (int)r.tool_poses.size() == n, "number of entries");
              for (int i = 0; i < n; ++i)
                for (int y = 0; y < 9; ++y)
                  for (int x = 0; x < 11; ++x)
                  {
                    auto p = r.images[i].at<cv::Vec3b>(y, x);
                    uchar g = d.images[i].at<uchar>(y, x);
                    c.require(p[0] == g && p[1] == g && p[2] == g, "grey image ", i, " has the same intensities");
                  }
            }
          }
          // from within the directory, and from its parent
          ExtrinsicDataSet r;
          fs::path old = fs::current_path();
          fs::current_path(dir);
          Status in = load("data.yaml", r);
          size_t got = r.images.size();
          Status in2 = load("./data.yaml", r);
          size_t got2 = r.images.size();
          fs::current_path(old);
          c.require(in2 == LOADED && (int)got2 == n, "set loads by a relative path");
          c.require(in == LOADED && (int)got == n, "set in the current directory loads by its file name: ", got, " of ", n, " entries");
        }
    });
  // ---------------------------------------------------------------- mismatched, unwritable
  s.add("mismatch", [=](vf::Ctx& c) {
    for (int ni = 0; ni <= 3; ++ni)
      for (int np = 0; np <= 3; ++np)
        for (int before = 0; before < 2; ++before)
        {
          if (ni == np)
            continue;
          Scratch t;
          std::string dir = t.dir + "/set";
          if (before)
            c.require(save(dir, dataSet(0, 2)), "saving");
          ExtrinsicDataSet d = dataSet(1, std::max(ni, np)), r;
          d.images.resize(ni), d.tool_poses.resize(np);
          bool ok = save(dir, d);
          c.require(!ok, ni, " images and ", np, " poses: saving reports failure");
          Status st = load(dir + "/data.yaml", r);
          identify(c, r, "after the refused save");
          c.outcome(st == LOADED ? "earlier set" : "none");
          c.eval();
        }
  });
  for (int n = 1; n <= 3; ++n)
    s.add("fault/" + str(n), [=](vf::Ctx& c) {
      std::vector<std::string> files = { "data.yaml" }, dirs = { "", "images", "poses" };
      for (int i = 0; i < n; ++i)
      {
        files.push_back("images/" + str(i) + ".png");
        files.push_back("poses/" + str(i) + ".yaml");
      }
      auto check = [&](const std::string& dir, const std::string& what) {
        bool ok = save(dir, dataSet(1, n));
        c.eval();
        c.require(!ok, what, ": saving reports failure");
        ExtrinsicDataSet r;
        if (fs::is_regular_file(dir + "/data.yaml") && load(dir + "/data.yaml", r) == LOADED)
          for (auto& e : identify(c, r, what))
            c.require(e.first == 1, what, ": entries of the new set");
      };
      for (auto& f : files)
      {
        {  // a directory is in the way: opening fails
          Scratch t;
          std::string dir = t.dir + "/set";
          fs::create_directories(dir + "/" + f + "/x");
          check(dir, "blocked " + f);
        }
        if (f.find("png") == std::string::npos)
        {  // the device is full
          Scratch t;
          std::string dir = t.dir + "/set";
          fs::create_directories(dir + "/images");
          fs::create_directories(dir + "/poses");
          fs::create_symlink("/dev/full", dir + "/" + f);
          bool ok = save(dir, dataSet(1, n));
          ExtrinsicDataSet r;
          std::error_code ec;
          bool link = fs::is_symlink(dir + "/" + f, ec);
          c.eval();
          if (link)  // (an implementation may replace the file)
            c.require(!ok, "full device at ", f, ": saving reports failure");
          else if (ok)
            c.require(load(dir + "/data.yaml", r) == LOADED && identify(c, r, "replaced file") == all(1, n), "replaced file");
        }
      }
      for (auto& d : dirs)
      {  // a file is in the place of a directory
        Scratch t;
        std::string dir = t.dir + "/set";
        if (d.empty())
          put(dir, "x");
        else
        {
          fs::create_directories(dir);
          put(dir + "/" + d, "x");
        }
        check(dir, "file in place of directory '" + d + "'");
      }
      for (int k = 0; k < n; ++k)
        for (int how = 0; how < 2; ++how)
        {
          Scratch t;
          crash::imwrites = 0;
          (how ? crash::throwImage : crash::failImage) = k;
          bool ok = save(t.dir + "/set", dataSet(1, n));
          long used = crash::imwrites;
          crash::throwImage = crash::failImage = -1;
          c.eval();
          if (used > k)
            c.require(!ok, "failing image ", k, ": saving reports failure");
        }
      {  // missing parent
        Scratch t;
        check(t.dir + "/no/such", "missing parent");
      }
      {  // empty image
        Scratch t;
        ExtrinsicDataSet d = dataSet(1, n);
        d.images[n / 2] = cv::Mat();
        c.require(!save(t.dir + "/set", d), "empty image: saving reports failure");
      }
    });
  // ---------------------------------------------------------------- crash points
  for (int before = 0; before <= 4; ++before)
    for (int n = 0; n <= (T ? 5 : 3); ++n)
      s.add("crash/" + (before ? str(before - 1) : "none") + "-" + str(n), [=](vf::Ctx& c) {
        for (int cut = 0; cut < 4; ++cut)
          for (long at = 0;; ++at)
          {
            c.require(at < 1000, "saving ends");
            Scratch t;
            std::string dir = t.dir + "/set";
            if (before)
              c.require(save(dir, dataSet(0, before - 1)), "saving");
            pid_t pid = fork();
            if (pid == 0)
            {
              crash::at = at, crash::cut = cut, crash::count = 0, crash::armed = true;
              save(dir, dataSet(1, n));
              _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            std::string what = "crash at operation " + str(at) + " torn " + str(cut);
            c.require(WIFEXITED(st), what, ": ", WIFSIGNALED(st) ? "killed" : "ended");
            ExtrinsicDataSet r;
            Status l = load(dir + "/data.yaml", r);
            auto got = identify(c, r, what);
            bool done = WEXITSTATUS(st) == 0;
            c.eval();
            c.outcome(done ? "no crash" : l == REFUSED ? "crash: refused" : "crash: " + str(got.size()) + " entries");
            if (done)
            {
              c.require(l == LOADED && got == all(1, n), what, ": complete save loads");
              break;
            }
            for (auto& e : got)
              c.require(e.first == got[0].first, what, ": entries of one set only");
            // and the next save repairs it
            if (cut == 2)
              c.require(save(dir, dataSet(2, 2)) && load(dir + "/data.yaml", r) == LOADED && identify(c, r, what) == all(2, 2), what, ": saving again gives the new set");
          }
      });
  // ---------------------------------------------------------------- histories
  {
    const std::vector<std::string> ops = { "save2", "save3", "save0", "mismatch", "dropimage0", "breakpose1", "truncimage1", "droppose0" };
    const int D = T ? 5 : 4, K = ops.size();
    for (int first = 0; first < K; ++first)
      s.add("history/" + ops[first], [=](vf::Ctx& c) {
        long total = 1;
        for (int i = 1; i < D; ++i)
          total *= K;
        for (long code = 0; code < total; ++code)
        {
          Scratch t;
          std::string dir = t.dir + "/set", hist;
          bool any = false, unsure = false;
          std::vector<std::pair<int, int>> model;  // entries that load
          std::set<int> noImage, noPose;
          int version = -1, size = 0;
          long rest = code;
          for (int step = 0; step < D; ++step)
          {
            int op = step == 0 ? first : rest % K;
            if (step)
              rest /= K;
            hist += " " + ops[op];
            if (op <= 2)
            {
              int n = op == 0 ? 2 : op == 1 ? 3 : 0;
              version = step % 4, size = n;
              c.require(save(dir, dataSet(version, n)), hist, ": saving succeeds");
              any = true, unsure = false;
              noImage.clear(), noPose.clear();
            }
            else if (op == 3)
            {
              ExtrinsicDataSet d = dataSet(3, 2);
              d.tool_poses.pop_back();
              c.require(!save(dir, d), hist, ": mismatched set is refused");
              unsure = true;  // the earlier set may be gone, but must not be mixed up
            }
            else
            {
              std::string f = dir + (op == 4 ? "/images/0.png" : op == 5 ? "/poses/1.yaml" : op == 6 ? "/images/1.png" : "/poses/0.yaml");
              std::error_code ec;
              if (!fs::exists(f))
                continue;
              int i = op == 4 || op == 7 ? 0 : 1;
              if (op == 4 || op == 7)
                fs::remove(f, ec);
              else if (op == 5)
                put(f, "x: 1\ny: [\n");
              else
                fs::resize_file(f, 20, ec);
              (op == 4 || op == 6 ? noImage : noPose).insert(i);
            }
            ExtrinsicDataSet r;
            ros_stub::log() = {};
            Status l = load(dir + "/data.yaml", r);
            c.eval();
            c.transition();
            auto got = identify(c, r, hist);
            if (!any)
            {
              c.require(l == REFUSED, hist, ": nothing was saved");
              continue;
            }
            if (unsure && l == REFUSED)
              continue;
            model.clear();
            for (int i = 0; i < size; ++i)
              if (!noImage.count(i) && !noPose.count(i))
                model.emplace_back(version, i);
            c.require(l == LOADED && got == model, hist, ": ", got.size(), " entries, expected ", model.size());
            c.require(ros_stub::log().warn + ros_stub::log().error >= (long)(size - model.size()), hist, ": every skipped entry is reported");
          }
        }
      });
  }
  // ---------------------------------------------------------------- hand-written sets
  {
    const std::vector<std::string> st = { "ok", "noimage", "nopose", "badimage", "badpose", "shortpose", "imagekey", "posekey", "both", "shared" };
    const int K = st.size();
    for (int n = 1; n <= 3; ++n)
      for (int first = 0; first < K; ++first)
        s.add("entries/" + str(n) + "-" + st[first], [=](vf::Ctx& c) {
          long total = 1;
          for (int i = 1; i < n; ++i)
            total *= K;
          for (long code = 0; code < total; ++code)
            for (int style = 0; style < 2; ++style)
            {
              Scratch t;
              fs::create_directories(t.dir + "/deep/er");
              std::string text, what;
              std::vector<std::pair<int, int>> want;
              bool keyless = false;
              int skipped = 0;
              long rest = code;
              for (int i = 0; i < n; ++i)
              {
                int k = i == 0 ? first : rest % K;
                if (i)
                  rest /= K;
                what += " " + st[k];
                std::string im = (i % 2 ? "deep/er/i m" : "") + str(i) + ".png", po = (i % 2 ? "" : "deep/p") + str(i) + ".yaml";
                if (k != 1 && k != 8)
                  cv::imwrite(t.dir + "/" + im, image(1, i));
                if (k == 3)
                  put(t.dir + "/" + im, "not an image");
                if (k != 2 && k != 8)
                  put(t.dir + "/" + po, k == 4 ? "x: [1\n" : k == 5 ? "x: 1\ny: 2\nz: 3\n" : poseText(pose(1, i)));
                if (k == 9)
                {  // names the first entry's image once more, with its pose
                  im = "again.png", po = "again.yaml";
                  cv::imwrite(t.dir + "/again.png", image(1, 7));
                  put(t.dir + "/again.yaml", poseText(pose(1, 7)));
                }
                std::string kim = k == 6 ? "" : "image: " + im, kpo = k == 7 ? "" : "pose: " + po;
                if (style)
                  text += "- {" + kim + (k != 6 && k != 7 ? ", " : "") + kpo + "}\n";
                else
                  text += "- " + (k == 6 ? kpo : kim) + "\n" + (k == 6 || k == 7 ? "" : "  " + kpo + "\n");
                keyless |= k == 6 || k == 7;
                if (k == 0)
                  want.emplace_back(1, i);
                else if (k == 9)
                  want.emplace_back(1, 7);
                else
                  ++skipped;
              }
              put(t.dir + "/set.yaml", text);
              ExtrinsicDataSet r;
              ros_stub::log() = {};
              Status l = load(t.dir + "/set.yaml", r);
              c.eval();
              auto got = identify(c, r, what);
              if (keyless)
              {
                c.require(l == REFUSED, what, ": an entry without image or pose is refused");
                c.require(ros_stub::log().error > 0, what, ": the refusal is reported");
              }
              else
              {
                c.require(l == LOADED && got == want, what, ": exactly the complete entries load, got ", got.size());
                c.require(ros_stub::log().warn + ros_stub::log().error >= skipped, what, ": every skipped entry is reported");
              }
              c.outcome(l == REFUSED ? "refused" : str(got.size()) + " loaded");
            }
        });
  }
  // every kind of image that cameras deliver loads as the 8 bit colour image that finders work on, in every order of kinds
  s.add("load/image-kinds", [=](vf::Ctx& c) {
    const std::vector<std::pair<int, std::string>> kinds = { { CV_8UC3, ".png" }, { CV_8UC1, ".png" }, { CV_8UC4, ".png" }, { CV_16UC1, ".png" }, { CV_16UC3, ".png" },
                                                             { CV_8UC3, ".bmp" }, { CV_8UC1, ".pgm" }, { CV_8UC3, ".tiff" } };
    for (auto& k : tuples(kinds.size(), 3))
    {
      Scratch t;
      std::string text;
      std::vector<cv::Mat> want;
      for (int i = 0; i < 3; ++i)
      {
        auto& [type, ext] = kinds[k[i]];
        cv::Mat m = image(1, i), w, o;
        if (CV_MAT_CN(type) == 1)
        {
          cv::extractChannel(image(1, i), m, 1);
          cv::cvtColor(m, w, cv::COLOR_GRAY2BGR);
        }
        else
          w = m;
        if (CV_MAT_CN(type) == 4)
          cv::cvtColor(w, m, cv::COLOR_BGR2BGRA);
        m.convertTo(o, CV_MAT_DEPTH(type), CV_MAT_DEPTH(type) == CV_16U ? 256 : 1, CV_MAT_DEPTH(type) == CV_16U ? 7 : 0);
        const std::string name = str(i) + ext;
        if (!cv::imwrite(t.dir + "/" + name, o))
          throw std::runtime_error("cannot prepare " + name);
        put(t.dir + "/" + str(i) + ".yaml", poseText(pose(1, i)));
        text += "- image: " + name + "\n  pose: " + str(i) + ".yaml\n";
        want.push_back(w.clone());
      }
      put(t.dir + "/set.yaml", text);
      ExtrinsicDataSet r;
      Status l = load(t.dir + "/set.yaml", r);
      c.eval();
      c.require(l == LOADED && r.images.size() == 3 && r.tool_poses.size() == 3, "images of every kind load");
      for (int i = 0; i < 3; ++i)
      {
        c.require(r.images[i].type() == CV_8UC3, "image of kind ", k[i], " loads with 8 bits in colour");
        c.require(r.images[i].size() == want[i].size() && cv::norm(r.images[i], want[i], cv::NORM_INF) <= 1, "image of kind ", k[i], " loads with its content");
        c.require(samePose(r.tool_poses[i], pose(1, i)), "image of kind ", k[i], " comes with its pose");
      }
    }
  });
  s.add("documents", [=](vf::Ctx& c) {
    Scratch t;
    fs::create_directories(t.dir + "/images");
    for (auto& d : std::vector<std::pair<std::string, bool>>{ { "", true }, { "~", true }, { "[]", true }, { "hello", false }, { "7", false }, { "a: 1", false }, { "image: x\npose: y\n", false },
                                                              { "- 1\n", false }, { "- [a, b]\n", false }, { "- image: [a]\n  pose: b\n", false }, { "- image: {a: b}\n  pose: b\n", false }, { "[", false },
                                                              { "- image: a\n pose: b", false }, { "{}", true } })
    {
      put(t.dir + "/d.yaml", d.first);
      ExtrinsicDataSet r;
      Status l = load(t.dir + "/d.yaml", r);
      c.eval();
      c.require(r.images.empty() && r.tool_poses.empty(), "no entries from '", d.first, "'");
      c.require(d.second || l == REFUSED, "document '", d.first, "' is refused");
    }
    ExtrinsicDataSet r;
    for (std::string p : { "/none.yaml", "", "/images", "/no/such/d.yaml" })
      c.require(load(t.dir + p, r) == REFUSED, "path '", p, "' is refused");
  });
  // ---------------------------------------------------------------- every truncation
  for (std::string f : { "data.yaml", "images/1.png", "poses/1.yaml" })
    for (int part = 0; part < 4; ++part)
      s.add("torn/" + f + "-" + str(part), [=](vf::Ctx& c) {
        Scratch t;
        std::string dir = t.dir + "/set";
        c.require(save(dir, dataSet(1, 3)), "saving");
        std::string full = get(dir + "/" + f);
        c.require(full.size() > 20, "file is there");
        for (size_t n = part; n < full.size(); n += 4)
        {
          put(dir + "/" + f, full.substr(0, n));
          ExtrinsicDataSet r;
          Status l = load(dir + "/data.yaml", r);
          std::string what = f + " cut at " + str(n);
          c.eval();
          c.require(r.images.size() == r.tool_poses.size(), what, ": as many images as poses");
          if (f == "poses/1.yaml")
          {
            // the values in the text decide
            std::map<std::string, double> v;
            std::istringstream in(full.substr(0, n));
            std::string key, val;
            while (in >> key)
            {
              char* e;
              double x = in >> val ? std::strtod(val.c_str(), &e) : NAN;
              if (val.empty() || *e || !std::isfinite(x))
                break;
              v[key] = x;
              val.clear();
            }
            bool whole = v.size() == 7;
            c.require(l == LOADED, what, ": the other entries load");
            c.require(r.images.size() == (whole ? 3u : 2u), what, ": the entry ", whole ? "loads" : "is skipped", ", got ", r.images.size());
            for (size_t i = 0; i < r.images.size(); ++i)
            {
              int e = r.images.size() == 2 && i == 1 ? 2 : i;
              c.require(sameImage(r.images[i], image(1, e)), what, ": image ", e);
              if (e != 1)
                c.require(samePose(r.tool_poses[i], pose(1, e)), what, ": pose ", e);
              else
                c.require((r.tool_poses[i].translation() - V3(v["x:"], v["y:"], v["z:"])).norm() < 1e-12, what, ": pose of the file");
            }
          }
          else if (f == "images/1.png")
          {
            c.require(l == LOADED && r.images.size() >= 2 && r.images.size() <= 3, what, ": the other entries load");
            c.require(sameImage(r.images[0], image(1, 0)) && samePose(r.tool_poses[0], pose(1, 0)), what, ": entry 0");
            c.require(sameImage(r.images.back(), image(1, 2)) && samePose(r.tool_poses.back(), pose(1, 2)), what, ": entry 2");
            if (r.images.size() == 3)  // the image library decides what is readable
              c.require(samePose(r.tool_poses[1], pose(1, 1)), what, ": pose of entry 1");
          }
          else
          {
            auto got = identify(c, r, what);
            c.require(got.size() <= 3 && (l == LOADED || got.empty()), what, ": at most the saved entries");
            for (size_t i = 0; i < got.size(); ++i)
              c.require(got[i] == std::make_pair(1, int(i)), what, ": entries in order");
          }
          c.outcome(l == REFUSED ? "refused" : str(r.images.size()) + " loaded");
        }
      });
  // ---------------------------------------------------------------- found masks
  for (int cams = 0; cams <= 3; ++cams)
    for (int imgs = 0; imgs <= 4; ++imgs)
    {
      int cells = cams * imgs;
      if (cams == 0 && imgs > 0)
        continue;
      int base = cells <= (T ? 8 : 6) ? 4 : 2;
      if (cells > 9 && !T)
        continue;
      s.add("mask/" + str(cams) + "x" + str(imgs), [=](vf::Ctx& c) {
        long total = 1;
        for (int i = 0; i < cells; ++i)
          total *= base;
        for (long code = 0; code < total; ++code)
        {
          long rest = code;
          std::vector<std::vector<int>> b(cams, std::vector<int>(imgs));
          for (auto& r : b)
            for (auto& v : r)
              v = rest % base, rest /= base;
          mask(c, b, "pattern " + str(code));
        }
      });
    }
  s.add("mask/ragged", [=](vf::Ctx& c) {
    for (int a = 0; a <= 3; ++a)
      for (int b = 0; b <= 3; ++b)
        for (int d = -1; d <= 3; ++d)
          for (int beh = 0; beh < 3; ++beh)
          {
            std::vector<std::vector<int>> m = { std::vector<int>(a, beh == 1), std::vector<int>(b, beh == 2) };
            if (d >= 0)
              m.push_back(std::vector<int>(d, 0));
            mask(c, m, "images " + str(a) + "," + str(b) + "," + str(d));
          }
  });
  // ---------------------------------------------------------------- poses and intrinsics as parameters and files
  const std::vector<std::string> PK = { "x", "y", "z", "qx", "qy", "qz", "qw" }, IK = { "fx", "fy", "cx", "cy" };
  std::vector<Iso> poses;
  for (double a : { 0., 1e-9, 0.4, M_PI / 2, 3., M_PI, -2.2 })
    for (V3 ax : { V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, -2, 3) })
      poses.push_back(make(rot(ax, a), V3(a, -1e5, 1e-12)));
  auto qv = [](const Iso& p) {
    Eigen::Quaterniond q(p.linear());
    return std::vector<double>{ p.translation().x(), p.translation().y(), p.translation().z(), q.x(), q.y(), q.z(), q.w() };
  };
  s.add("params/pose", [=](vf::Ctx& c) {
    for (auto& p : poses)
      for (double sign : { 1., -1. })
      {
        ros::NodeHandle nh;
        XmlRpc::XmlRpcValue v;
        auto q = qv(p);
        for (int i = 0; i < 7; ++i)
          v[PK[i]] = i > 2 ? sign * q[i] : q[i];
        nh.setParam("p", v);
        Iso r = Iso::Identity();
        requireSame(c, loadPose(nh, "p"), p, 1e-12, 1e-8, "pose parameter");
        c.require(loadPose(nh, "p", r), "pose parameter loads");
        requireSame(c, r, p, 1e-12, 1e-8, "pose parameter");
        c.eval(2);
        // one key missing or ill-typed
        for (int i = 0; i < 7; ++i)
          for (int how = 0; how < 6; ++how)
          {
            XmlRpc::XmlRpcValue w;
            for (int j = 0; j < 7; ++j)
              if (j != i)
                w[PK[j]] = q[j];
              else if (how == 1)
                w[PK[j]] = 3;
              else if (how == 2)
                w[PK[j]] = "1.0";
              else if (how == 3)
                w[PK[j]] = true;
              else if (how == 4)
                w[PK[j]][0] = 1.0;
              else if (how == 5)
                w[PK[j]]["v"] = 1.0;
            nh.setParam("bad", w);
            c.require(throws([&] { loadPose(nh, "bad"); }), "pose parameter with fault ", how, " in ", PK[i], " is refused");
            r = poses[3];
            c.require(!loadPose(nh, "bad", r), "pose parameter with fault ", how, " in ", PK[i], " is refused without exception");
            c.require(samePose(r, poses[3]), "refused pose leaves the output alone");
            c.eval(2);
          }
        c.require(throws([&] { loadPose(nh, "other"); }) && !loadPose(nh, "other", r), "missing parameter is refused");
        nh.setParam("scalar", XmlRpc::XmlRpcValue(1.0));
        c.require(throws([&] { loadPose(nh, "scalar"); }) && !loadPose(nh, "scalar", r), "scalar parameter is refused");
      }
  });
  // a quaternion of any length, or one with a few digits, stands for its rotation
  for (bool file : { false, true })
    s.add(std::string(file ? "files" : "params") + "/pose-quaternion-length", [=](vf::Ctx& c) {
      Scratch t;
      for (auto& p : poses)
        for (double f : { 1e-3, 0.5, 0.999, 1.0001, -1.25, 40., 0. })
        {
          auto q = qv(p);
          for (int i = 3; i < 7; ++i)
            q[i] = f == 0 ? std::round(1000 * q[i]) / 1000 : f * q[i];
          if (f == 0 && Eigen::Vector3d(q[3], q[4], q[5]).norm() > 0 && Eigen::Vector3d(q[3], q[4], q[5]).norm() < 1e-3)
            continue;
          Iso want = p, r = poses[3];
          want.linear() = Eigen::Quaterniond(q[6], q[3], q[4], q[5]).normalized().toRotationMatrix();
          ros::NodeHandle nh;
          XmlRpc::XmlRpcValue v;
          std::ostringstream ss;
          ss.precision(17);
          for (int i = 0; i < 7; ++i)
          {
            v[PK[i]] = q[i];
            ss << PK[i] << ": " << q[i] << "\n";
          }
          nh.setParam("p", v);
          put(t.dir + "/p.yaml", ss.str());
          requireSame(c, file ? loadPose(t.dir + "/p.yaml") : loadPose(nh, "p"), want, 1e-12, 1e-8, "pose with a quaternion of another length");
          c.require(file ? loadPose(t.dir + "/p.yaml", r) : loadPose(nh, "p", r), "pose with a quaternion of another length loads");
          requireSame(c, r, want, 1e-12, 1e-8, "pose with a quaternion of another length");
          c.eval(2);
        }
    });
  s.add("params/intrinsics", [=](vf::Ctx& c) {
    std::vector<double> vals = { 0.5, 1411.25, -3, 1e6 };
    for (auto& k : tuples(vals.size(), 4))
    {
      ros::NodeHandle nh;
      XmlRpc::XmlRpcValue v;
      for (int i = 0; i < 4; ++i)
        v[IK[i]] = vals[k[i]];
      nh.setParam("p", v);
      rct_optimizations::CameraIntrinsics r = loadIntrinsics(nh, "p"), r2;
      c.require(loadIntrinsics(nh, "p", r2), "intrinsics parameter loads");
      for (auto* q : { &r, &r2 })
        c.require(q->fx() == vals[k[0]] && q->fy() == vals[k[1]] && q->cx() == vals[k[2]] && q->cy() == vals[k[3]], "intrinsics parameter");
      c.eval(2);
      for (int i = 0; i < 4; ++i)
        for (int how = 0; how < 4; ++how)
        {
          XmlRpc::XmlRpcValue w;
          for (int j = 0; j < 4; ++j)
            if (j != i)
              w[IK[j]] = vals[k[j]];
            else if (how == 1)
              w[IK[j]] = 3;
            else if (how == 2)
              w[IK[j]] = "1.0";
            else if (how == 3)
              w[IK[j]]["v"] = 1.0;
          nh.setParam("bad", w);
          for (double& q : r2.values)
            q = 77.25;
          r.values = r2.values;
          c.require(throws([&] { loadIntrinsics(nh, "bad"); }) && !loadIntrinsics(nh, "bad", r2), "intrinsics parameter with fault ", how, " in ", IK[i], " is refused");
          c.require(r2.values == r.values, "refused intrinsics leave the output alone");
        }
    }
  });
  s.add("files/pose", [=](vf::Ctx& c) {
    Scratch t;
    std::string f = t.dir + "/p.yaml";
    for (auto& p : poses)
    {
      put(f, poseText(p));
      Iso r;
      requireSame(c, loadPose(f), p, 1e-12, 1e-8, "pose file");
      c.require(loadPose(f, r), "pose file loads");
      requireSame(c, r, p, 1e-12, 1e-8, "pose file");
      c.eval(2);
      auto q = qv(p);
      for (int i = 0; i < 7; ++i)
        for (std::string bad : { "-", "abc", "[1]", "{a: 1}", "~", "''" })
        {
          std::ostringstream ss;
          ss.precision(17);
          for (int j = 0; j < 7; ++j)
            if (j != i)
              ss << PK[j] << ": " << q[j] << "\n";
            else if (bad != "-")
              ss << PK[j] << ": " << bad << "\n";
          put(f, ss.str());
          r = poses[3];
          c.require(throws([&] { loadPose(f); }) && !loadPose(f, r), "pose file with ", bad, " for ", PK[i], " is refused");
          c.require(samePose(r, poses[3]), "refused pose leaves the output alone");
          c.eval(2);
        }
    }
    Iso r;
    c.require(throws([&] { loadPose(t.dir); }), "directory in place of a pose file is refused");
    {
      std::string bad = "/none";
      c.require(!loadPose(t.dir + bad, r), "unreadable pose file is refused");
      bool named = false;
      try
      {
        loadPose(t.dir + bad);
      }
      catch (const BadFileException&)
      {
        named = true;
      }
      c.require(named, "unreadable pose file is reported as such");
    }
  });
  s.add("files/intrinsics", [=](vf::Ctx& c) {
    Scratch t;
    std::string f = t.dir + "/i.yaml";
    std::vector<double> vals = { 0.5, 1411.25, -3, 1e6 };
    for (auto& k : tuples(vals.size(), 4))
    {
      std::ostringstream ss;
      for (int i = 0; i < 4; ++i)
        ss << IK[i] << ": " << vals[k[i]] << "\n";
      put(f, ss.str());
      rct_optimizations::CameraIntrinsics r = loadIntrinsics(f), r2;
      c.require(loadIntrinsics(f, r2) && r.values == r2.values, "intrinsics file loads");
      c.require(r.fx() == vals[k[0]] && r.fy() == vals[k[1]] && r.cx() == vals[k[2]] && r.cy() == vals[k[3]], "intrinsics file");
      c.eval(2);
      for (int i = 0; i < 4; ++i)
        for (std::string bad : { "-", "abc", "[1]", "~" })
        {
          std::ostringstream s2;
          for (int j = 0; j < 4; ++j)
            if (j != i)
              s2 << IK[j] << ": " << vals[k[j]] << "\n";
            else if (bad != "-")
              s2 << IK[j] << ": " << bad << "\n";
          put(f, s2.str());
          for (double& q : r2.values)
            q = 77.25;
          r.values = r2.values;
          c.require(throws([&] { loadIntrinsics(f); }) && !loadIntrinsics(f, r2), "intrinsics file with ", bad, " for ", IK[i], " is refused");
          c.require(r2.values == r.values, "refused intrinsics leave the output alone");
        }
    }
    rct_optimizations::CameraIntrinsics r;
    c.require(!loadIntrinsics(t.dir + "/none", r) && throws([&] { loadIntrinsics(t.dir + "/none"); }), "unreadable intrinsics file is refused");
  });
}

// LIBS: img ros
// C25: the data collection node under every history of images, robot poses, service calls and faults.
#include "kit.h"
#include <cstring>
#include <filesystem>
#include <fstream>
#include <boost/make_shared.hpp>
#include <image_transport/image_transport.h>
#include <opencv2/imgproc.hpp>
#include <pluginlib/class_list_macros.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/ros.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>

using namespace kit;
namespace fs = std::filesystem;

int data_collection_main(int argc, char** argv);

// ------------------------------------------------------------------ images
// a picture carries its number in its pixels
static const int W = 24, H = 18;
static int salt = 0;  // pictures of the same number still differ
static cv::Mat picture(int n)
{
  cv::Mat m(H, W, CV_8UC3);
  for (int y = 0; y < H; ++y)
    for (int x = 0; x < W; ++x)
      m.at<cv::Vec3b>(y, x) = cv::Vec3b((7 * x + 3 * y + 11 * n + salt) % 251, (5 * x + 13 * y + 29 * n) % 251, (17 * x + y + 41 * n + 3 * salt) % 251);
  m.at<cv::Vec3b>(0, 0) = cv::Vec3b(n, n, n);
  return m;
}
static cv::Mat grey(int n)
{
  cv::Mat m(H, W, CV_8UC1);
  for (int y = 0; y < H; ++y)
    for (int x = 0; x < W; ++x)
      m.at<uchar>(y, x) = (7 * x + 13 * y + 29 * n + salt) % 251;
  m.at<uchar>(0, 0) = n;
  return m;
}
static sensor_msgs::ImagePtr message(const cv::Mat& m, const std::string& encoding, int pad = 0)
{
  auto r = boost::make_shared<sensor_msgs::Image>();
  r->encoding = encoding;
  r->header.stamp = ros::Time::now();
  r->header.frame_id = "camera";
  r->height = m.rows, r->width = m.cols;
  r->step = m.cols * m.elemSize() + pad;
  r->data.assign(size_t(r->height) * r->step, 77);
  for (int y = 0; y < m.rows; ++y)
    std::memcpy(r->data.data() + size_t(y) * r->step, m.ptr(y), m.cols * m.elemSize());
  return r;
}
static cv::Mat content(const sensor_msgs::Image& m)
{
  int type = m.encoding == "bgr8" ? CV_8UC3 : m.encoding == "mono8" ? CV_8UC1 : -1;
  if (type < 0 || m.data.size() != size_t(m.height) * m.step)
    return cv::Mat();
  return cv::Mat(m.height, m.width, type, const_cast<uint8_t*>(m.data.data()), m.step ? m.step : cv::Mat::AUTO_STEP).clone();
}
static bool same(const cv::Mat& a, const cv::Mat& b) { return a.size() == b.size() && a.type() == b.type() && (a.empty() || cv::norm(a, b, cv::NORM_INF) == 0); }

// ------------------------------------------------------------------ a finder that knows the pictures
static const int NO_TARGET = 100, ODD = 120, STRANGE = 140;  // numbers from which on the finder throws ...
struct AnyTarget : rct_image_tools::Target
{
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures&) const override { return {}; }
};
static cv::Mat annotated(const cv::Mat& m)
{
  cv::Mat r = m.clone();
  cv::circle(r, cv::Point(W / 2, H / 2), 4, cv::Scalar(0, 0, 255), 2);
  return r;
}
struct Scripted : rct_ros_tools::TargetFinderPlugin
{
  AnyTarget t;
  void init(const YAML::Node& n) override
  {
    if (!n["ok"])
      throw std::runtime_error("incomplete target configuration");
  }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    if (image.empty())
      CV_Error(cv::Error::StsBadArg, "empty image");
    int n = image.channels() == 3 ? image.at<cv::Vec3b>(0, 0)[0] : image.at<uchar>(0, 0);
    if (n >= STRANGE)
      throw std::logic_error("cannot handle this image");
    if (n >= ODD)
      CV_Error(cv::Error::StsBadArg, "cannot handle this image");
    if (n >= NO_TARGET)
      throw std::runtime_error("no target in the image");
    rct_image_tools::TargetFeatures f;
    f[0].push_back(Eigen::Vector2d(n, 1));
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const rct_image_tools::TargetFeatures& f) const override
  {
    // draws into the image that it is given, as a plugin may
    cv::Mat m = image;
    annotated(m).copyTo(m);
    return m;
  }
  const rct_image_tools::Target& target() const override { return t; }
};
PLUGINLIB_EXPORT_CLASS(Scripted, rct_ros_tools::TargetFinderPlugin)

// ------------------------------------------------------------------ the system around the node
struct Scratch
{
  std::string dir;
  Scratch()
  {
    char t[] = "/tmp/vf-c25-XXXXXX";
    if (!mkdtemp(t))
      throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    std::error_code ec;
    if (dir.rfind("/tmp/vf-c25-", 0) == 0)
      fs::remove_all(dir, ec);
  }
};
static Iso robot(int n) { return make(V3(1, 0.3 * n, -0.5), 0.4 + 0.37 * n, V3(0.1 * n, -0.2 + 0.05 * n, 1.1 - 0.03 * n)); }
static const std::string NODE_TOPIC = "camera/image";

static void params(const std::string& dir)
{
  auto p = std::make_shared<std::map<std::string, XmlRpc::XmlRpcValue>>();
  (*p)["base_frame"] = std::string("base");
  (*p)["tool_frame"] = std::string("tool");
  (*p)["image_topic"] = NODE_TOPIC;
  (*p)["save_dir"] = dir;
  XmlRpc::XmlRpcValue f;
  f["type"] = std::string("Scripted");
  f["ok"] = 1;
  (*p)["target_finder"] = f;
  ros_stub::parameters = p;
}

struct Shot
{
  cv::Mat image;
  Iso pose;
};
struct World
{
  std::string dir, problem;
  // robot
  bool known = true;
  int pose = 0;
  // what the node is expected to hold
  bool any = false;
  cv::Mat last;
  std::vector<Shot> shots;
  int images = 0;
  bool broken = false;
  std::string trail;

  void expect(bool ok, const std::string& what)
  {
    if (!ok && problem.empty())
      problem = "after '" + trail + "': " + what;
  }
  bool transform(const std::string& a, const std::string& b, double (&x)[3], double (&q)[4])
  {
    if (!known || !((a == "base" && b == "tool") || (a == "tool" && b == "base")))
      return false;
    Iso p = robot(pose);
    if (a == "tool")
      p = inv(p);
    Eigen::Quaterniond r(p.linear());
    for (int i = 0; i < 3; ++i)
      x[i] = p.translation()[i];
    q[0] = r.x(), q[1] = r.y(), q[2] = r.z(), q[3] = r.w();
    return true;
  }
  void image(const sensor_msgs::ImagePtr& m, const cv::Mat& means, bool found)
  {
    auto& out = ros_stub::bus.published[NODE_TOPIC + "_observer"];
    size_t before = out.size();
    sensor_msgs::Image copy = *m;
    long errors = ros_stub::log().error;
    ros_stub::bus.images.at(NODE_TOPIC)(m);
    expect(copy.data == m->data && copy.step == m->step && copy.encoding == m->encoding, "the received message is not changed");
    if (means.empty())
    {
      expect(out.size() == before, "an image that cannot be read is not shown");
      expect(ros_stub::log().error > errors, "an image that cannot be read is reported");
      return;
    }
    any = true;
    last = means;
    expect(out.size() == before + 1, "every image is shown once");
    if (out.size() == before + 1)
      expect(same(content(*out.back()), found ? annotated(means) : means), found ? "the image is shown with the features found in it" : "the image is shown as it is");
    if (!found)
      expect(ros_stub::log().error > errors, "a missing target is reported");
  }
  void save()
  {
    bool r = ros_stub::bus.services.at("save")();
    expect(r == !broken, broken ? "failed saving is reported to the caller" : "saving succeeds");
    if (broken)
      return;
    auto set = rct_ros_tools::parseFromFile(dir + "/data.yaml");
    expect(bool(set), "the saved data set can be read");
    if (!set)
      return;
    expect(set->images.size() == shots.size() && set->tool_poses.size() == shots.size(),
           "the saved data set has " + str(set->images.size()) + " entries instead of " + str(shots.size()));
    for (size_t i = 0; i < shots.size() && i < set->images.size(); ++i)
    {
      expect(same(set->images[i], shots[i].image), "entry " + str(i) + " has the image that was current when it was collected");
      expect((set->tool_poses[i].matrix() - shots[i].pose.matrix()).norm() < 2e-5, "entry " + str(i) + " has the pose of the robot when it was collected");
    }
  }
  void step(char op)
  {
    trail += op;
    ros::Time::clock = 100 + trail.size();
    const int n = 1 + images++ % 19;  // (the numbers tell the finder what to do)
    salt = images;
    switch (op)
    {
      case 'A':  // colour image with a target
      {
        cv::Mat m = picture(n);
        return image(message(m, "bgr8"), m, true);
      }
      case 'a':  // the same with padded rows
      {
        cv::Mat m = picture(n);
        return image(message(m, "bgr8", 5), m, true);
      }
      case 'B':  // without a target
      {
        cv::Mat m = picture(NO_TARGET + n);
        return image(message(m, "bgr8"), m, false);
      }
      case 'C':  // the finder fails in another way
      case 'c':
      {
        cv::Mat m = picture((op == 'C' ? ODD : STRANGE) + n);
        return image(message(m, "bgr8"), m, false);
      }
      case 'R':  // other order of the colours
      {
        cv::Mat m = picture(n), s;
        cv::cvtColor(m, s, cv::COLOR_BGR2RGB);
        return image(message(s, "rgb8"), m, true);
      }
      case 'G':  // grey
      {
        cv::Mat g = grey(n), m;
        cv::cvtColor(g, m, cv::COLOR_GRAY2BGR);
        return image(message(g, "mono8"), m, true);
      }
      case 'M':  // grey with 16 bits (the values fit 8 bits; how larger values are shown is not prescribed)
      case 'm':
      {
        cv::Mat g = grey(op == 'M' ? n : NO_TARGET + n), g16, m;
        g.convertTo(g16, CV_16U);
        cv::cvtColor(g, m, cv::COLOR_GRAY2BGR);
        return image(message(g16, "mono16"), m, op == 'M');
      }
      case 'X':  // unknown encoding
        return image(message(picture(n), "strange"), cv::Mat(), false);
      case 'S':  // truncated
      case 's':
      {
        auto m = op == 'S' ? message(picture(n), "bgr8") : message(cv::Mat(H, W, CV_16U, cv::Scalar(9)), "mono16");
        m->data.resize(m->data.size() - 3);
        return image(m, cv::Mat(), false);
      }
      case 'E':  // empty
      case 'e':
        return image(message(cv::Mat(0, 0, op == 'E' ? CV_8UC3 : CV_16U), op == 'E' ? "bgr8" : "mono16"), cv::Mat(), false);
      case 'P':  // the robot moves
        known = true;
        ++pose;
        ros_stub::bus.transform_stamp = ros::Time::clock;
        return;
      case 'N':  // its pose gets lost
        known = false;
        return;
      case 'T':
      {
        bool ok = known && any;
        bool r = ros_stub::bus.services.at("collect")();
        expect(r == ok, ok ? "a pair is collected" : "nothing can be collected, which the caller is told");
        if (ok)
          shots.push_back({ last.clone(), robot(pose) });
        return;
      }
      case 'V':
        return save();
      case 'F':  // the directory cannot be written / can be written again
        if (!broken)
        {
          fs::remove_all(dir);
          std::ofstream(dir) << "in the way";
        }
        else
          fs::remove(dir);
        broken = !broken;
        return;
    }
  }
};
static void quiet()
{
  ros_stub::bus = ros_stub::Bus();
  ros_stub::bus.transform_stamp = ros::Time::clock = 100;
}
static void history(vf::Ctx& c, const std::string& ops, bool trace = true)
{
  Scratch t;
  World w;
  w.dir = t.dir + "/set";
  params(w.dir);
  quiet();
  bool spun = false, finished = false;
  ros_stub::bus.transform = [&](const std::string& a, const std::string& b, double (&x)[3], double (&q)[4]) { return w.transform(a, b, x, q); };
  ros_stub::bus.spin = [&] {
    spun = true;
    for (char op : ops)
      w.step(op);
    finished = true;
  };
  char name[] = "node", *argv[] = { name, nullptr };
  int r = data_collection_main(1, argv);
  quiet();
  c.require(w.problem.empty(), ops, ": ", w.problem);
  c.require(spun, ops, ": the node starts");
  c.require(finished, ops, ": the node went down after '", w.trail, "': ", ros_stub::log().last);
  c.require(r == 0, ops, ": exit code ", r);
  c.eval();
  c.trace();
  c.transition(ops.size());
  uint64_t h = 1469598103934665603ull;
  for (auto& s : w.shots)
    h = vf::mix(h, vf::hashStr(std::string((char*)s.image.data, s.image.total() * s.image.elemSize())) ^ (uint64_t)(s.pose.translation().x() * 1000));
  c.state(vf::mix(h, w.any * 8 + w.known * 4 + w.broken));
}
static void words(const std::string& letters, int depth, const std::function<void(const std::string&)>& f, const std::string& prefix = "")
{
  f(prefix);
  if (depth > 0)
    for (char l : letters)
      words(letters, depth - 1, f, prefix + l);
}

void vf::define(Suite& s)
{
  s.property = "C25";
  s.level = "model_checking";
  s.rule = "all histories of image messages (every kind of content and fault), robot motions and losses, collect and save calls and disk faults up to the depth; "
           "every incomplete start";
  s.assumptions = { "the middleware is represented by stand-ins for its headers; callbacks run one at a time, as ros::spin does",
                    "the target finder is a plugin of the harness (the real ones are judged by C18-C20)" };
  const bool T = s.thorough;
  // all letters
  const std::string all = "AaBCcRGMmXSsEePNTVF", few = "ABXPNTVF", core = "APTV";
  for (char first : all)
    for (char second : all)
      s.add(std::string("all/") + first + second, [=](Ctx& c) {
        words(all, T ? 2 : 1, [&](const std::string& w) {
          std::string x = std::string() + first + second + w;
          history(c, x + "TV");
          history(c, "AT" + x + "TV");
        });
      });
  for (char first : few)
    for (char second : few)
      s.add(std::string("few/") + first + second, [=](Ctx& c) {
        words(few, T ? 4 : 3, [&](const std::string& w) { history(c, std::string() + first + second + w + "TV"); });
      });
  for (char first : core)
    for (char second : core)
      s.add(std::string("core/") + first + second, [=](Ctx& c) {
        words(core, T ? 6 : 4, [&](const std::string& w) { history(c, std::string() + first + second + w + "V"); });
      });
  // many pairs
  s.add("many", [=](Ctx& c) {
    for (int n = 0; n <= (T ? 60 : 24); ++n)
    {
      std::string x;
      for (int i = 0; i < n; ++i)
        x += "APT";
      if (n == 24)
        for (int k = n; k < 105; ++k)
          x += "APT";
      history(c, x + "V");
      history(c, x + "VFVFV");
    }
  });
  // start
  const std::vector<std::string> names = { "base_frame", "tool_frame", "image_topic", "save_dir", "target_finder", "target_finder/type", "target_finder/ok" };
  for (size_t i = 0; i < names.size(); ++i)
    for (int kind = 0; kind < 3; ++kind)
      s.add("start/" + names[i] + "/" + std::string(kind == 0 ? "missing" : kind == 1 ? "number" : "unknown"), [=](Ctx& c) {
        Scratch t;
        params(t.dir + "/set");
        quiet();
        auto& p = *ros_stub::parameters;
        bool fails = true;
        size_t at = names[i].find('/');
        XmlRpc::XmlRpcValue v;
        if (kind == 1)
          v = 5;
        else
          v = std::string("unheard_of");
        if (at == std::string::npos)
        {
          if (kind == 0)
            p.erase(names[i]);
          else
            p[names[i]] = v;
          if (kind == 2 && (names[i] == "image_topic" || names[i] == "save_dir"))
            fails = false;
        }
        else
        {
          XmlRpc::XmlRpcValue f;
          if (names[i] != "target_finder/type")
            f["type"] = std::string("Scripted");
          if (names[i] != "target_finder/ok")
            f["ok"] = 1;
          if (kind)
          {
            f[names[i].substr(at + 1)] = v;
            if (names[i] == "target_finder/ok")
              fails = false;
          }
          p["target_finder"] = f;
        }
        bool spun = false;
        World w;
        ros_stub::bus.transform = [&](const std::string& a, const std::string& b, double (&x)[3], double (&q)[4]) { return w.transform(a, b, x, q); };
        ros_stub::bus.spin = [&] { spun = true; };
        char name[] = "node", *argv[] = { name, nullptr };
        long errors = ros_stub::log().error;
        int r = -1;
        bool terminated = false;  // by an exception of the parameter library, which is no std::exception
        try
        {
          r = data_collection_main(1, argv);
        }
        catch (const XmlRpc::XmlRpcException&)
        {
          terminated = true;
        }
        quiet();
        c.eval();
        c.outcome(terminated ? "start ended by the exception of an ill-typed parameter" : fails ? "start refused" : "start");
        c.require(spun == !fails, "the node ", fails ? "does not start" : "starts");
        c.require((r != 0) == fails, "exit code ", r);
        if (!terminated)
          c.require((ros_stub::log().error > errors) == fails, "the reason is reported");
      });
  s.add("start/no-pose", [=](Ctx& c) {
    Scratch t;
    params(t.dir + "/set");
    quiet();
    bool spun = false;
    ros_stub::bus.spin = [&] { spun = true; };
    char name[] = "node", *argv[] = { name, nullptr };
    int r = data_collection_main(1, argv);
    quiet();
    c.eval();
    c.require(!spun && r != 0, "a robot whose pose is not available is reported at the start");
  });
}

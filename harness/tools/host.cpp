// What a command-line tool finds around it when a check runs it: parameters from a file instead of the parameter server,
// log messages on standard output, and windows whose contents are stored instead of shown.
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <opencv2/core.hpp>
#include <ros/ros.h>
#include <yaml-cpp/yaml.h>

static XmlRpc::XmlRpcValue convert(const YAML::Node& n)
{
  XmlRpc::XmlRpcValue v;
  if (n.IsMap())
  {
    for (auto it : n)
      v[it.first.as<std::string>()] = convert(it.second);
  }
  else if (n.IsSequence())
  {
    v.setSize(n.size());
    for (size_t i = 0; i < n.size(); ++i)
      v[(int)i] = convert(n[i]);
  }
  else if (n.IsScalar())
  {
    std::string s = n.Scalar();
    int i;
    double d;
    if (n.Tag() == "!")
      return s;
    if (s == "true" || s == "false")
      return s == "true";
    if (s.find_first_of(".eEnN") == std::string::npos && YAML::convert<int>::decode(n, i))
      return i;
    if (YAML::convert<double>::decode(n, d))
      return d;
    return s;
  }
  return v;
}

static struct Setup
{
  Setup()
  {
    std::cout << std::unitbuf;
    ros_stub::sink = [](const char* kind, const std::string& text) { std::cout << "[" << kind << "] " << text << std::endl; };
    ros_stub::parameters = std::make_shared<std::map<std::string, XmlRpc::XmlRpcValue>>();
    if (const char* f = getenv("RCT_PARAMS"))
      for (auto it : YAML::LoadFile(f))
        (*ros_stub::parameters)[it.first.as<std::string>()] = convert(it.second);
  }
} setup;

namespace cv
{
typedef std::string Name;
void namedWindow(const Name&, int) {}
void destroyWindow(const Name&) {}
void destroyAllWindows() {}
int waitKey(int) { return -1; }
int waitKeyEx(int) { return -1; }
void imshow(const Name& window, InputArray image)
{
  static int n = 0;
  if (image.empty())
    throw Exception(Error::StsAssert, "size.width>0 && size.height>0", "imshow", __FILE__, __LINE__);
  const char* dir = getenv("RCT_DUMP");
  if (!dir)
    return;
  Mat m = image.getMat();
  if (!m.isContinuous())
    m = m.clone();
  std::ofstream f(std::string(dir) + "/frame" + std::to_string(n++), std::ios::binary);
  int head[4] = { m.rows, m.cols, m.type(), (int)window.size() };
  f.write((char*)head, sizeof head);
  f.write(window.data(), window.size());
  f.write((char*)m.data, m.total() * m.elemSize());
}
}  // namespace cv

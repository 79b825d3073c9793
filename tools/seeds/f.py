EX = "rct_examples/src/examples/kinematic_calibration.cpp"
KC = "rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp"
BUGS = []
def bug(**k): BUGS.append(k)
SH = """#!/bin/bash
# exit 0: the property holds for this demonstration; anything else: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=/tmp/rct-seed-{id}
mkdir -p $w
inc="-I$d/stubs -I$d/shim -Irct_ros_tools/include -Irct_common/include -Irct_optimizations/include -Irct_image_tools/include -I/usr/include/eigen3 -I/usr/include/opencv4"
for s in """ + EX + " " + KC + """ rct_ros_tools/src/parameter_loaders.cpp "$d/host.cpp"; do
  g++ -std=c++17 -O1 -w -include ros/ros.h $inc -c "$s" -o $w/$(basename "$s").o || exit 3 &
done
g++ -std=c++17 -O1 -w $inc "$d/demo.cpp" -o $w/demo || exit 3
wait
g++ $w/*.o -o $w/program -L_build -Wl,-rpath,"$PWD/_build" -lrct_image_tools -lrct_optimizations -lopencv_core -lopencv_imgproc -lopencv_highgui -lopencv_imgcodecs \\
  -lopencv_aruco -lboost_filesystem -lceres -lglog -lyaml-cpp -pthread || exit 3
(cd $w && timeout 120 ./demo)
r=$?
rm -rf /tmp/rct-seed-{id}
exit $r
"""
PRE = r'''
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
using I3 = Eigen::Isometry3d;
using V3 = Eigen::Vector3d;
static I3 pose(const V3& axis, double a, const V3& t) { I3 p = I3::Identity(); p.translate(t); p.rotate(Eigen::AngleAxisd(a, axis.normalized())); return p; }
struct M { double a, b; };
static const I3 camera = pose({ 0.2, -0.1, 0.3 }, 0.06, { 2.2, 0.6, 1.0 }), target = pose({ 0.3, -0.9, -0.1 }, 1.9, { 0.17, -0.65, 0.5 });
static I3 fk(const M& m)
{
  I3 r = pose({ 1, 0, 0 }, M_PI / 2, { 2.2, 0, 1.6 });
  r = r * pose({ 0, 0, 1 }, m.a, { 0, 0, 0 }) * pose({ 1, 0, 0 }, -M_PI / 2, { 0, 0, 0 });
  return r * pose({ 0, 0, 1 }, m.b - M_PI / 2, { 0, 0, -0.475 });
}
static std::string text(const I3& p, const std::string& in, double sign = 1)
{
  Eigen::Quaterniond q(p.linear());
  std::ostringstream s;
  s.precision(17);
  s << std::showpoint;
  auto t = p.translation();
  s << in << "x: " << t.x() << "\n" << in << "y: " << t.y() << "\n" << in << "z: " << t.z() << "\n";
  s << in << "qw: " << sign * q.w() << "\n" << in << "qx: " << sign * q.x() << "\n" << in << "qy: " << sign * q.y() << "\n" << in << "qz: " << sign * q.z() << "\n";
  return s.str();
}
/** the numbers after a heading, one for each of the two calibrations */
static std::vector<double> run(const std::vector<M>& ms, const std::string& head, double sign = 1)
{
  std::ofstream f("m.yaml"), p("params.yaml");
  f.precision(17);
  f << std::showpoint;
  int k = 0;
  for (auto& m : ms)
    f << "'" << 1000 + k++ << "':\n  camera_joints: []\n  target_joints: [" << m.a << ", " << m.b << "]\n  pose:\n" << text(camera.inverse() * fk(m) * target, "    ", sign);
  p << "measurements_file: m.yaml\ncamera_mount_to_camera_guess:\n" << text(camera * pose({ 1, 2, 0 }, 0.02, { 0.01, -0.02, 0.01 }), "  ")
    << "target_mount_to_target_guess:\n" << text(target * pose({ 0, -2, 1 }, 0.03, { 0.02, 0.02, -0.01 }), "  ");
  f.close();
  p.close();
  int r = std::system("RCT_PARAMS=params.yaml ./program > log 2>&1");
  if (r)
    std::exit((std::cerr << "BROKEN: the program fails\n", 1));
  std::ifstream in("log");
  std::stringstream s;
  s << in.rdbuf();
  std::string o = s.str();
  std::vector<double> v;
  for (size_t at = 0; (at = o.find(head, at)) != std::string::npos; at += head.size())
    v.push_back(std::atof(o.c_str() + at + head.size()));
  if (v.size() != 2)
    std::exit((std::cerr << "BROKEN: two calibrations are expected\n", 1));
  return v;
}
static int bad(const char* s) { std::cerr << "BROKEN: " << s << "\n"; return 1; }
'''
COPY = [("shim/ros-stubs", "stubs"), ("shim", "shim"), ("harness/tools/host.cpp", "host.cpp")]
bug(id="c27-negative-w", property="C27", copy=COPY, sh=SH.format(id="c27-negative-w"), file=EX,
 old='        double qw = pose["qw"].as<double>();', new='        double qw = std::abs(pose["qw"].as<double>());',
 needs="a measured orientation that is given by a quaternion with negative w",
 breaks="such a measurement enters the calibration with the inverse rotation",
 demo=r'''
int main()
{
  std::vector<M> ms{ { -0.52, 0.0 }, { 0.35, 0.9 }, { -0.9, -1.7 }, { 0.1, 2.6 }, { 0.8, -0.6 } };
  for (double sign : { 1.0, -1.0 })
    for (double cost : run(ms, "Final cost per observation:", sign))
      if (!(cost < 1e-3))
        return bad("perfect measurements are not explained");
  return 0;
}
''')
bug(id="c27-clamped-joint", property="C27", copy=COPY, sh=SH.format(id="c27-clamped-joint"), file=EX,
 old="          measurement.target_chain_joints[i] = joints[i].as<double>();",
 new="          // stay within the limits of the positioner\n          measurement.target_chain_joints[i] = std::max(-M_PI, std::min(M_PI, joints[i].as<double>()));",
 needs="a measurement with the second axis more than half a turn away from zero, which its limits allow",
 breaks="the measurement enters the calibration with another joint value",
 demo=r'''
int main()
{
  std::vector<M> ms{ { -0.52, 0.0 }, { 0.35, 0.9 }, { -0.9, -1.7 }, { 0.1, 4.6 }, { 0.8, -5.6 } };
  for (double cost : run(ms, "Final cost per observation:"))
    if (!(cost < 1e-3))
      return bad("perfect measurements are not explained");
  return 0;
}
''')
bug(id="c27-repeated-measurement", property="C27", copy=COPY, sh=SH.format(id="c27-repeated-measurement"), file=EX,
 old="        measurements.push_back(measurement);",
 new="        if (measurements.empty() || !measurement.camera_to_target.isApprox(measurements.back().camera_to_target, 1.0e-9))\n          measurements.push_back(measurement);",
 needs="a file in which a measurement is followed by an equal one",
 breaks="only one of them is used, although every measurement counts",
 demo=r'''
int main()
{
  std::vector<M> once{ { -0.52, 0.0 }, { 0.35, 0.9 }, { -0.9, -1.7 } }, more = once;
  more.insert(more.end(), 3, once.back());
  std::string head = "Initial cost per observation:";
  if (std::fabs(run(once, head)[1] - run(more, head)[1]) < 1e-6)
    return bad("a measurement that is repeated does not count more");
  return 0;
}
''')

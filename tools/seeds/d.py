PRE = open("/verif/tools/seeds/a.py").read().split("r'''")[1].split("'''")[0]
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
R = "rct_ros_tools/src/"
X = "rct_examples/src/tools/"
KC = O + "dh_chain_kinematic_calibration.cpp"
DS = R + "data_set.cpp"
CL = R + "command_line_cal.cpp"
V = O + "validation/"
BUGS = []
def bug(**k): BUGS.append(k)
ROS = """#!/bin/bash
# exit 0: the property holds for this demonstration; anything else: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=/tmp/rct-seed-{id}
mkdir -p $w
for s in {srcs} "$d/demo.cpp"; do
  g++ -std=c++17 -O1 -w {flags} -I"$d/stubs" -Irct_ros_tools/include -Irct_common/include -Irct_optimizations/include -Irct_image_tools/include \\
    -I/usr/include/eigen3 -I/usr/include/opencv4 -c "$s" -o $w/$(basename "$s").o || exit 3 &
done
wait
g++ $w/*.o -o $w/demo -L_build -Wl,-rpath,"$PWD/_build" -lrct_image_tools -lrct_optimizations -lopencv_core -lopencv_imgproc -lopencv_highgui -lopencv_calib3d \\
  -lopencv_imgcodecs -lopencv_features2d -lopencv_aruco -lboost_filesystem -lceres -lglog -lyaml-cpp || exit 3
mkdir -p $w/scratch
(cd $w/scratch && timeout 120 $w/demo)
r=$?
rm -rf /tmp/rct-seed-{id}
exit $r
"""
def ros(id, srcs, flags=""): return ROS.format(id=id, srcs=" ".join(srcs), flags=flags)
LIBS = [R+"data_set.cpp", R+"parameter_loaders.cpp", R+"loader_utils.cpp"]
KIN = r'''
#include <sstream>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
static DHChain chain(int n) { std::vector<DHTransform> t; for (int i=0;i<n;++i) t.emplace_back(Eigen::Vector4d(0.2+0.05*i,0.1,0.1+0.1*i,i%2?1.2:-1.1), DHJointType::REVOLUTE, "j"+std::to_string(i), 1); return DHChain(t); }
static KinematicCalibrationProblem2D3D problem(int links, const I3& cm, const I3& tm, const I3& base)
{
  KinematicCalibrationProblem2D3D p(chain(0), chain(links));
  p.intr = K(500,510,320,240); p.camera_mount_to_camera_guess = cm; p.target_mount_to_target_guess = tm; p.camera_base_to_target_base_guess = base;
  p.camera_chain_offset_stdev = p.target_chain_offset_stdev = 1e-2;
  for (int k=0;k<24;++k) { KinObservation2D3D o; o.camera_chain_joints = Eigen::VectorXd(0); o.target_chain_joints = Eigen::VectorXd(links);
    for (int i=0;i<links;++i) o.target_chain_joints(i) = 0.35*std::sin(1.7*k+2.1*i);
    I3 t = cm.inverse()*base*p.target_chain.getFK<double>(o.target_chain_joints)*tm;
    for (auto& g : grid(4,5,0.05)) { Correspondence2D3D c; c.in_target=g; V3 q=t*g; if (q.z()<0.2) throw 7; c.in_image=proj(p.intr,q); o.correspondence_set.push_back(c);} p.observations.push_back(o); }
  return p;
}
'''
KSH = """#!/bin/bash
# exit 0: the property holds for this demonstration; anything else: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=/tmp/rct-seed-{id}
mkdir -p $w
g++ -std=c++17 -O1 -w -I"$d/shim" -Irct_optimizations/include -I/usr/include/eigen3 "$d/demo.cpp" """ + KC + """ -o $w/demo \\
  -L_build -Wl,-rpath,"$PWD/_build" -lrct_optimizations -lceres -lglog -pthread || exit 3
timeout 120 $w/demo >$w/log 2>&1
r=$?
grep BROKEN $w/log
rm -rf /tmp/rct-seed-{id}
exit $r
"""
bug(id="c16-small-rotation-dropped", property="C16", file=KC, copy=[("shim", "shim")], sh=KSH.format(id="c16-small-rotation-dropped"),
 old="  if (aa_norm > std::numeric_limits<double>::epsilon())", new="  if (aa_norm > 1.0e-3)",
 needs="a frame (here held fixed) that is rotated by less than a milliradian",
 breaks="the reported transform has no rotation at all, although the estimated one is rotated slightly",
 demo=KIN+r'''
int main()
{
  I3 cm = P(1,2,3,8e-4,0.01,0.02,0.03), tm = P(1,0,0,0.3,0.05,0,0.1), base = P(0,1,0,0.2,0,0.1,1.5);
  KinematicCalibrationProblem2D3D p = problem(2, cm, tm, base);
  p.mask[0] = {}; p.mask[1] = {0,1,2,3,4,5,6,7}; p.mask[2] = {0,1,2}; p.mask[3] = {0,1,2}; p.mask[6] = {0,1,2}; p.mask[7] = {0,1,2};
  KinematicCalibrationResult r = optimize(p);
  return (r.camera_mount_to_camera.matrix()-cm.matrix()).norm() < 1e-9 ? 0 : bad("a frame held fixed comes back changed");
}
''')
bug(id="c16-prior-wrong-chain", property="C16", copy=[("shim", "shim")], sh=KSH.format(id="c16-prior-wrong-chain"),
 edits=[(KC, """  // Add a cost to drive the target chain DH parameters towards an expected mean
  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[1]))
  {
    Eigen::ArrayXXd mean(Eigen::ArrayXXd::Zero(target_chain_dh_offsets.rows(), target_chain_dh_offsets.cols()));

    Eigen::ArrayXXd stdev(Eigen::ArrayXXd::Constant(
        target_chain_dh_offsets.rows(), target_chain_dh_offsets.cols(), params.target_chain_offset_stdev));

    auto* fn = new MaximumLikelihood(mean, stdev);
    auto* cost_block = new ceres::DynamicAutoDiffCostFunction<MaximumLikelihood>(fn);
    cost_block->AddParameterBlock(target_chain_dh_offsets.size());
    cost_block->SetNumResiduals(target_chain_dh_offsets.size());

    problem.AddResidualBlock(cost_block, nullptr, target_chain_dh_offsets.data());
  }

  // Print optimization parameter labels
  printOptimizationLabels(problem, param_names, param_labels, param_masks);

  // Setup the Ceres optimization parameters
  ceres::Solver::Options options;
  options.max_num_iterations = 150;
""", """  // Add a cost to drive the target chain DH parameters towards an expected mean
  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))
  {
    Eigen::ArrayXXd mean(Eigen::ArrayXXd::Zero(target_chain_dh_offsets.rows(), target_chain_dh_offsets.cols()));

    Eigen::ArrayXXd stdev(Eigen::ArrayXXd::Constant(
        target_chain_dh_offsets.rows(), target_chain_dh_offsets.cols(), params.target_chain_offset_stdev));

    auto* fn = new MaximumLikelihood(mean, stdev);
    auto* cost_block = new ceres::DynamicAutoDiffCostFunction<MaximumLikelihood>(fn);
    cost_block->AddParameterBlock(target_chain_dh_offsets.size());
    cost_block->SetNumResiduals(target_chain_dh_offsets.size());

    problem.AddResidualBlock(cost_block, nullptr, target_chain_dh_offsets.data());
  }

  // Print optimization parameter labels
  printOptimizationLabels(problem, param_names, param_labels, param_masks);

  // Setup the Ceres optimization parameters
  ceres::Solver::Options options;
  options.max_num_iterations = 150;
""")],
 needs="a target chain whose offsets are estimated together with a camera chain that is held fixed (or has no joints)",
 breaks="the prior residual of the target chain is left out, so its offsets are no longer driven to their mean",
 demo=KIN+r'''
int main()
{
  I3 cm = P(1,2,3,0.1,0.01,0.02,0.03), tm = P(1,0,0,0.3,0.05,0,0.1), base = P(0,1,0,0.2,0,0.1,1.5);
  KinematicCalibrationProblem2D3D p = problem(2, cm, tm, base);
  // the base rotation about the first joint axis cannot be told from the offset of the first joint but for the prior
  p.camera_base_to_target_base_guess = base * P(0,0,1,0.05,0,0,0.02);
  p.mask[2] = {0,1,2}; p.mask[3] = {0,1,2}; p.mask[4] = {0,1,2}; p.mask[5] = {0,1,2};
  KinematicCalibrationResult r = optimize(p);
  return r.target_chain_dh_offsets.cwiseAbs().maxCoeff() < 1e-4 ? 0 : bad("offsets are not driven to their mean");
}
''')
bug(id="c23-existing-kept", property="C23", file=DS, copy=[("shim/ros-stubs", "stubs")], sh=ros("c23-existing-kept", LIBS),
 old="    if (!cv::imwrite(name, data.images[i]))", new="    if (!std::ifstream(name).good() && !cv::imwrite(name, data.images[i]))",
 needs="a data set that is saved into the directory of an earlier one",
 breaks="images of the earlier data set stay and are paired with the poses of the new one",
 demo=r'''
#include <rct_ros_tools/data_set.h>
using namespace rct_ros_tools;
int main()
{
  ExtrinsicDataSet a, b; for (int i=0;i<3;++i) { a.images.push_back(cv::Mat(8,9,CV_8UC3,cv::Scalar(i,1,2))); b.images.push_back(cv::Mat(8,9,CV_8UC3,cv::Scalar(100+i,1,2))); a.tool_poses.push_back(P(0,0,1,0.1*i,i,0,0)); b.tool_poses.push_back(P(0,0,1,0.2*i,0,i,0)); }
  if (!saveToDirectory("set", a) || !saveToDirectory("set", b)) return bad("not saved");
  auto r = parseFromFile("set/data.yaml"); if (!r || r->images.size()!=3 || r->tool_poses.size()!=3) return bad("not loaded");
  for (int i=0;i<3;++i) if (cv::norm(r->images[i], b.images[i], cv::NORM_INF) != 0) return bad("a saved image comes back as an older one");
  return 0;
}
''')
bug(id="c23-image-before-pose", property="C23", copy=[("shim/ros-stubs", "stubs")], sh=ros("c23-image-before-pose", LIBS),
 edits=[(DS, "    data.images.push_back(image);\n    data.tool_poses.push_back(p);", "    data.tool_poses.push_back(p);"),
        (DS, "    Eigen::Isometry3d p;\n", "    data.images.push_back(image);\n    Eigen::Isometry3d p;\n")],
 needs="a data set of which one pose file is missing or malformed",
 breaks="the image of the skipped entry stays, so that all later images are paired with the pose of the entry after them",
 demo=r'''
#include <rct_ros_tools/data_set.h>
#include <cstdio>
using namespace rct_ros_tools;
int main()
{
  ExtrinsicDataSet a; for (int i=0;i<4;++i) { a.images.push_back(cv::Mat(8,9,CV_8UC3,cv::Scalar(i,1,2))); a.tool_poses.push_back(P(0,0,1,0.1*i,i,0,0)); }
  if (!saveToDirectory("set", a)) return bad("not saved");
  std::remove("set/poses/1.yaml");
  auto r = parseFromFile("set/data.yaml"); if (!r) return 0;
  if (r->images.size() != r->tool_poses.size()) return bad("images and poses do not match in number");
  for (size_t k=0;k<r->images.size();++k) { int i = r->images[k].at<cv::Vec3b>(0,0)[0]; if ((r->tool_poses[k].translation()-V3(i,0,0)).norm() > 1e-9) return bad("an image is paired with another pose"); }
  return 0;
}
''')
NODE = r'''
#include <boost/make_shared.hpp>
#include <cstring>
#include <image_transport/image_transport.h>
#include <pluginlib/class_list_macros.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/ros.h>
#include <yaml-cpp/yaml.h>
int data_collection_main(int, char**);
struct T0 : rct_image_tools::Target { Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures&) const override { return {}; } };
struct F0 : rct_ros_tools::TargetFinderPlugin
{
  T0 t; void init(const YAML::Node&) override {}
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat&) const override { return {}; }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const rct_image_tools::TargetFeatures&) const override { return m.clone(); }
  const rct_image_tools::Target& target() const override { return t; }
};
PLUGINLIB_EXPORT_CLASS(F0, rct_ros_tools::TargetFinderPlugin)
static bool lost = false; static int place = 0;
static void image(int n)
{
  auto m = boost::make_shared<sensor_msgs::Image>(); m->encoding = "bgr8"; m->height = 8; m->width = 9; m->step = 27; m->data.assign(8*27, n);
  ros_stub::bus.images.begin()->second(m);
}
static bool call(const char* s) { return ros_stub::bus.services.at(s)(); }
static void run(std::function<void()> f)
{
  auto p = std::make_shared<std::map<std::string, XmlRpc::XmlRpcValue>>();
  (*p)["base_frame"] = std::string("base"); (*p)["tool_frame"] = std::string("tool"); (*p)["image_topic"] = std::string("image"); (*p)["save_dir"] = std::string("set");
  XmlRpc::XmlRpcValue v; v["type"] = std::string("F0"); (*p)["target_finder"] = v; ros_stub::parameters = p;
  ros_stub::bus.transform = [](const std::string&, const std::string&, double (&x)[3], double (&q)[4]) { if (lost) return false; x[0]=place; x[1]=x[2]=0; q[0]=q[1]=q[2]=0; q[3]=1; return true; };
  ros_stub::bus.spin = f;
  char a[] = "node"; char* v2[] = { a, nullptr };
  data_collection_main(1, v2);
}
'''
NS = LIBS + [CL]
bug(id="c25-frame-reused", property="C25", file=CL, copy=[("shim/ros-stubs", "stubs")], sh=ros("c25-frame-reused", NS, "-Dmain=data_collection_main -DRUN=1").replace('-Dmain=data_collection_main -DRUN=1 ', '$([ "$s" = '+CL+' ] && echo -Dmain=data_collection_main) '),
 old="      last_frame_ = cv_ptr;", new="""      if (last_frame_ && last_frame_->image.size() == cv_ptr->image.size())
        cv_ptr->image.copyTo(last_frame_->image);  // Reuse the memory of the previous frame
      else
        last_frame_ = cv_ptr;""",
 needs="a further image that arrives after a pair was collected and before the pairs are saved",
 breaks="the pixels of collected images are overwritten with those of later images",
 demo=NODE+r'''
int main()
{
  int r = 5;
  run([&] { image(10); place=1; bool ok = call("collect"); image(20); place=2; ok &= call("collect"); image(30); ok &= call("save"); r = ok ? 0 : bad("refused"); });
  if (r) return r;
  auto d = rct_ros_tools::parseFromFile("set/data.yaml"); if (!d || d->images.size()!=2) return bad("not loaded");
  for (int i=0;i<2;++i) if (d->images[i].at<cv::Vec3b>(3,3)[0] != 10*(i+1) || std::abs(d->tool_poses[i].translation().x()-(i+1)) > 1e-9) return bad("a collected pair was changed");
  return 0;
}
''')
bug(id="c25-stale-pose", property="C25", copy=[("shim/ros-stubs", "stubs")], sh=ros("c25-stale-pose", NS, "-DX ").replace('-DX ', '$([ "$s" = '+CL+' ] && echo -Dmain=data_collection_main) '),
 edits=[(CL, "      out = t;\n      return true;", "      out = t;\n      last_ = t;\n      have_ = true;\n      return true;"),
        (CL, "                                                             << ex.what());\n      return false;", "                                                             << ex.what());\n      out = last_;\n      return have_;"),
        (CL, "  std::string base_frame_;\n  std::string tool_frame_;\n\n", "  std::string base_frame_;\n  std::string tool_frame_;\n  geometry_msgs::TransformStamped last_;\n  bool have_ = false;\n\n")],
 needs="a collect request while the robot pose is unavailable, after it was available before",
 breaks="the image is stored with an outdated pose instead of nothing being collected",
 demo=NODE+r'''
int main()
{
  int r = 5;
  run([&] { image(10); place=1; bool ok = call("collect"); image(20); place=2; lost=true; bool no = call("collect"); lost=false; place=3; ok &= call("collect"); ok &= call("save"); r = !ok ? bad("refused") : no ? bad("collected without a pose") : 0; });
  if (r) return r;
  auto d = rct_ros_tools::parseFromFile("set/data.yaml"); if (!d || d->images.size()!=2) return bad("not two pairs");
  return std::abs(d->tool_poses[1].translation().x()-3) < 1e-9 ? 0 : bad("wrong pose");
}
''')
bug(id="c13-middle-left-out", property="C13", file=V+"camera_intrinsic_calibration_validation.cpp",
 old="Correspondence2D3D::Set set_2(correspondences.begin() + half_size, correspondences.end());", new="Correspondence2D3D::Set set_2(correspondences.end() - half_size, correspondences.end());",
 needs="a target with an odd number of features, of which the middle one belongs to the displaced (second) half or carries the error",
 breaks="the middle feature is used for neither half",
 demo=r'''
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
int main()
{
  CameraIntrinsics k = K(500,500,320,240); I3 cam = P(1,0.3,0,0.3,-0.1,-0.1,1.0); Correspondence2D3D::Set s;
  for (auto& g : grid(3,3,0.1)) { Correspondence2D3D c; c.in_target=g; c.in_image=proj(k,cam*g); s.push_back(c); }
  s[4].in_image += V2(60, -40);   // first feature of the second half (5 of 9)
  try { measureVirtualTargetDiff(s, k, cam, 1.0); } catch (const std::exception&) { return 0; }
  return bad("an excessive residual is not reported");
}
''')

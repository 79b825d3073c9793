PRE = r'''// self-contained demonstration: exits 0 when the property holds
#include <cstdio>
#include <cmath>
#include <iostream>
#include <vector>
#include <Eigen/Dense>
#include <rct_optimizations/types.h>
using namespace rct_optimizations;
using I3 = Eigen::Isometry3d; using V3 = Eigen::Vector3d; using V2 = Eigen::Vector2d;
static I3 P(double ax, double ay, double az, double ang, double x, double y, double z)
{ I3 p = I3::Identity(); p.linear() = Eigen::AngleAxisd(ang, V3(ax, ay, az).normalized()).toRotationMatrix(); p.translation() = V3(x, y, z); return p; }
static CameraIntrinsics K(double fx, double fy, double cx, double cy) { CameraIntrinsics k; k.values = {fx, fy, cx, cy}; return k; }
static V2 proj(const CameraIntrinsics& k, const V3& p) { return V2(k.values[0]*p.x()/p.z()+k.values[2], k.values[1]*p.y()/p.z()+k.values[3]); }
static std::vector<V3> grid(int r, int c, double s) { std::vector<V3> v; for (int i=0;i<r;++i) for (int j=0;j<c;++j) v.push_back(V3(j*s,i*s,0)); return v; }
static int bad(const char* m) { printf("BROKEN: %s\n", m); return 1; }
'''
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-late-point-behind", property="C01", file=O+"extrinsic_hand_eye.cpp",
 old="""      if (!isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))""",
 new="""      if (&correspondence == &observation.correspondence_set.front() &&
          !isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))""",
 needs="a guess that leaves the first feature of every observation in front of the camera but puts a later one behind it",
 breaks="the guess is no longer refused when only a later feature of an observation lies behind the image plane",
 demo=r'''
#include <rct_optimizations/extrinsic_hand_eye.h>
int main()
{
  ExtrinsicHandEyeProblem2D3D p; p.intr = K(500,500,320,240);
  p.camera_mount_to_camera_guess = I3::Identity();
  p.target_mount_to_target_guess = P(0,1,0,M_PI/2*0.95,0,0,0.3);   // edge-on: features run from z=.3 towards and behind the camera
  I3 truth = P(0,1,0,0.1,-0.2,-0.2,1.0);
  for (int i=0;i<4;++i){ Observation2D3D o; o.to_camera_mount = P(1,i,0,0.1*i,0.01*i,0.02*i,0); o.to_target_mount = I3::Identity();
    for (auto& g : grid(4,6,0.2)) { Correspondence2D3D c; c.in_target=g; c.in_image=proj(p.intr, o.to_camera_mount.inverse()*truth*g); o.correspondence_set.push_back(c);} p.observations.push_back(o);}
  bool behind=false; for (auto& o : p.observations) for (auto& c : o.correspondence_set) behind |= (o.to_camera_mount.inverse()*p.target_mount_to_target_guess*c.in_target).z() <= 0;
  if (!behind) return 4;
  try { optimize(p); } catch (const std::exception& e) { std::string w = e.what(); return w.find("behind") != std::string::npos ? 0 : bad(e.what()); }
  return bad("guess with features behind the camera accepted");
}
''')

bug(id="c02-fixed-camera-intrinsics", property="C02", file=O+"extrinsic_multi_static_camera_only.cpp",
 old="new ReprojectionFixedCameraCost(img_obs, intr, params.base_to_camera_guess[c], point_in_target);",
 new="new ReprojectionFixedCameraCost(img_obs, params.intr.back(), params.base_to_camera_guess[c], point_in_target);",
 needs="first camera held fixed and cameras with different intrinsics",
 breaks="the fixed first camera is evaluated with the intrinsics of the last camera",
 demo=r'''
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
int main()
{
  ExtrinsicMultiStaticCameraOnlyProblem p; p.fix_first_camera = true; p.intr = { K(500,500,320,240), K(800,780,640,480) };
  std::vector<I3> cams = { I3::Identity(), P(0,1,0,-0.3,0.4,0,0) };
  std::vector<I3> tg = { P(1,0,0,0.2,-0.2,-0.1,1), P(0,1,0,0.3,-0.1,-0.2,1.1) };
  p.image_observations.resize(2);
  for (int c=0;c<2;++c) for (int i=0;i<2;++i) { Correspondence2D3D::Set s; for (auto& g : grid(5,5,0.08)) { Correspondence2D3D k; k.in_target=g; k.in_image=proj(p.intr[c], cams[c].inverse()*tg[i]*g); s.push_back(k);} p.image_observations[c].push_back(s);}
  p.base_to_camera_guess = { cams[0], cams[1]*P(0,0,1,0.02,0.01,0,0) };
  for (auto& t : tg) p.base_to_target_guess.push_back(t*P(0,0,1,0.02,0,0.01,0.01));
  auto r = optimize(p);
  if (!r.converged || r.final_cost_per_obs > 1e-6) return bad("not converged to zero cost");
  for (int c=0;c<2;++c) if (!r.base_to_camera[c].isApprox(cams[c],1e-4)) return bad("camera pose wrong");
  return 0;
}
''')

bug(id="c03-blind-camera", property="C03", file=O+"multi_camera_pnp.cpp",
 old="""  for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera
  {
    for""",
 new="""  for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera
  {
    // Nothing was seen
    if (params.image_observations[c].empty())
      break;

    for""",
 needs="a camera that does not see the target, listed before cameras that do",
 breaks="all cameras after a blind one are ignored",
 demo=r'''
#include <rct_optimizations/experimental/multi_camera_pnp.h>
int main()
{
  MultiCameraPnPProblem p; p.intr = { K(500,500,320,240), K(800,780,640,480), K(600,600,300,200) };
  p.base_to_camera = { I3::Identity(), P(0,1,0,3.0,0,0,0), P(0,1,0,-0.3,0.4,0,0) };
  I3 tg = P(1,0,0,0.3,-0.2,-0.1,1);
  p.image_observations.resize(3);
  for (int c : {0,2}) for (auto& g : grid(4,4,0.1)) { Correspondence2D3D k; k.in_target=g; k.in_image=proj(p.intr[c], p.base_to_camera[c].inverse()*tg*g) + V2(c==2 ? 1.0 : -1.0, 0); p.image_observations[c].push_back(k); }
  p.base_to_target_guess = tg;
  auto a = optimize(p);
  auto q = p; std::swap(q.intr[1],q.intr[2]); std::swap(q.base_to_camera[1],q.base_to_camera[2]); std::swap(q.image_observations[1],q.image_observations[2]);
  auto b = optimize(q);
  if (!a.converged || !b.converged) return bad("not converged");
  if (!a.base_to_target.isApprox(b.base_to_target,1e-5)) return bad("result depends on the order of the cameras");
  return 0;
}
''')

bug(id="c05-robust-loss", property="C05", file=O+"multi_camera_pnp.cpp",
 old="problem.AddResidualBlock(cost_block, NULL, internal_base_to_target.values.data());",
 new="problem.AddResidualBlock(cost_block, new ceres::HuberLoss(5.0), internal_base_to_target.values.data());",
 needs="measurements with errors of more than five pixels",
 breaks="large errors are down-weighted: neither the reported cost nor the result belong to the documented least-squares problem",
 demo=r'''
#include <rct_optimizations/experimental/multi_camera_pnp.h>
int main()
{
  MultiCameraPnPProblem p; p.intr = { K(500,500,320,240) }; p.base_to_camera = { I3::Identity() };
  I3 tg = P(1,0,0,0.3,-0.2,-0.1,1);
  p.image_observations.resize(1);
  int n=0; for (auto& g : grid(4,4,0.1)) { Correspondence2D3D k; k.in_target=g; k.in_image=proj(p.intr[0], tg*g); if (n++==5) k.in_image.x() += 20; p.image_observations[0].push_back(k); }
  p.base_to_target_guess = tg;
  auto a = optimize(p);
  double s=0; for (auto& k : p.image_observations[0]) s += (proj(p.intr[0], a.base_to_target*k.in_target)-k.in_image).squaredNorm();
  if (std::abs(a.initial_cost_per_obs - 0.5*400/32) > 1e-6) return bad("initial cost");
  if (std::abs(a.final_cost_per_obs - 0.5*s/32) > 1e-6) return bad("final cost");
  return 0;
}
''')

bug(id="c06-mask-carried-over", property="C06", edits=[(O+"covariance_analysis.cpp",
"""  std::vector<std::string> tangent_space_labels;
  for (const double* b : parameter_blocks)
  {""",
"""  std::vector<std::string> tangent_space_labels;
  std::vector<int> masks;
  for (const double* b : parameter_blocks)
  {"""), (O+"covariance_analysis.cpp", """    std::vector<int> masks;
    auto it""", """    auto it""")],
 needs="a masked parameter block followed by one without mask",
 breaks="the mask of an earlier block is applied to later blocks that have none, so estimated parameters are missing from the report",
 demo=r'''
#include <rct_optimizations/covariance_analysis.h>
struct C { template <typename T> bool operator()(const T* a, const T* b, T* r) const { r[0]=a[0]-T(1); r[1]=T(2)*a[1]; r[2]=b[0]; r[3]=T(3)*b[1]+a[0]; r[4]=a[1]; return true; } };
int main()
{
  double a[2]={0,0}, b[2]={0,0}; ceres::Problem p; p.AddResidualBlock(new ceres::AutoDiffCostFunction<C,5,2,2>(new C), nullptr, a, b);
  std::map<const double*, std::vector<std::string>> n; n[a]={"a0","a1"}; n[b]={"b0","b1"};
  std::map<const double*, std::vector<int>> m; m[a]={0};
  auto r = computeCovariance(p, std::vector<const double*>{a,b}, n, m);
  return r.standard_deviations.size()==3 && r.standard_deviations[1].names.first=="b0" ? 0 : bad("wrong parameters listed");
}
''')

bug(id="c08-partial-chain-offsets", property="C08", file=OI+"dh_chain.h",
 old="const Eigen::Matrix<T, 1, 4>& offset = offsets.row(i);",
 new="const Eigen::Matrix<T, 1, 4>& offset = offsets.row(offsets.rows() - joint_values.size() + i);",
 needs="forward kinematics of the first k<n joints together with an offset table for all joints",
 breaks="the offsets of the last joints are applied to the first joints",
 demo=r'''
#include <rct_optimizations/dh_chain.h>
int main()
{
  std::vector<DHTransform> t; t.push_back(DHTransform(Eigen::Vector4d(0.1,0.2,0.3,0.4), DHJointType::REVOLUTE)); t.push_back(DHTransform(Eigen::Vector4d(0.2,0.1,0.3,-0.4), DHJointType::LINEAR));
  DHChain c(t); Eigen::MatrixX4d off = Eigen::MatrixX4d::Zero(2,4); off.row(1) << 1,0,0,0;
  Eigen::Matrix<double,-1,4> o = off; Eigen::VectorXd j(1); j << 0.3;
  return c.getFK<double>(j,o).isApprox(c.getFK<double>(j),1e-9) ? 0 : bad("offset of a joint beyond the requested ones was used");
}
''')

bug(id="c09-mount-rotation-ignored", property="C09", file=OI+"types.h",
 old="return to_camera_mount.isApprox(rhs.to_camera_mount) && to_target_mount.isApprox(rhs.to_target_mount) &&",
 new="return to_camera_mount.isApprox(rhs.to_camera_mount) && to_target_mount.translation().isApprox(rhs.to_target_mount.translation()) &&",
 needs="two observations that differ in the orientation of the target mount only",
 breaks="equality ignores the target mount's orientation",
 demo=r'''
int main()
{
  Observation2D3D a(P(0,0,1,0.1,1,2,3), P(0,0,1,0.1,1,2,3)), b(P(0,0,1,0.1,1,2,3), P(0,1,0,0.7,1,2,3));
  return (a==a) && !(a==b) && !(b==a) ? 0 : bad("different observations compare equal");
}
''')

bug(id="c11-grid-sampler-corner", property="C11", file=O+"validation/homography_validation.cpp",
 old="std::size_t lower_left_idx = (rows - 1) * (cols * stride);",
 new="std::size_t lower_left_idx = (rows * cols - rows) * stride;",
 needs="a grid with different numbers of rows and columns",
 breaks="the lower-left sample is not the grid corner",
 demo=r'''
#include <rct_optimizations/validation/homography_validation.h>
int main()
{
  GridCorrespondenceSampler s(4,6); auto v = s.getSampleCorrespondenceIndices();
  std::vector<std::size_t> e{0,5,18,23};
  return v==e ? 0 : bad("not the corners");
}
''')

bug(id="c12-quaternion-sign", property="C12", file=O+"validation/noise_qualification.cpp",
 old="q_var += std::pow(q_stats.mean.angularDistance(q), 2.0);",
 new="q_var += std::pow(2.0 * std::acos(std::min(1.0, q_stats.mean.dot(q))), 2.0);",
 needs="a rotation given with the opposite sign representation of the mean",
 breaks="the spread depends on the sign of the quaternions",
 demo=r'''
#include <rct_optimizations/validation/noise_qualification.h>
int main()
{
  for (double s1 : {1.,-1.}) for (double s2 : {1.,-1.}) {
    Eigen::Quaterniond a(Eigen::AngleAxisd(0.3,V3::UnitX())), b(Eigen::AngleAxisd(0.32,V3::UnitX())); a.coeffs()*=s1; b.coeffs()*=s2;
    auto r = computeQuaternionStats({a,b}); if (!(std::abs(r.stdev - std::sqrt(2*0.01*0.01)) < 1e-6)) return bad("spread depends on the sign");
  }
  return 0;
}
''')

bug(id="c13-unchecked-second-half", property="C13", file=O+"validation/camera_intrinsic_calibration_validation.cpp",
 old="""    if (obs_1.correspondence_set.size() != obs_2.correspondence_set.size())""",
 new="""    if (obs_1.correspondence_set.size() < obs_2.correspondence_set.size())""",
 needs="an observation with fewer features than the one before it",
 breaks="data sets in which the number of features drops are not refused",
 demo=r'''
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
int main()
{
  Observation2D3D::Set s; auto k=K(500,500,320,240); I3 tg=P(1,0,0,0.3,-0.2,-0.1,1);
  for (int i=0;i<2;++i){ Observation2D3D o(I3::Identity(), I3::Identity()); auto g=grid(6-i,4,0.08); for (auto& p : g) o.correspondence_set.push_back(Correspondence2D3D(proj(k,tg*p),p)); s.push_back(o);}
  try { measureIntrinsicCalibrationAccuracy(s,k,I3::Identity(),tg,I3::Identity(),1.0); } catch (const OptimizationException&) { return 0; }
  return bad("ragged data set accepted");
}
''')

bug(id="c14-error-concatenation", property="C14", file=O+"validation/projection.cpp",
 old="""    error.conservativeResize(error.rows() + n);
    error.tail(n) = compute3DProjectionError(obs, intr, camera_mount_to_camera, target_mount_to_target);""",
 new="""    if (n == 0)
      break;
    error.conservativeResize(error.rows() + n);
    error.tail(n) = compute3DProjectionError(obs, intr, camera_mount_to_camera, target_mount_to_target);""",
 needs="an observation without features before others",
 breaks="the errors of all observations after an empty one are missing",
 demo=r'''
#include <rct_optimizations/validation/projection.h>
int main()
{
  Observation2D3D::Set s; auto k=K(500,500,320,240); I3 tg=P(1,0,0,0.3,-0.2,-0.1,1);
  for (int i=0;i<3;++i){ Observation2D3D o(I3::Identity(), I3::Identity()); if (i!=1) for (auto& p : grid(3,4,0.08)) o.correspondence_set.push_back(Correspondence2D3D(proj(k,tg*p),p)); s.push_back(o);}
  auto e = compute3DProjectionError(s,k,I3::Identity(),tg);
  return e.size()==24 && e.maxCoeff()<1e-9 ? 0 : bad("errors missing");
}
''')

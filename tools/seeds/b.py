PRE = open("/verif/tools/seeds/a.py").read().split("r'''")[1].split("'''")[0]
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
M = "rct_image_tools/src/rct_image_tools/"
MI = "rct_image_tools/include/rct_image_tools/"
R = "rct_ros_tools/src/"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c22-homography-scratch", property="C22", file=O+"validation/homography_validation.cpp", extra="-pthread ",
 old="""  Correspondence2D3D::Set correspondences_2d;
""", new="""  static Correspondence2D3D::Set correspondences_2d;
  correspondences_2d.clear();
""",
 needs="two threads that check the homography of 3D measurements at the same time",
 breaks="the scaled correspondences live in a container shared by all callers",
 demo=r'''
#include <rct_optimizations/validation/homography_validation.h>
#include <thread>
int main()
{
  auto make = [](double d) { Correspondence3D3D::Set s; int k=0; for (auto& g : grid(20,20,0.05)) { Correspondence3D3D c; c.in_target=g; c.in_image=P(1,1,0,d,0,0,1)*g; if (k++%7==0) c.in_image.x()+=d*0.01; s.push_back(c);} return s; };
  Correspondence3D3D::Set a=make(0.1), b=make(0.3); GridCorrespondenceSampler g(20,20);
  Eigen::VectorXd ea=calculateHomographyError(a,g), eb=calculateHomographyError(b,g); bool ok=true;
  auto run=[&](const Correspondence3D3D::Set& s, const Eigen::VectorXd& e){ for (int i=0;i<3000;++i) { try { Eigen::VectorXd x=calculateHomographyError(s,g); if (x.size()!=e.size() || x!=e) ok=false; } catch (...) { ok=false; } } };
  std::thread t1(run,a,ea), t2(run,b,eb); t1.join(); t2.join();
  return ok ? 0 : bad("results of concurrent homography checks are mixed");
}
''')

bug(id="c22-fk-links", property="C22", file=OI+"dh_chain.h", extra="-pthread ",
 edits=[(OI+"dh_chain.h", """    Isometry3<T> transform(base_offset_.cast<T>());
    for (Eigen::Index i = 0; i < joint_values.size(); ++i)
    {
      const Eigen::Matrix<T, 1, 4>& offset = offsets.row(i);
      transform = transform * transforms_.at(i).createRelativeTransform(joint_values[i], offset);
    }
    return transform;
""", """    // Reuse the memory of the link transforms
    static std::vector<Isometry3<T>> links;
    links.clear();
    for (Eigen::Index i = 0; i < joint_values.size(); ++i)
    {
      const Eigen::Matrix<T, 1, 4>& offset = offsets.row(i);
      links.push_back(transforms_.at(i).createRelativeTransform(joint_values[i], offset));
    }

    Isometry3<T> transform(base_offset_.cast<T>());
    for (const Isometry3<T>& link : links)
      transform = transform * link;
    return transform;
""")],
 needs="forward kinematics evaluated by two threads at once (different chains suffice; also the solver's own threads)",
 breaks="the link transforms of both calls share one buffer",
 demo=r'''
#include <rct_optimizations/dh_chain.h>
#include <thread>
int main()
{
  auto chain=[](double a){ std::vector<DHTransform> t; for (int i=0;i<6;++i) t.emplace_back(Eigen::Vector4d(a,0.1*i,0.2,a), DHJointType::REVOLUTE, "j", 1); return DHChain(t); };
  DHChain a=chain(0.1), b=chain(0.7); Eigen::VectorXd q=Eigen::VectorXd::Constant(6,0.3);
  auto fa=a.getFK<double>(q).matrix(), fb=b.getFK<double>(q).matrix(); Eigen::Matrix4d ra=fa, rb=fb; bool ok=true;
  auto run=[&](const DHChain& c, const Eigen::Matrix4d& e){ for (int i=0;i<300000;++i) if (Eigen::Matrix4d(c.getFK<double>(q).matrix())!=e) ok=false; };
  std::thread t1(run,std::cref(a),ra), t2(run,std::cref(b),rb); t1.join(); t2.join();
  return ok ? 0 : bad("concurrent forward kinematics are mixed");
}
''')

bug(id="c21-grid-detector-relaxes", property="C21", libs="img",
 edits=[(MI+"circle_detector.h", "  const CircleDetectorParams params;\n", "  CircleDetectorParams params;\n"),
  (M+"circle_detector.cpp", """  keypoints = detectKeyPoints(centers, params);
}""", """  keypoints = detectKeyPoints(centers, params);

  // Be less strict about the repeatability in images in which nothing was found
  if (keypoints.empty() && params.minRepeatability > 1)
  {
    params.minRepeatability = 1;
    keypoints = detectKeyPoints(centers, params);
  }
}""")],
 needs="a detector that has met an image without circles, then an image with a dot of low contrast",
 breaks="the repeatability asked for is forgotten after the first empty image",
 demo=r'''
#include <rct_image_tools/circle_detector.h>
int main()
{
  cv::Mat empty(100,100,CV_8UC1,cv::Scalar(255)), faint=empty.clone(), both=empty.clone();
  cv::circle(both,{30,30},8,cv::Scalar(0),-1,cv::LINE_AA); cv::circle(both,{70,70},8,cv::Scalar(205),-1,cv::LINE_AA);  // the second is below few thresholds
  rct_image_tools::CircleDetectorParams p; auto fresh=rct_image_tools::CircleDetector::create(p), used=rct_image_tools::CircleDetector::create(p);
  std::vector<cv::KeyPoint> a,b,c; fresh->detect(both,a); used->detect(empty,c); used->detect(both,b);
  return a.size()==b.size() ? 0 : bad("a detector answers differently after an empty image");
}
''')

bug(id="c21-sampler-continues", property="C21", file=O+"validation/homography_validation.cpp",
 old="  std::mt19937 rand_gen(seed);", new="  static std::mt19937 rand_gen(seed);",
 needs="a second random sampler (or a second use of one)",
 breaks="the sample depends on the samples drawn before",
 demo=r'''
#include <rct_optimizations/validation/homography_validation.h>
int main(){ RandomCorrespondenceSampler s(40,6,7); auto a=s.getSampleCorrespondenceIndices(); auto b=s.getSampleCorrespondenceIndices(); return a==b ? 0 : bad("the sampler is not reproducible"); }
''')

bug(id="c04-unusable-image-stops", property="C04", file=O+"camera_intrinsic.cpp",
 old="""      std::cout << "PnP failed for image " << i << std::endl;
      continue;""", new="""      std::cout << "PnP failed for image " << i << std::endl;
      break;""",
 needs="an image without usable pose before usable ones",
 breaks="all images after an unusable one are ignored",
 demo=r'''
#include <rct_optimizations/experimental/camera_intrinsic.h>
int main()
{
  CameraIntrinsics k=K(600,610,320,240); IntrinsicEstimationProblem p; p.intrinsics_guess=K(590,620,325,236); p.use_extrinsic_guesses=false;
  std::vector<I3> v={P(1,0,0,M_PI-0.3,-0.2,0.2,1),P(1,0.1,0,M_PI+0.3,-0.2,0.2,1.1),P(1,0.2,0.1,M_PI-0.25,-0.25,0.2,1),P(1,-0.2,0.1,M_PI+0.2,-0.2,0.25,0.9),P(1,-0.1,0.2,M_PI,-0.2,0.2,1.2)};
  for (auto& t:v){ Correspondence2D3D::Set s; for (auto& g:grid(8,8,0.06)){ Correspondence2D3D c; c.in_target=g; c.in_image=proj(k,t*g); s.push_back(c);} p.image_observations.push_back(s);}
  // the first image holds nothing but one point
  auto q=p; q.image_observations.insert(q.image_observations.begin()+1, Correspondence2D3D::Set());
  auto a=optimize(p); if (!a.converged) return 4;
  try { auto b=optimize(q); for (int i=0;i<4;++i) if (std::abs(a.intrinsics.values[i]-b.intrinsics.values[i])>1e-3) return bad("one unusable image changes the calibration"); }
  catch (const std::exception& e) { return bad(e.what()); }
  return 0;
}
''')

bug(id="c04-tangential", property="C04", file=O+"camera_intrinsic.cpp",
 old="          + intr.p2() * xp * yp * T(2.0);    // other tangential term", new="          + intr.p2() * xp * xp * T(2.0);    // other tangential term",
 needs="a lens with the second tangential coefficient",
 breaks="the distortion model is not the documented one",
 demo=r'''
#include <rct_optimizations/experimental/camera_intrinsic.h>
int main()
{
  CameraIntrinsics k=K(600,610,320,240); IntrinsicEstimationProblem p; p.intrinsics_guess=k; p.use_extrinsic_guesses=false; double p2=0.004;
  for (int i=0;i<10;++i){ I3 t=P(1,0.1*i,0.05*i,M_PI+(i%2?0.3:-0.3),-0.2,0.2,0.8+0.03*i); Correspondence2D3D::Set s; for (auto& g:grid(9,9,0.06)){ Correspondence2D3D c; c.in_target=g; V3 w=t*g; double x=w.x()/w.z(),y=w.y()/w.z(),r2=x*x+y*y;
    c.in_image=V2(600*(x+p2*(r2+2*x*x))+320, 610*(y+2*p2*x*y)+240); s.push_back(c);} p.image_observations.push_back(s);}
  auto a=optimize(p); if (!a.converged || a.final_cost_per_obs>1e-9 || std::abs(a.distortions[3]-p2)>1e-5) return bad("tangential distortion is not recovered");
  return 0;
}
''')

bug(id="c07-small-rotation", property="C07", file=O+"eigen_conversions.cpp",
 old="  if (dot_product > std::numeric_limits<double>::epsilon())", new="  if (dot_product > 1.0e-6)",
 needs="a rotation by less than a milliradian",
 breaks="small rotations are replaced by a matrix that is not a rotation",
 demo=r'''
#include <rct_optimizations/eigen_conversions.h>
int main(){ Pose6d p; p.rx()=9e-4; I3 t=poseCalToEigen(p); Eigen::Matrix3d r=Eigen::AngleAxisd(9e-4,V3::UnitX()).toRotationMatrix(); return (t.linear()-r).norm()<1e-10 ? 0 : bad("small rotation"); }
''')

bug(id="c10-linear-name", property="C10", file=OI+"serialization/types.h",
 old="""    val.name = n["joint_name"].as<std::string>();
""", new="""    if (val.type == rct_optimizations::DHJointType::REVOLUTE)
      val.name = n["joint_name"].as<std::string>();
""",
 needs="a chain with a linear joint that has its own name",
 breaks="the name of linear joints is not restored",
 demo=r'''
#include <rct_optimizations/serialization/types.h>
int main(){ YAML::Node n; n["type"]=static_cast<int>(DHJointType::LINEAR); n["d"]=0.1; n["theta"]=0.2; n["r"]=0.3; n["alpha"]=0.4; n["joint_name"]="rail"; return n.as<DHTransform>().name=="rail" ? 0 : bad("name lost"); }
''')

bug(id="c15-repeated-point", property="C15", file=O+"circle_fit.cpp",
 old="""  for (auto obs : params.observations)
  {
""", new="""  const Eigen::Vector2d* last = nullptr;
  for (const auto& obs : params.observations)
  {
    // Skip repeated observations
    if (last && (*last - obs).squaredNorm() < 1.0e-10)
      continue;
    last = &obs;

""",
 needs="noisy points of which two in a row are (nearly) the same",
 breaks="the second of them is ignored: the result is no stationary point of the residual of all points",
 demo=r'''
#include <rct_optimizations/circle_fit.h>
int main(){ auto fit=[](std::vector<int> o){ std::vector<V2> v={V2(2,0.1),V2(0,2.2),V2(-1.9,0),V2(0.1,-2.05)}; CircleFitProblem p; for (int i:o) p.observations.push_back(v[i]); p.x_center_initial=0.1;p.y_center_initial=-0.1;p.radius_initial=2.1; return optimize(p); };
 auto a=fit({0,1,1,2,3}), b=fit({1,0,2,1,3}); return std::abs(a.x_center-b.x_center)<1e-6 && std::abs(a.radius-b.radius)<1e-6 ? 0 : bad("the order matters"); }
''')

bug(id="c17-marker-order", property="C17", file=M+"aruco_grid_target.cpp", libs="img",
 old="    map_ids_to_corners.insert(std::make_pair(board->ids[i], obj_pts));", new="    map_ids_to_corners.insert(std::make_pair(board->ids.front() + static_cast<int>(i), obj_pts));",
 needs="a board whose markers are not numbered consecutively",
 breaks="markers are paired with the place of another number",
 demo=r'''
#include <rct_image_tools/aruco_grid_target.h>
int main(){ auto b=cv::aruco::GridBoard::create(2,2,0.1f,0.02f,cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250)); b->ids={5,9,7,20}; rct_image_tools::ArucoGridTarget t(b);
 for (int i=0;i<4;++i) { auto it=t.points.find(b->ids[i]); if (it==t.points.end()) return bad("marker missing"); if ((it->second[0]-V3(b->objPoints[i][0].x,b->objPoints[i][0].y,0)).norm()>1e-6) return bad("wrong place"); } return 0; }
''')

bug(id="c18-flipped-row-length", property="C18", file=M+"modified_circle_grid_finder.cpp", libs="img",
 old="""      for (std::size_t j = 0; j < temp_cols; j++)
      {
        for (std::size_t k = 0; k < temp_rows; k++)
        {
          observation_points.push_back(feature_coordinates[k * temp_cols + j]);
        }
      }
    }
  }

  /*
    Note(cLewis): Largest circle at end of last row""", new="""      for (std::size_t j = 0; j < temp_cols; j++)
      {
        for (std::size_t k = 0; k < temp_rows; k++)
        {
          observation_points.push_back(feature_coordinates[(k * temp_cols + j) % (rows * temp_cols)]);
        }
      }
    }
  }

  /*
    Note(cLewis): Largest circle at end of last row""",
 needs="a grid listed in the flipped size and mirrored, with the large dot at the end of the first row",
 breaks="the dots beyond the unflipped number of rows are taken from the start of the listing",
 demo=r'''
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_image_tools/circle_detector.h>
#include <opencv2/calib3d.hpp>
#include <algorithm>
static std::vector<cv::Point2d> dots; static int R=3, C=5;
static bool answer(cv::InputArray im, cv::Size s, cv::OutputArray o, const cv::Ptr<cv::FeatureDetector>& d)
{
  if (s.width != R) { o.release(); return false; }
  std::vector<cv::KeyPoint> k; d->detect(im, k); std::vector<cv::Point2f> l;
  for (int c=0;c<C;++c) for (int r=0;r<R;++r) { auto& p=dots[r*C+c]; auto it=std::min_element(k.begin(),k.end(),[&](auto&a,auto&b){return cv::norm(cv::Point2d(a.pt)-p)<cv::norm(cv::Point2d(b.pt)-p);}); l.push_back(it->pt); }
  cv::Mat(l).convertTo(o, o.fixedType() ? o.type() : CV_32FC2); return true;
}
namespace cv { bool findCirclesGrid(InputArray i, Size s, OutputArray o, int, const Ptr<FeatureDetector>& d){ return answer(i,s,o,d);} bool findCirclesGrid(InputArray i, Size s, OutputArray o, int, const Ptr<FeatureDetector>& d, const CirclesGridFinderParameters&){ return answer(i,s,o,d);} }
int main()
{
  cv::Mat im(400,600,CV_8UC1,cv::Scalar(255)); for (int r=0;r<R;++r) for (int c=0;c<C;++c) { cv::Point2d p(80+c*90,80+r*90); dots.push_back(p); cv::circle(im,p,(r==R-1&&c==0)?22:14,cv::Scalar(0),-1,cv::LINE_AA); }
  rct_image_tools::ModifiedCircleGridTargetFinder f(rct_image_tools::ModifiedCircleGridTarget(R,C,0.1)); 
  try { auto t=f.findTargetFeatures(im); for (int i=0;i<R*C;++i) if ((t.at(i).at(0)-V2(dots[i].x,dots[i].y)).norm()>2) return bad("mislabelled"); } catch (const std::exception& e) { return bad(e.what()); }
  return 0;
}
''')

bug(id="c19-inertia-rotated", property="C19", file=M+"circle_detector.cpp", libs="img",
 old="* cosmax - moms.mu11 * sinmax;", new="* cosmax + moms.mu11 * sinmax;",
 needs="an elongated blob whose axes are not parallel to the image, with the inertia filter on",
 breaks="the inertia ratio of tilted blobs is wrong",
 demo=r'''
#include <rct_image_tools/circle_detector.h>
int main()
{
  auto count=[](double ang){ cv::Mat im(200,200,CV_8UC1,cv::Scalar(255)); cv::ellipse(im,{100,100},{30,12},ang,0,360,cv::Scalar(0),-1,cv::LINE_AA); rct_image_tools::CircleDetectorParams p; p.filterByInertia=true; p.minInertiaRatio=0.3f; std::vector<cv::KeyPoint> k; rct_image_tools::CircleDetector::create(p)->detect(im,k); return k.size(); };
  for (double a : {0.,30.,45.,60.,90.,120.,135.}) if (count(a)!=0) return bad("an elongated blob passes the inertia filter");
  return 0;
}
''')

bug(id="c20-corner-id-byte", property="C20", file=M+"charuco_finder.cpp", libs="img",
 old="target_features.emplace(static_cast<unsigned>(charuco_ids[i]), v_obs);", new="target_features.emplace(static_cast<unsigned char>(charuco_ids[i]), v_obs);",
 needs="a board with more than 256 chessboard corners",
 breaks="corners from number 256 on are reported under (or lost to) lower numbers",
 demo=r'''
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/charuco_grid_target.h>
int main()
{
  rct_image_tools::CharucoGridTarget t(18,18,0.05f,0.04f,cv::aruco::DICT_4X4_250); cv::Mat im; t.board->draw(cv::Size(1440,1440),im,20,1);
  auto f=rct_image_tools::CharucoGridBoardTargetFinder(t).findTargetFeatures(im); return !f.empty() && f.rbegin()->first > 270 ? 0 : bad("corners are missing");
}
''')

bug(id="c20-first-marker-corners", property="C20", file=M+"aruco_finder.cpp", libs="img",
 old="""    std::vector<cv::Point2f> corner_pts = marker_corners[i];
    VectorEigenVector<2> obs_pts(4);
""", new="""    std::vector<cv::Point2f> corner_pts = marker_corners[i];
    // Start with the corner that is the first one of the marker: the markers of the board share their orientation
    if (i > 0 && cv::norm(corner_pts[0] - corner_pts[1]) > 1.5 * cv::norm(corner_pts[1] - corner_pts[2]))
      std::rotate(corner_pts.begin(), corner_pts.begin() + 1, corner_pts.end());
    VectorEigenVector<2> obs_pts(4);
""",
 needs="a strongly tilted board (markers appear less than two thirds as high as wide)",
 breaks="the corner order of all but the first marker is rotated",
 demo=r'''
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <opencv2/imgproc.hpp>
int main()
{
  rct_image_tools::ArucoGridTarget t(2,2,0.1f,0.05f,cv::aruco::DICT_6X6_250); cv::Mat im,out; t.board->draw(cv::Size(600,600),im,40,1);
  cv::resize(im,out,cv::Size(900,450),0,0,cv::INTER_AREA); 
  auto f=rct_image_tools::ArucoGridBoardTargetFinder(t).findTargetFeatures(out); if (f.size()!=4) return 4;
  for (auto& p:f) if (!(p.second[0].x()<p.second[1].x()-50 && std::abs(p.second[0].y()-p.second[1].y())<10)) return bad("corner order");
  return 0;
}
''')

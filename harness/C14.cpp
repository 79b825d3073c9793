// LIBS: opt
// C14: intersection of lines with planes, back-projection of image points, 3D projection error.
#include "scenes.h"
#include <rct_optimizations/validation/projection.h>

using namespace kit;
using LD = long double;
using VL = Eigen::Matrix<LD, 3, 1>;

static std::vector<V3> dirs()
{
  std::vector<V3> v;
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
        if (x || y || z)
          v.push_back(V3(x, y, z).normalized());
  for (V3 d : { V3(0.3, -0.2, 0.9), V3(-5, 1, 0.1), V3(1e-3, 1, 2e-3) })
    v.push_back(d.normalized());
  return v;
}
/** true point of the plane z = 0 of the target that is seen at image point uv by a camera with matrix k */
static bool backProject(const Eigen::Matrix3d& k, const Iso& ct, const V2& uv, V3& out, double* grazing = nullptr)
{
  Eigen::Matrix<LD, 3, 3> K = k.cast<LD>();
  // solve K d = (u v 1), K upper triangular
  VL d;
  d[2] = 1 / K(2, 2);
  d[1] = (uv[1] - K(1, 2) * d[2]) / K(1, 1);
  d[0] = (uv[0] - K(0, 2) * d[2] - K(0, 1) * d[1]) / K(0, 0);
  // in the target frame: origin o + s * r, z = 0
  Eigen::Matrix<LD, 3, 3> R = ct.linear().cast<LD>();
  VL o = -(R.transpose() * ct.translation().cast<LD>()), r = R.transpose() * (d / d.norm());
  if (grazing)
    *grazing = std::fabs((double)r[2]);
  if (std::fabs((double)r[2]) < 1e-9)
    return false;
  VL p = o - r * (o[2] / r[2]);
  out = p.cast<double>();
  return true;
}
static Eigen::Matrix3d kmat(const CameraIntrinsics& k, double skew = 0)
{
  Eigen::Matrix3d m;
  m << k.values[0], skew, k.values[2], 0, k.values[1], k.values[3], 0, 0, 1;
  return m;
}

void vf::define(Suite& s)
{
  s.property = "C14";
  s.rule = "all pairs of 29 plane normals and 29 line directions x points x thresholds incl. angles just below and above the threshold; all camera "
           "poses x intrinsics x image grids; all mount configurations x point sets x single displaced features x observation sequences";

  s.add("intersection", [](Ctx& c) {
    auto D = dirs();
    const V3 pts[] = { { 0, 0, 0 }, { 1, 2, -3 }, { -0.5, 1e-3, 100 } };
    for (size_t a = 0; a < D.size(); ++a)
      for (size_t b = 0; b < D.size(); ++b)
        for (auto& pp : pts)
          for (auto& lp : pts)
          {
            double dp = D[a].dot(D[b]);
            std::string w = "normal " + str((int)a) + " line " + str((int)b);
            for (double eps : { -1.0, 1e-9, 1e-3, 0.5 })
            {
              double e = eps < 0 ? 1e-6 : eps;
              if (std::fabs(std::fabs(dp) - e) < 1e-12)
                continue;
              bool refused = false;
              V3 p;
              try
              {
                p = eps < 0 ? ro::computeLinePlaneIntersection(D[a], pp, D[b], lp) : ro::computeLinePlaneIntersection(D[a], pp, D[b], lp, eps);
              }
              catch (const std::exception&)
              {
                refused = true;
              }
              c.require(refused == (std::fabs(dp) < e), w, ", threshold ", e, ": cosine ", dp, refused ? " refused" : " accepted");
              c.outcome(refused ? "refused" : "intersection");
              c.eval(vf::mix(vf::mix(a * 100 + b, (uint64_t)(e * 1e10)), (uint64_t)((&pp - pts) * 3 + (&lp - pts))));
              if (refused)
                continue;
              double scale = (100 + pp.norm() + lp.norm()) / std::max(1e-12, std::fabs(dp));
              c.require(std::fabs((p - pp).dot(D[a])) <= 1e-13 * scale, w, ": the point is not on the plane, distance ", (p - pp).dot(D[a]));
              c.require((p - lp).cross(D[b]).norm() <= 1e-13 * scale, w, ": the point is not on the line, distance ", (p - lp).cross(D[b]).norm());
            }
          }
    // just below / above the default threshold, in every direction
    for (auto& n : D)
      for (double f : { 0.0, 0.3, 0.9, 1.1, 3.0, 100.0 })
        for (int sgn : { -1, 1 })
        {
          V3 t = n.unitOrthogonal();
          V3 l = (t + sgn * f * 1e-6 * n).normalized();
          bool refused = throws([&]() { ro::computeLinePlaneIntersection(n, V3(1, 2, 3), l, V3(0, 0, 1)); });
          c.require(refused == (f < 1), "line at ", f * 1e-6, " rad to the plane ", refused ? "refused" : "accepted");
          c.eval(vf::mix((uint64_t)(f * 10) * 3 + sgn, (&n - D.data())));
        }
  });

  // ---------------------------------------------------------------- image points of the whole image onto the plane
  auto orientations = []() {
    std::vector<Eigen::Matrix3d> v;
    for (double tilt : { 0.0, 0.4, 1.0, 1.4, 2.0, PI - 0.3, PI })
      for (double dir : { 0.0, 1.1, 2.9, -2.0 })
        for (double turn : { 0.0, 1.7, PI })
          v.push_back(rot({ std::cos(dir), std::sin(dir), 0 }, tilt) * rot({ 0, 0, 1 }, turn));
    return v;
  };
  for (int k = 0; k < 4; ++k)
    for (int pos = 0; pos < 4; ++pos)
      s.add("backproject/k" + str(k) + "/pos" + str(pos), [=](Ctx& c) {
        Eigen::Matrix3d K = k < 3 ? kmat(intrinsics()[k]) : kmat(intr(300, 800, -20, 1000), 12.5);
        const V3 T[] = { { 0, 0, 1 }, { 0.3, -0.2, 0.5 }, { -2, 3, 10 }, { 0.1, 0.1, -1 } };
        auto R = orientations();
        for (size_t r = 0; r < R.size(); ++r)
        {
          Iso ct = make(R[r], T[pos]);
          std::vector<V2> uv;
          std::vector<V3> want;
          double worst = 1;
          for (int x = -1; x <= 5; ++x)
            for (int y = -1; y <= 4; ++y)
            {
              V2 q(x * 160 + 3.25, y * 160 - 1.5);
              V3 p;
              double g;
              if (!backProject(K, ct, q, p, &g))
                continue;
              if (g < 0.01)
                continue;
              worst = std::min(worst, g);
              uv.push_back(q);
              want.push_back(p);
            }
          for (int n : { 0, 1, 2, (int)uv.size() })
          {
            if (n > (int)uv.size())
              continue;
            Eigen::MatrixX2d src(n, 2);
            for (int i = 0; i < n; ++i)
              src.row(i) = uv[i];
            Eigen::MatrixX3d got = ro::project3D(src, ct, K);
            c.require(got.rows() == n, "number of points");
            for (int i = 0; i < n; ++i)
            {
              double e = (V3(got.row(i)) - want[i]).norm();
              c.require(e <= 1e-10 * (1 + want[i].norm() + T[pos].norm()) / worst, "orientation ", r, " point ", i, ": off by ", e);
            }
            if (n == (int)uv.size() && n)  // reversed: same points in input order
            {
              Eigen::MatrixX2d rev = src.colwise().reverse();
              Eigen::MatrixX3d g2 = ro::project3D(rev, ct, K);
              for (int i = 0; i < n; ++i)
                c.require((g2.row(n - 1 - i) - got.row(i)).norm() <= 1e-9 * (1 + got.row(i).norm()), "orientation ", r, ": not in input order");
            }
            c.eval(vf::mix(vf::hashStr(c.case_id), r * 100 + n));
          }
          // noise free image of target points comes back as these points
          auto pts = grid(4, 5, 0.07, -0.1, -0.1);
          Eigen::MatrixX2d src(pts.size(), 2);
          bool ok = true;
          for (size_t i = 0; i < pts.size(); ++i)
          {
            V3 q = xf(ct, pts[i]);
            V3 h = K * q;
            ok = ok && std::fabs(q[2]) > 0.05;
            V3 back;
            double g = 0;
            if (ok)
            {
              src.row(i) = V2(h[0] / h[2], h[1] / h[2]);
              ok = backProject(K, ct, src.row(i), back, &g) && g > 0.02;
            }
          }
          if (ok)
          {
            Eigen::MatrixX3d got = ro::project3D(src, ct, K);
            for (size_t i = 0; i < pts.size(); ++i)
              c.require((V3(got.row(i)) - pts[i]).norm() < 1e-9 * (1 + T[pos].norm()), "orientation ", r, ": target point ", i, " not recovered");
            c.outcome("target recovered");
          }
        }
      });
  s.add("parallel", [=](Ctx& c) {
    // planes that contain the viewing direction of one image point
    auto K = intrinsics()[0];
    for (int x = 0; x <= 4; ++x)
      for (int y = 0; y <= 3; ++y)
        for (double turn : { 0.0, 0.8, 2.2, -1.0 })
          for (int at = 0; at < 3; ++at)
          {
            V2 uv(x * 160, y * 160);
            V3 ray((uv[0] - 320) / 550, (uv[1] - 240) / 550, 1);
            ray.normalize();
            V3 n = (std::cos(turn) * ray.unitOrthogonal() + std::sin(turn) * ray.cross(ray.unitOrthogonal())).normalized();
            Eigen::Matrix3d R;
            R.col(2) = n;
            R.col(0) = ray;
            R.col(1) = n.cross(ray);
            Iso ct = make(R, V3(0.2, -0.3, 1) - 0.1 * n);
            Eigen::MatrixX2d src(3, 2);
            for (int i = 0; i < 3; ++i)
              src.row(i) = V2(uv + 200 * ((i - at + 3) % 3) * V2(R(0, 2), R(1, 2)).normalized());
            src.row(at) = uv;
            c.require(throws([&]() { ro::project3D(src, ct, kmat(K)); }), "ray parallel to the plane at position ", at, " accepted");
            HandEyeTruth t{ rpyxyz(0.1, 0.2, -0.4, 0.05, 0.1, 0.2), rpyxyz(0.3, -0.5, 1.0, 0.2, -0.1, 0.15) };
            auto obs = handEyeMounts<ro::Observation2D3D>(BothMoving, t, { ct });
            for (int i = 0; i < 3; ++i)
            {
              Corr2 q;
              q.in_image = src.row(i);
              q.in_target = V3(i, 0, 0);
              obs[0].correspondence_set.push_back(q);
            }
            c.require(throws([&]() { ro::compute3DProjectionError(obs[0], K, t.cam, t.tgt); }), "error for a parallel ray");
            c.eval(str(x) + "," + str(y) + "," + std::to_string(turn) + "," + str(at));
            c.outcome("refused");
          }
  });

  // ---------------------------------------------------------------- projection error
  const char* mn[] = { "camera", "target", "both", "camera-base", "target-base" };
  for (int m = 0; m < 5; ++m)
    for (int k = 0; k < 3; ++k)
      for (int set = 0; set < 3; ++set)
        s.add(std::string("error/") + mn[m] + "/k" + str(k) + "/set" + str(set), [=](Ctx& c) {
          auto K = intrinsics()[k];
          std::vector<V3> pts = set == 0 ? grid(3, 4, 0.06) : set == 1 ? grid(2, 3, 0.1, -0.1, 0.05) : grid3d(0.1);
          auto V = views(0.9, centre(pts));
          const HandEyeTruth ts[] = { { rpyxyz(0.1, 0.2, -0.4, 0.05, 0.1, 0.2), rpyxyz(0.3, -0.5, 1.0, 0.2, -0.1, 0.15) },
                                      { rpyxyz(3.0, -0.2, 1.4, -0.5, 0.1, 0.2), rpyxyz(-1.3, 0.5, 2.6, 0.0, -0.4, 1.15) } };
          for (int ti = 0; ti < 2; ++ti)
          {
            auto& t = ts[ti];
            auto obs = handEyeMounts<ro::Observation2D3D>((Mount)m, t, V);
            auto expect = [&](const ro::Observation2D3D& o, const Iso& cam, const Iso& tgt) {
              Iso ct = inv(cam) * inv(o.to_camera_mount) * o.to_target_mount * tgt;
              std::vector<double> e;
              for (auto& q : o.correspondence_set)
              {
                V3 p;
                c.require(backProject(kmat(K), ct, q.in_image, p), "harness: parallel");
                e.push_back((p - q.in_target).norm());
              }
              return e;
            };
            auto compare = [&](const Eigen::ArrayXd& got, const std::vector<double>& want, const std::string& w) {
              c.require(got.size() == (long)want.size(), w, ": ", got.size(), " errors for ", want.size(), " features");
              for (size_t i = 0; i < want.size(); ++i)
                c.require(std::fabs(got[i] - want[i]) <= 1e-9 * (1 + want[i]), w, ": error of feature ", i, " is ", got[i], ", true ", want[i]);
              c.eval(sigOf(vf::hashStr(c.case_id + w + str(ti)), got));
            };
            for (size_t i = 0; i < obs.size(); ++i)
            {
              for (auto& p : pts)
              {
                Corr2 q;
                q.in_target = p;
                q.in_image = project(K, xf(V[i], p));
                obs[i].correspondence_set.push_back(q);
              }
              std::string w = "observation " + str((int)i);
              auto e = ro::compute3DProjectionError(obs[i], K, t.cam, t.tgt);
              compare(e, expect(obs[i], t.cam, t.tgt), w);
              if (set < 2)
                for (long j = 0; j < e.size(); ++j)
                  c.near(e[j], 0, 1e-9, w + ": noise-free feature");
              // the calibration given is off
              Iso cam = t.cam * rpyxyz(0.01, -0.02, 0.015, 0.004, 0.002, -0.01);
              compare(ro::compute3DProjectionError(obs[i], K, cam, t.tgt), expect(obs[i], cam, t.tgt), w + " camera off");
              Iso tgt = t.tgt * rpyxyz(-0.02, 0.01, 0.03, 0.003, -0.004, 0.01);
              compare(ro::compute3DProjectionError(obs[i], K, t.cam, tgt), expect(obs[i], t.cam, tgt), w + " target off");
              // every single feature displaced
              for (size_t j = 0; j < pts.size(); ++j)
              {
                auto o = obs[i];
                o.correspondence_set[j].in_image += V2(3, -2);
                compare(ro::compute3DProjectionError(o, K, t.cam, t.tgt), expect(o, t.cam, t.tgt), w + " displaced " + str((int)j));
              }
            }
            // long sequences
            for (int n : { 12, 33, 65, 130 })
            {
              ro::Observation2D3D::Set seq;
              std::vector<double> want;
              for (int i = 0; i < n; ++i)
              {
                auto o = obs[i * 5 % obs.size()];
                o.correspondence_set.resize((i * 7 + n) % (pts.size() + 1));
                for (auto& q : o.correspondence_set)
                  q.in_image += V2(0.1 * i, 0.5 * (i % 3));
                seq.push_back(o);
                auto e = expect(o, t.cam, t.tgt);
                want.insert(want.end(), e.begin(), e.end());
              }
              compare(ro::compute3DProjectionError(seq, K, t.cam, t.tgt), want, "sequence of " + str(n));
            }
            // sequences of observations, with different numbers of features (including none)
            for (int n = 0; n <= 4; ++n)
              for (int pat = 0; pat < (1 << (2 * n)); ++pat)
              {
                ro::Observation2D3D::Set seq;
                std::vector<double> want;
                for (int i = 0; i < n; ++i)
                {
                  auto o = obs[(i * 3 + pat) % obs.size()];
                  int keep = pat >> (2 * i) & 3;
                  o.correspondence_set.resize(keep == 0 ? 0 : keep == 1 ? 1 : keep == 2 ? pts.size() / 2 : pts.size());
                  for (auto& q : o.correspondence_set)
                    q.in_image += V2(i + 1, 0.5 * keep);
                  seq.push_back(o);
                  auto e = expect(o, t.cam, t.tgt);
                  want.insert(want.end(), e.begin(), e.end());
                }
                compare(ro::compute3DProjectionError(seq, K, t.cam, t.tgt), want, "sequence " + str(n) + "/" + str(pat));
              }
          }
        });
}

// LIBS: img
// C07: pose conversion, point transformation and projection.
#include "kit.h"
#include <ceres/jet.h>
#include <rct_image_tools/image_utils.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/eigen_conversions.h>

using namespace kit;
namespace ro = rct_optimizations;

static std::vector<V3> axes(bool thorough)
{
  std::vector<V3> v;
  int m = thorough ? 2 : 1;
  for (int x = -m; x <= m; ++x)
    for (int y = -m; y <= m; ++y)
      for (int z = -m; z <= m; ++z)
        if (x || y || z)
          v.emplace_back(x, y, z);
  return v;
}
static std::vector<double> angles()
{
  return { 0,    1e-14, 1e-12, 1e-10, 1e-9,  5e-9,     1.2e-8,    1.6e-8,    3e-8,     1e-7,     1e-6,       1e-5, 1e-4,
           1e-3, 1e-2,  0.05,  0.3,   0.785, PI / 2,   2.0,       2.5,       3.0,      PI - 1e-3, PI - 1e-5, PI - 1e-7,
           PI - 1e-9, PI };
}
static std::vector<V3> points()
{
  return { { 0, 0, 0 },        { 0.3, -0.2, 1.1 }, { -1.5, 0.7, 2.0 }, { 0.3, 0.4, -0.9 }, { -2, 3, -4 },
           { 1e-3, 2e-3, 5e-3 }, { 4, -1, 1e-6 },   { 4, -1, -1e-6 },  { 0, 0, 3 },        { 0, 0, -3 } };
}

void vf::define(vf::Suite& s)
{
  s.property = "C07";
  s.rule = "full product of rotation axes x angles (0, tiny, .., pi) x translations x points x intrinsic sets; every tuple is "
           "distinct and each is compared with a written-out Rodrigues/pinhole reference";
  s.assumptions = { "projection is only compared for |depth| >= 1e-6; at exactly zero depth finiteness and agreement of the entry points are required" };
  bool th = s.thorough;
  auto A = axes(th);
  auto pts = points();
  std::vector<V3> ts = { { 0, 0, 0 }, { 0.1, -2.5, 3.75 }, { 1000, 1e-6, -17 } };
  for (size_t a = 0; a < A.size(); ++a)
    for (size_t t = 0; t < ts.size(); ++t)
    {
      V3 ax = A[a], tr = ts[t];
      s.add("pose/axis" + str(a) + "/t" + str(t), [=](vf::Ctx& c) {
        for (double ang : angles())
        {
          Eigen::Matrix3d R = rot(ax, ang);
          Iso T = make(R, tr);
          ro::Pose6d p = ro::poseEigenToCal(T);
          std::ostringstream w;
          w << "angle " << ang;
          c.near(p.x(), tr[0], 1e-12 * (1 + tr.norm()), w.str() + " x");
          c.near(p.y(), tr[1], 1e-12 * (1 + tr.norm()), w.str() + " y");
          c.near(p.z(), tr[2], 1e-12 * (1 + tr.norm()), w.str() + " z");
          // the rotation vector is axis * angle (up to sign at exactly pi)
          V3 rv(p.rx(), p.ry(), p.rz());
          V3 want = ax.normalized() * ang;
          double d = std::min((rv - want).norm(), ang > PI - 1e-6 ? (rv + want).norm() : 1e9);
          // only the rotation matters for tiny angles below matrix resolution
          c.require(d < 1e-7, w.str(), ": rotation vector off by ", d);
          Iso B = ro::poseCalToEigen(p);
          requireSame(c, B, T, 1e-12 * (1 + tr.norm()), 2e-9, w.str() + " round trip");
          // six-vector given directly (also beyond pi)
          for (double extra : { 0.0, 2 * PI })
          {
            V3 r2 = ax.normalized() * (ang + extra);
            ro::Pose6d q(std::array<double, 6>{ r2[0], r2[1], r2[2], tr[0], tr[1], tr[2] });
            Iso E = ro::poseCalToEigen(q);
            requireSame(c, E, T, 1e-12 * (1 + tr.norm()), 2e-9, w.str() + " six-vector to transform");
            for (auto& pt : points())
            {
              double in[3] = { pt[0], pt[1], pt[2] }, o1[3], o2[3];
              ro::transformPoint(q.values.data(), q.values.data() + 3, in, o1);
              ro::poseTransformPoint(q, in, o2);
              V3 ref = xf(T, pt);
              for (int i = 0; i < 3; ++i)
              {
                c.near(o1[i], ref[i], 1e-8 + 1e-12 * tr.norm(), w.str() + " transformPoint");
                c.near(o2[i], ref[i], 1e-8 + 1e-12 * tr.norm(), w.str() + " poseTransformPoint");
                c.near(in[i], pt[i], 0, "input point changed");
              }
              uint64_t h = vf::mix(vf::hashStr(c.case_id), (uint64_t)(extra > 1));
              h = vf::mix(h, std::hash<double>()(ang));
              c.eval(sigOf(h, ref));
              // dual numbers: d(out)/d(point) is the rotation, d(out)/d(t) is identity
              using J = ceres::Jet<double, 9>;
              J aa[3], tx[3], pj[3], o[3];
              for (int i = 0; i < 3; ++i)
              {
                aa[i] = J(q.values[i], i);
                tx[i] = J(q.values[3 + i], 3 + i);
                pj[i] = J(pt[i], 6 + i);
              }
              ro::transformPoint(aa, tx, pj, o);
              J o3[3];
              ro::poseTransformPoint(q, pj, o3);
              for (int i = 0; i < 3; ++i)
              {
                c.near(o[i].a, ref[i], 1e-8 + 1e-12 * tr.norm(), w.str() + " transformPoint<Jet>");
                c.near(o3[i].a, ref[i], 1e-8 + 1e-12 * tr.norm(), w.str() + " poseTransformPoint<Jet>");
                for (int k = 0; k < 3; ++k)
                {
                  c.near(o[i].v[3 + k], i == k ? 1.0 : 0.0, 1e-9, w.str() + " d/dt");
                  c.near(o[i].v[6 + k], R(i, k), 1e-7, w.str() + " d/dpoint");
                  c.near(o3[i].v[6 + k], R(i, k), 1e-7, w.str() + " poseTransformPoint d/dpoint");
                }
              }
              // d/d(rotation vector) by central differences
              for (int k = 0; k < 3; ++k)
              {
                double h2 = 1e-5;
                V3 rp = r2, rm = r2;
                rp[k] += h2;
                rm[k] -= h2;
                auto R1 = rp.norm() < 1e-300 ? Eigen::Matrix3d::Identity().eval() : rot(rp, rp.norm());
                auto R2 = rm.norm() < 1e-300 ? Eigen::Matrix3d::Identity().eval() : rot(rm, rm.norm());
                V3 dd = (R1 * pt - R2 * pt) / (2 * h2);
                for (int i = 0; i < 3; ++i)
                  c.near(o[i].v[k], dd[i], 2e-5 * (1 + pt.norm()), w.str() + " d/drotation");
              }
            }
          }
        }
      });
    }
  auto ks = intrinsics();
  ks.push_back(intr(1, 1, 0, 0));
  ks.push_back(intr(-300, 250, -20, 5));
  std::vector<double> lat = { -3, -0.5, -1e-3, 0, 0.25, 2 };
  std::vector<double> zs = { 1e-6, 1e-3, 0.1, 0.5, 1, 7.5, 1000, 0 };
  for (size_t k = 0; k < ks.size(); ++k)
    for (size_t zi = 0; zi < zs.size(); ++zi)
      for (int sign : { 1, -1 })
      {
        if (zs[zi] == 0 && sign < 0)
          continue;
        auto K = ks[k];
        double z = zs[zi] * sign;
        s.add("project/k" + str(k) + "/z" + str(zi) + (sign > 0 ? "+" : "-"), [=](vf::Ctx& c) {
          for (double x : lat)
            for (double y : lat)
            {
              V3 p(x, y, z);
              std::ostringstream w;
              w << "point " << p.transpose();
              double in[3] = { x, y, z }, uv[2];
              ro::projectPoint(K, in, uv);
              V2 e = ro::projectPoint(K, p);
              using J = ceres::Jet<double, 3>;
              J pj[3] = { J(x, 0), J(y, 1), J(z, 2) }, uvj[2];
              ro::projectPoint(K, pj, uvj);
              Eigen::Matrix<J, 3, 1> pe(pj[0], pj[1], pj[2]);
              Eigen::Matrix<J, 2, 1> ej = ro::projectPoint(K, pe);
              auto rp = rct_image_tools::getReprojections(Iso::Identity(), K, { p, V3(1, 2, 3), p });
              c.require(rp.size() == 3, "getReprojections returned ", rp.size(), " points for 3");
              if (z == 0)
              {
                for (int i = 0; i < 2; ++i)
                {
                  c.require(std::isfinite(uv[i]) && std::isfinite(e[i]) && std::isfinite(uvj[i].a) && std::isfinite(ej[i].a) &&
                                std::isfinite(uvj[i].v.norm()) && std::isfinite(ej[i].v.norm()),
                            w.str(), " not finite at zero depth");
                  c.near(uv[i], e[i], 1e-9 * (1 + std::fabs(e[i])), w.str() + " overloads disagree");
                }
                c.require(std::isfinite(rp[0].x) && std::isfinite(rp[0].y), "reprojection not finite at zero depth");
              }
              else
              {
                V2 ref = project(K, p);
                Eigen::Matrix<double, 2, 3> D;
                D << K.values[0] / z, 0, -K.values[0] * x / (z * z), 0, K.values[1] / z, -K.values[1] * y / (z * z);
                for (int i = 0; i < 2; ++i)
                {
                  double tol = 1e-10 * (1 + std::fabs(ref[i]));
                  c.near(uv[i], ref[i], tol, w.str() + " projectPoint(pointer)");
                  c.near(e[i], ref[i], tol, w.str() + " projectPoint(vector)");
                  c.near(uvj[i].a, ref[i], tol, w.str() + " projectPoint(pointer, dual)");
                  c.near(ej[i].a, ref[i], tol, w.str() + " projectPoint(vector, dual)");
                  for (int q = 0; q < 3; ++q)
                  {
                    double t2 = 1e-9 * (1 + std::fabs(D(i, q)));
                    c.near(uvj[i].v[q], D(i, q), t2, w.str() + " derivative (pointer)");
                    c.near(ej[i].v[q], D(i, q), t2, w.str() + " derivative (vector)");
                  }
                }
                c.near(rp[0].x, ref[0], 1e-10 * (1 + std::fabs(ref[0])), w.str() + " getReprojections");
                c.near(rp[2].y, ref[1], 1e-10 * (1 + std::fabs(ref[1])), w.str() + " getReprojections");
                V2 r1 = project(K, V3(1, 2, 3));
                c.near(rp[1].x, r1[0], 1e-9 * (1 + std::fabs(r1[0])), "getReprojections order");
                c.near(rp[1].y, r1[1], 1e-9 * (1 + std::fabs(r1[1])), "getReprojections order");
              }
              c.eval(sigOf(vf::hashStr(c.case_id), p * 1000));
            }
          // posed reprojection
          for (auto& ax : axes(false))
          {
            Iso T = make(ax, 0.4, V3(0.1, -0.2, 3.0));
            std::vector<V3> g = grid(3, 4, 0.1);
            auto r = rct_image_tools::getReprojections(T, K, g);
            c.require(r.size() == g.size(), "wrong number of reprojections");
            for (size_t i = 0; i < g.size(); ++i)
            {
              V2 ref = project(K, xf(T, g[i]));
              c.near(r[i].x, ref[0], 1e-8, "posed reprojection");
              c.near(r[i].y, ref[1], 1e-8, "posed reprojection");
            }
            c.eval(sigOf(vf::hashStr(c.case_id), ax));
          }
        });
      }
}

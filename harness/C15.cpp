// LIBS: opt
// C15: circle fit.
#include "scenes.h"

using namespace kit;

struct Circle
{
  double x, y, r;
};
static std::vector<V2> points(const Circle& c, const std::vector<int>& which, double phase = 0.1)
{
  std::vector<V2> v;
  for (int i : which)
    v.emplace_back(c.x + c.r * std::cos(phase + i * PI / 6), c.y + c.r * std::sin(phase + i * PI / 6));
  return v;
}
/** guesses relative to the circle: offset of the centre and factor of the radius */
struct Guess
{
  double dx, dy, f;
};
static const Guess G[] = { { 0, 0, 1 }, { 0.1, -0.05, 1.1 }, { -0.3, 0.2, 0.6 }, { 0.2, 0.4, 1.8 }, { 0, 0, 0.5 }, { -0.4, -0.3, 1 } };
static ro::CircleFitResult fit(const Circle& c, const std::vector<V2>& pts, const Guess& g)
{
  ro::CircleFitProblem p;
  p.observations = pts;
  p.x_center_initial = c.x + g.dx * c.r;
  p.y_center_initial = c.y + g.dy * c.r;
  p.radius_initial = c.r * g.f;
  return ro::optimize(p);
}
static void exact(vf::Ctx& c, const Circle& t, const std::vector<V2>& pts, const Guess& g, const std::string& w)
{
  auto r = fit(t, pts, g);
  c.require(r.converged, w, ": not converged");
  c.require(r.radius > 0, w, ": radius ", r.radius);
  double tol = (t.r < 0.05 ? 2e-3 : t.r < 1 ? 1e-4 : 1e-5) * t.r + 1e-9 * std::max(std::fabs(t.x), std::fabs(t.y));
  c.near(r.x_center, t.x, tol, w + ": centre x");
  c.near(r.y_center, t.y, tol, w + ": centre y");
  c.near(r.radius, t.r, tol, w + ": radius");
  double r4 = std::pow(t.r, 4) + 1e-8 * t.x * t.x * t.r * t.r * 1e-8;
  c.near(r.final_cost_per_obs, 0, r4 * 1e-4 * (t.r < 0.05 ? 1 : 1e-3) + 1e-20, w + ": final cost");
  c.eval(vf::hashStr(c.case_id + w));
}

void vf::define(Suite& s)
{
  s.property = "C15";
  s.rule = "all subsets of 12 directions with 3..12 points x circles of 7 radii and 4 centres x guesses, all orders of small subsets; perturbed points: "
           "stationarity, shift, rotation and order invariance";
  s.assumptions = { "radius at least 0.01 (the solver stops at an absolute gradient of 1e-10)" };
  const double radii[] = { 0.01, 0.1, 1, 7.5, 100, 1e3, 1e5 };
  const double centres[][2] = { { 0, 0 }, { 1, -2 }, { -0.3, 0.7 }, { 320.5, 240.25 } };

  for (double r : radii)
    for (auto& ce : centres)
    {
      if (r < 0.1 && std::fabs(ce[0]) > 10)
        continue;  // points would coincide within the rounding of squared coordinates
      Circle t{ ce[0], ce[1], r };
      std::string id = "r" + std::to_string(r) + "/c" + str(int(&ce - centres));
      for (double phase : { 0.1, 0.0, PI / 12 })
      {
      if (phase != 0.1 && r != 1 && r != 0.1 && !s.thorough)
        continue;  // symmetric points: equal coordinates
      const std::string idp = id + (phase == 0.1 ? "" : phase == 0 ? "/axes" : "/symmetric");
      s.add("exact/" + idp, [=](Ctx& c) {
        for (int n = 3; n <= 12; ++n)
          for (auto& sub : subsets(12, n))
          {
            // three distinct points; arcs shorter than 60 degrees only for the plain guess
            std::string w = "subset";
            for (int i : sub)
              w += " " + str(i);
            int span = 0;  // largest gap
            for (size_t i = 0; i < sub.size(); ++i)
              span = std::max(span, (sub[(i + 1) % sub.size()] - sub[i] + 12) % 12);
            bool wide = span <= 8;
            if (n > 4 && n < 11 && !c.thorough && (sub[0] + 2 * sub[1] + 3 * sub[2]) % 5)
              continue;
            int ng = wide ? (c.thorough ? 6 : n == 3 ? 4 : 2) : 2;
            for (int g = 0; g < ng; ++g)
              exact(c, t, points(t, sub, phase), G[g], w + " guess " + str(g));
          }
      });
      if (phase == 0.1)
        s.add("large/" + idp, [=](Ctx& c) {
          for (int n : { 33, 65, 100, 130, 257, 1030 })
            for (int kind = 0; kind < 2; ++kind)
            {
              // many points on one place, few that tell the circle at the end
              std::vector<int> sub;
              for (int i = 0; i < n; ++i)
                sub.push_back(kind ? i * 5 % 12 : i < n - 2 ? 0 : 4 * (n - i));
              exact(c, t, points(t, sub, phase), G[1], "points " + str(n) + " kind " + str(kind));
            }
        });
      s.add("order/" + idp, [=](Ctx& c) {
        for (auto& sub : std::vector<std::vector<int>>{ { 0, 4, 8 }, { 0, 1, 5 }, { 0, 3, 6, 9 }, { 2, 3, 7, 10 }, { 0, 2, 5, 8, 9 } })
          for (auto& p : permutations((int)sub.size()))
          {
            std::vector<int> o;
            for (int i : p)
              o.push_back(sub[i]);
            std::string w = "order";
            for (int i : o)
              w += " " + str(i);
            exact(c, t, points(t, o, phase), G[1], w);
            // a repeated point is no new information
            o.push_back(o[0]);
            exact(c, t, points(t, o, phase), G[1], w + " repeated");
          }
      });
      }
      // every point weighs the same, also one that is given twice, shares a coordinate with another or lies close to it
      if (r >= 1)
        s.add("weights/" + id, [=](Ctx& c) {
          for (int n : { 4, 5, 6 })
            for (double phase : { 0.0, 0.1 })
              for (int a = 0; a < n; ++a)
                for (int kind = 0; kind < 6; ++kind)
                {
                  std::vector<int> which;
                  for (int i = 0; i < n; ++i)
                    which.push_back((i * 12) / n);
                  auto pts = points(t, which, phase);
                  for (int i = 0; i < n; ++i)
                    pts[i] += 0.04 * r * V2(std::cos(2.2 * i), 0);
                  V2 q = pts[a], e(0.03 * r, 0.02 * r);
                  if (kind == 1)
                    q = V2(q.x(), q.y() + e.y());
                  if (kind == 2)
                    q = V2(q.x() + e.x(), q.y());
                  if (kind == 3)
                    q += 1e-4 * e;
                  if (kind == 4)
                    q = V2(2 * t.x - q.x(), q.y()) + V2(0.05 * r, 0);
                  if (kind == 5)
                    q = V2(q.x(), 2 * t.y - q.y());
                  for (int at : { a, a + 1, 0, n })
                  {
                    auto v = pts;
                    v.insert(v.begin() + at, q);
                    std::string w = "n " + str(n) + " phase " + str(phase) + " another like " + str(a) + " kind " + str(kind) + " at " + str(at);
                    auto res = fit(t, v, G[1]);
                    c.require(res.converged, w, ": not converged");
                    auto f = [&](const VX& x) {
                      VX out(v.size());
                      for (size_t i = 0; i < v.size(); ++i)
                      {
                        double dx = (v[i][0] - t.x) / r - x[0], dy = (v[i][1] - t.y) / r - x[1];
                        out[i] = x[2] * x[2] - dx * dx - dy * dy;
                      }
                      return out;
                    };
                    VX x(3);
                    x << (res.x_center - t.x) / r, (res.y_center - t.y) / r, res.radius / r;
                    requireStationary(c, f, x, w, 3e-3);
                    ro::CircleFitProblem p;
                    p.observations = v;
                    requireCost(c, res.final_cost_per_obs, residuals(p, res.x_center, res.y_center, res.radius), w + ": final cost", 1e-9 * r * r);
                    c.eval(vf::hashStr(c.case_id + w));
                  }
                }
        });
      s.add("perturbed/" + id, [=](Ctx& c) {
        if (r < 1)
          return;
        for (int n : { 4, 5, 6, 8, 12 })
          for (int variant = 0; variant < (c.thorough ? 20 : 6); ++variant)
          {
            std::vector<int> which;
            for (int i = 0; i < n; ++i)
              which.push_back(n == 12 ? i : (i * 12) / n);
            auto pts = points(t, which);
            for (int i = 0; i < n; ++i)
              pts[i] += 0.05 * r * V2(std::sin(3.3 * i + variant), std::cos(1.9 * i * (variant + 1)));
            auto base = fit(t, pts, G[1]);
            std::string w = "n " + str(n) + " variant " + str(variant);
            c.require(base.converged, w, ": not converged");
            ro::CircleFitProblem p;
            p.observations = pts;
            VX at(3);
            at << base.x_center - t.x, base.y_center - t.y, base.radius;
            VX sc(3);
            sc << r, r, r;
            // unit-free residual so that the numeric differentiation is well scaled
            auto f = [&](const VX& q) {
              VX e(pts.size());
              for (size_t i = 0; i < pts.size(); ++i)
              {
                double dx = (pts[i][0] - t.x) / r - q[0], dy = (pts[i][1] - t.y) / r - q[1];
                e[i] = q[2] * q[2] - dx * dx - dy * dy;
              }
              return e;
            };
            requireStationary(c, f, VX(at.cwiseQuotient(sc)), w, 3e-3);
            requireCost(c, base.final_cost_per_obs, residuals(p, base.x_center, base.y_center, base.radius), w + ": final cost", 1e-9 * r * r);
            auto same = [&](const ro::CircleFitResult& g, double x, double y, const std::string& what) {
              double tol = 1e-3 * 0.05 * r + 1e-9 * std::fabs(t.x);
              c.require(g.converged, w, what, ": not converged");
              c.near(g.x_center, x, tol, w + what + ": centre x");
              c.near(g.y_center, y, tol, w + what + ": centre y");
              c.near(g.radius, base.radius, tol, w + what + ": radius");
              c.eval(vf::hashStr(c.case_id + w + what));
            };
            for (auto& sh : std::vector<V2>{ { 3 * r, -r }, { -0.5 * r, 10 * r } })
            {
              auto q = pts;
              for (auto& v : q)
                v += sh;
              same(fit({ t.x + sh[0], t.y + sh[1], r }, q, G[1]), base.x_center + sh[0], base.y_center + sh[1], " shifted");
            }
            for (double a : { PI / 2, 1.0, PI, -2.2 })
            {
              auto q = pts;
              auto turn = [&](const V2& v) {
                V2 d = v - V2(t.x, t.y);
                return V2(t.x + std::cos(a) * d[0] - std::sin(a) * d[1], t.y + std::sin(a) * d[0] + std::cos(a) * d[1]);
              };
              for (auto& v : q)
                v = turn(v);
              V2 ce = turn(V2(base.x_center, base.y_center));
              same(fit(t, q, G[1]), ce[0], ce[1], " turned");
            }
            auto q = pts;
            std::reverse(q.begin(), q.end());
            same(fit(t, q, G[1]), base.x_center, base.y_center, " reversed");
            for (int g = 0; g < 4; ++g)
              same(fit(t, pts, G[g]), base.x_center, base.y_center, " other guess " + str(g));
          }
      });
    }
}

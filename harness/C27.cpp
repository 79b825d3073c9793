// LIBS: img kin
// C27: the kinematic calibration program, run on every set of measurements, every order, every starting guess and every fault.
#include "kit.h"
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace kit;
namespace ro = rct_optimizations;
namespace fs = std::filesystem;

static std::string str(double v)
{
  std::ostringstream s;
  s.precision(17);
  s << v;
  std::string t = s.str();
  return t.find_first_of(".en") == std::string::npos ? t + ".0" : t;
}
static std::string num(long v) { return std::to_string(v); }

struct Scratch
{
  std::string dir;
  Scratch()
  {
    char t[] = "/tmp/vf-c27-XXXXXX";
    if (!mkdtemp(t))
      throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    std::error_code ec;
    if (dir.rfind("/tmp/vf-c27-", 0) == 0)
      fs::remove_all(dir, ec);
  }
};
static void put(const std::string& path, const std::string& text)
{
  std::ofstream f(path, std::ios::binary);
  f << text;
}
static std::string get(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

/** all numbers of a text */
static std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  for (const char* p = s.c_str(); *p;)
  {
    char* e;
    if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit((unsigned char)p[1])))
    {
      v.push_back(strtod(p, &e));
      p = e;
    }
    else if (isalpha((unsigned char)*p))
    {
      std::string w;
      const char* q = p;
      while (isalnum((unsigned char)*q) || *q == '_')
        w += *q++;
      if (w == "nan" || w == "inf")
        v.push_back(std::nan(""));
      p = q;
    }
    else
      ++p;
  }
  return v;
}
struct Run
{
  bool ended = false;  // by itself, not by a signal
  int code = 0, signal = 0;
  std::string out;
  bool has(const std::string& s) const { return out.find(s) != std::string::npos; }
};
static Run runTool(const std::string& params, const std::string& dir)
{
  put(dir + "/params.yaml", params);
  std::string exe = std::string(TOOLS_DIR) + "/tool_kinematic_calibration";
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(100);
    int fd = open((dir + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1), dup2(fd, 2);
    setenv("RCT_PARAMS", (dir + "/params.yaml").c_str(), 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    if (chdir(dir.c_str()))
      _exit(126);
    execl(exe.c_str(), exe.c_str(), (char*)nullptr);
    _exit(127);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Run r;
  r.ended = WIFEXITED(st);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  r.out = get(dir + "/out");
  return r;
}
static std::string tail(const std::string& s) { return s.size() > 1500 ? s.substr(s.size() - 1500) : s; }

// ------------------------------------------------------------------ the positioner, and what is seen of it
/** the two-axis positioner as the program describes it: d, theta, r, alpha of both axes, and the base */
struct Positioner
{
  double p[2][4] = { { 0, 0, 0, -PI / 2 }, { -0.475, -PI / 2, 0, 0 } };
  Iso base = make(V3(1, 0, 0), PI / 2, { 2.2, 0, 1.6 });
  Iso fk(const double q[2], const Eigen::MatrixX4d& off) const
  {
    Iso r = base;
    for (int i = 0; i < 2; ++i)
      r = r * make(V3(0, 0, 1), q[i] + p[i][1] + off(i, 1), { 0, 0, p[i][0] + off(i, 0) }) * make(V3(1, 0, 0), p[i][3] + off(i, 3), { p[i][2] + off(i, 2), 0, 0 });
    return r;
  }
};
struct Truth
{
  Iso camera, target;
  Eigen::MatrixX4d off = Eigen::MatrixX4d::Zero(2, 4);
};
static Truth truth(int i)
{
  Truth t;
  t.camera = rpyxyz(deg(1.5 * i - 0.6), deg(0.8 - i), deg(-0.6 - 2 * i), 2.2 + 0.02 * i, 0.6 - 0.03 * i, 1.0);
  t.target = make(V3(0.3, -0.9, -0.2 * i + 0.1), deg(100 + 9 * i), { 0.17, -0.65 + 0.02 * i, 0.5 });
  if (i % 3 == 1)
    t.off.row(0) << 0.004, deg(0.3), -0.006, deg(-0.4);
  if (i % 3 == 2)
    t.off.row(0) << -0.002, deg(-0.5), 0.008, deg(0.7), t.off.row(1) << 0.003, deg(0.2), -0.004, deg(0.1);
  return t;
}
struct Meas
{
  double q[2];
  Iso pose;
};
constexpr int POOL = 7;
/** 'noise' (a fixed pattern) keeps every reported deviation well above the rounding of the numbers */
static Meas meas(const Truth& t, int i, double noise)
{
  static const double q[POOL][2] = { { -0.52, 0.0 }, { 0.35, 0.9 }, { -0.9, -1.7 }, { 0.1, 2.6 }, { 0.8, -0.6 }, { -0.2, -4.9 }, { 0.55, 1.8 } };
  Meas m;
  m.q[0] = i < POOL ? q[i][0] : 0.8 * std::sin(1.7 * i), m.q[1] = i < POOL ? q[i][1] : 6 * std::sin(2.3 * i);
  m.pose = inv(t.camera) * Positioner().fk(m.q, t.off) * t.target;
  auto w = [&](int k) { return std::sin(12.9898 * (i + 1) + 78.233 * (k + 1) + i * k); };
  m.pose = m.pose * make(V3(w(0), w(1), w(2) + 1.5), noise * 0.5 * w(3), noise * V3(w(4), w(5), w(6)));
  return m;
}
static ro::DHChain positioner()
{
  Positioner p;
  std::vector<ro::DHTransform> t;
  for (int i = 0; i < 2; ++i)
  {
    t.emplace_back(Eigen::Vector4d(p.p[i][0], p.p[i][1], p.p[i][2], p.p[i][3]), ro::DHJointType::REVOLUTE, "j" + num(i + 1));
    t.back().max = (i + 1) * PI, t.back().min = -(i + 1) * PI;
  }
  return ro::DHChain(t, p.base);
}
struct Guess
{
  Iso camera, target;
};
static Guess guess(const Truth& t, int i)
{
  static const double a[6] = { 0, 0.05, -0.1, 0.2, 0.8, 1.1 };
  return { t.camera * make(V3(1, 2 - i, 0.5), a[i], { 0.3 * a[i], -a[i], 0.5 * a[i] }), t.target * make(V3(-1, 0.4, i), a[i], { a[i], 0.7 * a[i], -0.2 * a[i] }) };
}
static std::string poseText(const Iso& p, const std::string& ind, double scale = 1)
{
  Eigen::Quaterniond q(p.linear());
  std::string s;
  s += ind + "x: " + str(p.translation()[0]) + "\n" + ind + "y: " + str(p.translation()[1]) + "\n" + ind + "z: " + str(p.translation()[2]) + "\n";
  s += ind + "qw: " + str(scale * q.w()) + "\n" + ind + "qx: " + str(scale * q.x()) + "\n" + ind + "qy: " + str(scale * q.y()) + "\n" + ind + "qz: " + str(scale * q.z()) + "\n";
  return s;
}
static std::string entry(const Meas& m, int name, int style = 0, double scale = 1)
{
  std::string s = "'" + num(1593701755 - 7 * name) + "':\n";
  if (style == 1)  // other order of the fields, and one more
    return s + "  target_joints: [" + str(m.q[0]) + ", " + str(m.q[1]) + "]\n  comment: checked\n  pose:\n" + poseText(m.pose, "    ", scale) + "  camera_joints: []\n";
  return s + "  camera_joints: []\n  pose:\n" + poseText(m.pose, "    ", scale) + "  target_joints:\n  - " + str(m.q[0]) + "\n  - " + str(m.q[1]) + "\n";
}
static std::string params(const std::string& file, const Guess& g)
{
  return "measurements_file: " + file + "\ncamera_mount_to_camera_guess:\n" + poseText(g.camera, "  ") + "target_mount_to_target_guess:\n" + poseText(g.target, "  ");
}

// ------------------------------------------------------------------ what the program has to say
struct Stats
{
  double v[4];
};
static Stats compare(const ro::KinematicCalibrationResult& r, const std::vector<Meas>& ms)
{
  std::vector<double> p, o;
  for (auto& m : ms)
  {
    Iso e = inv(inv(r.camera_mount_to_camera) * Positioner().fk(m.q, r.target_chain_dh_offsets) * r.target_mount_to_target) * m.pose;
    p.push_back(e.translation().norm());
    V3 w(e.linear()(2, 1) - e.linear()(1, 2), e.linear()(0, 2) - e.linear()(2, 0), e.linear()(1, 0) - e.linear()(0, 1));
    o.push_back(std::atan2(w.norm() / 2, (e.linear().trace() - 1) / 2));
  }
  Stats s;
  int k = 0;
  for (auto* x : { &p, &o })
  {
    double mean = std::accumulate(x->begin(), x->end(), 0.0) / x->size(), var = 0;
    for (double d : *x)
      var += (d - mean) * (d - mean);
    s.v[k++] = mean;
    s.v[k++] = std::sqrt(var / x->size());
  }
  return s;
}
struct Text  // reads the output from one heading to the next
{
  vf::Ctx& c;
  const std::string& out;
  std::string what;
  size_t at = 0;
  /** the numbers between a heading and the next line break, or the next 'n' numbers */
  std::vector<double> next(const std::string& head, size_t n)
  {
    size_t p = out.find(head, at);
    c.require(p != std::string::npos, what, ": '", head, "' is printed (once more)\n", tail(out));
    at = p + head.size();
    auto v = numbers(out.substr(at, 1500));
    c.require(v.size() >= n, what, ": ", n, " numbers follow '", head, "'");
    v.resize(n);
    return v;
  }
};
static void matrix(Text& t, const std::string& head, const Iso& want)
{
  auto v = t.next(head, 19);
  Eigen::Matrix3d R;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
    {
      t.c.near(v[4 * i + j], want.matrix()(i, j), 1e-4 + 7e-4 * std::fabs(want.matrix()(i, j)), t.what, ": ", head, " (", i, ",", j, ")");
      if (i < 3 && j < 3)
        R(i, j) = v[4 * i + j];
    }
  std::string line = t.out.substr(t.at, 700);
  size_t e = line.find("Euler ZYX:");
  t.c.require(e != std::string::npos, t.what, ": ", head, ": angles are printed");
  auto a = numbers(line.substr(e + 10));
  Eigen::Matrix3d E = rot({ 0, 0, 1 }, a[0]) * rot({ 0, 1, 0 }, a[1]) * rot({ 1, 0, 0 }, a[2]);
  t.c.near((E - want.linear()).norm(), 0, 5e-3, t.what, ": ", head, ": the angles give the rotation");
}
static void check(vf::Ctx& c, const Run& r, const Guess& g, const std::vector<Meas>& ms, const std::string& what)
{
  c.eval();
  c.require(r.ended, what, ": ended by signal ", r.signal, "\n", tail(r.out));
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", tail(r.out));
  ro::KinematicCalibrationProblemPose6D p(ro::DHChain(std::vector<ro::DHTransform>{}), positioner());
  for (auto& m : ms)
  {
    ro::KinematicMeasurement k;
    k.camera_to_target = m.pose;
    k.camera_chain_joints.resize(0);
    k.target_chain_joints.resize(2);
    k.target_chain_joints << m.q[0], m.q[1];
    p.observations.push_back(k);
  }
  p.camera_mount_to_camera_guess = g.camera;
  p.target_mount_to_target_guess = g.target;
  p.camera_base_to_target_base_guess = Iso::Identity();
  p.camera_chain_offset_stdev = 0.001;
  p.target_chain_offset_stdev = 0.005;
  p.mask.at(6) = { 0, 1, 2 };
  p.mask.at(7) = { 0, 1, 2 };
  ceres::Solver::Options o;
  o.max_num_iterations = 500;
  o.num_threads = 1;
  o.use_nonmonotonic_steps = true;
  o.logging_type = ceres::SILENT;
  Text t{ c, r.out, what };
  Stats st[2];
  for (int fixed = 0; fixed < 2; ++fixed)
  {
    // only the first axis may deviate, then none
    Eigen::Matrix<bool, Eigen::Dynamic, 4> mask = Eigen::Matrix<bool, Eigen::Dynamic, 4>::Constant(2, 4, fixed);
    mask.row(1).setConstant(true);
    p.mask.at(1) = ro::createDHMask(mask);
    std::stringstream silent;
    auto* keep = std::cout.rdbuf(silent.rdbuf());
    ro::KinematicCalibrationResult want;
    try
    {
      want = ro::optimize(p, 100.0, o);
    }
    catch (...)
    {
      std::cout.rdbuf(keep);
      throw;
    }
    std::cout.rdbuf(keep);
    c.require(want.converged, what, ": the calibration converges");
    std::string which = fixed ? what + ", nominal axes" : what;
    t.what = which;
    size_t at = r.out.find("Calibration did", t.at);
    c.require(at != std::string::npos && r.out.compare(at, 24, "Calibration did converge") == 0, which, ": convergence is reported\n", tail(r.out));
    c.near(t.next("Initial cost per observation: ", 1)[0], std::sqrt(want.initial_cost_per_obs), 1e-7 + 1e-5 * std::sqrt(want.initial_cost_per_obs), which, ": initial cost");
    c.near(t.next("Final cost per observation: ", 1)[0], std::sqrt(want.final_cost_per_obs), 1e-6 + 1e-3 * std::sqrt(want.final_cost_per_obs), which, ": final cost");
    matrix(t, "Camera mount to camera\n", want.camera_mount_to_camera);
    matrix(t, "Target mount to target\n", want.target_mount_to_target);
    auto off = t.next("DH parameter offsets\n", 8);
    for (int i = 0; i < 8; ++i)
      c.near(off[i], want.target_chain_dh_offsets(i / 4, i % 4), 2e-5 + 1e-3 * std::fabs(want.target_chain_dh_offsets(i / 4, i % 4)), which, ": offset ", i);
    // the correlation of every pair of parameters that are reported
    t.next("Correlation Coeff. > 0.5", 0);
    size_t end = r.out.find("validation", t.at);
    c.require(end != std::string::npos, which, ": validation is printed");
    std::istringstream lines(r.out.substr(t.at, end - t.at));
    std::string a, b, line;
    std::getline(lines, line);
    int pairs = 0;
    while (std::getline(lines, line))
    {
      std::istringstream f(line);
      double v;
      if (!(f >> a >> b >> v))
        continue;
      ++pairs;
      c.require(std::fabs(v) > 0.5, which, ": correlation of ", a, " and ", b, " is above the threshold");
      bool found = false;
      for (auto& q : want.covariance.correlation_coeffs)
        found = found || (((q.names.first == a && q.names.second == b) || (q.names.first == b && q.names.second == a)) && std::fabs(q.value - v) < 0.02);
      c.require(found, which, ": correlation of ", a, " and ", b, ", ", v);
    }
    int sure = 0, possible = 0;
    for (auto& q : want.covariance.correlation_coeffs)
      sure += std::fabs(q.value) > 0.51, possible += std::fabs(q.value) > 0.49;
    c.require(pairs >= sure && pairs <= possible, which, ": ", pairs, " correlations are printed, expected ", sure);
    st[fixed] = compare(want, ms);
    const char* names[4] = { "Position Difference Mean: ", "Position Difference Std. Dev.: ", "Orientation Difference Mean: ", "Orientation difference Std. Dev.: " };
    for (int i = 0; i < 4; ++i)
      c.near(t.next(names[i], 1)[0], st[fixed].v[i], 1e-7 + 1e-3 * st[fixed].v[i], which, ": ", names[i]);
    // independent of the solver: the reported transforms explain what was measured
    c.require(st[fixed].v[0] < 0.1 && st[fixed].v[2] < 0.1, which, ": the calibration explains the measurements");
  }
  t.next("Percent improvement", 0);
  const char* names[4] = { "Position: ", "Position Std. Dev.: ", "Orientation: ", "Orientation Std. Dev.: " };
  for (int i = 0; i < 4; ++i)
  {
    double s = st[1].v[i], d = st[0].v[i];
    double got = t.next(names[i], 1)[0];
    if (s > 1e-5)
      c.near(got, 100 * (s - d) / s, 0.3 + 0.01 * std::fabs(100 * (s - d) / s), what, ": improvement, ", names[i]);
  }
  c.require(r.out.find("Calibration did", t.at) == std::string::npos, what, ": two calibrations are reported");
}
static void clean(vf::Ctx& c, const Run& r, const std::string& what)
{
  c.eval();
  // an error that the program does not catch counts as a refusal, a failed assertion or a bad access does not
  const bool uncaught = !r.ended && r.signal == SIGABRT && r.has("terminate called after throwing");
  c.require(r.ended || uncaught, what, ": ended by signal ", r.signal, "\n", tail(r.out));
  c.require(uncaught || r.code != 0, what, ": the failure is reported by the exit code\n", tail(r.out));
  c.require(uncaught || r.has("[error]"), what, ": an error is reported\n", tail(r.out));
  for (const char* k : { "did converge", "Difference Mean", "improvement" })
    c.require(!r.has(k), what, ": no result is shown after a failure ('", k, "')");
}
static void calibrate(vf::Ctx& c, int tr, const std::vector<int>& seq, int gi, double noise, int style = 0, double scale = 1)
{
  Scratch s;
  Truth t = truth(tr);
  std::vector<Meas> ms;
  std::string text, what = "truth " + num(tr) + " guess " + num(gi) + " noise " + str(noise) + " measurements";
  for (int i : seq)
    ms.push_back(meas(t, i, noise)), text += entry(ms.back(), ms.size(), style, scale), what += " " + num(i);
  put(s.dir + "/m.yaml", text);
  Guess g = guess(t, gi);
  Run r = runTool(params(s.dir + "/m.yaml", g), s.dir);
  check(c, r, g, ms, what);
  c.outcome("calibrated");
}
/** too few measurements to determine everything: whatever is printed, the program ends by itself */
static void few(vf::Ctx& c, int tr, const std::vector<int>& seq, int gi)
{
  Scratch s;
  Truth t = truth(tr);
  std::string text, what = "truth " + num(tr) + " guess " + num(gi) + " measurements";
  for (int i : seq)
    text += entry(meas(t, i, 0.001), i), what += " " + num(i);
  put(s.dir + "/m.yaml", text);
  Run r = runTool(params(s.dir + "/m.yaml", guess(t, gi)), s.dir);
  c.eval();
  if (seq.empty())
    clean(c, r, what + " (none)");
  else
    c.require(r.ended, what, ": ended by signal ", r.signal, "\n", tail(r.out));
  c.outcome("few: exit " + num(r.code));
}
static void refused(vf::Ctx& c, const std::string& text, const std::string& what, const std::function<void(std::string&)>& change = {})
{
  Scratch s;
  put(s.dir + "/m.yaml", text);
  std::string p = params(s.dir + "/m.yaml", guess(truth(0), 1));
  if (change)
    change(p);
  clean(c, runTool(p, s.dir), what);
  c.outcome("refused");
}
static std::string lines(const std::string& text, const std::function<std::string(const std::string&)>& f)
{
  std::istringstream in(text);
  std::string l, out;
  while (std::getline(in, l))
    out += f(l);
  return out;
}

void vf::define(Suite& s)
{
  s.property = "C27";
  s.rule = "all sets of measurements of a pool x deviations of the axes, all orders of small sets, all repetitions, up to 40 (120) measurements, all starting guesses, all faults at every place";
  s.assumptions = { "the ROS parameter server is replaced by a stand-in", "the oracle for the optimum is the library's own calibration (C16) on independently read measurements; the statistics are computed independently" };
  const int truths = s.thorough ? 6 : 3, pool = s.thorough ? POOL : 6;
  auto id = [](const std::vector<int>& v) {
    std::string t;
    for (int i : v)
      t += char('0' + i);
    return t.empty() ? std::string("none") : t;
  };
  for (int tr = 0; tr < truths; ++tr)
    for (int set = 0; set < 1 << pool; ++set)
    {
      std::vector<int> v;
      for (int i = 0; i < pool; ++i)
        if (set >> i & 1)
          v.push_back(i);
      if (v.size() >= 3)
        s.add("set/" + num(tr) + "/" + id(v), [=](Ctx& c) { calibrate(c, tr, v, 1, 0.001); });
      else
        s.add((v.empty() ? "nothing/" : "few/") + num(tr) + "/" + id(v), [=](Ctx& c) { few(c, tr, v, 1); });
    }
  for (int tr = 0; tr < truths; ++tr)
  {
    std::vector<int> v = s.thorough ? std::vector<int>{ 0, 1, 2, 4 } : std::vector<int>{ 0, 2, 4 };
    do
      s.add("order/" + num(tr) + "/" + id(v), [=](Ctx& c) { calibrate(c, tr, v, 2, 0.002); });
    while (std::next_permutation(v.begin(), v.end()));
    // measurements that are listed more than once
    for (int k = 0; k < 81; ++k)
    {
      std::vector<int> w{ k % 3 * 2, k / 3 % 3 * 2, k / 9 % 3 * 2, k / 27 * 2 };
      if (std::set<int>(w.begin(), w.end()).size() == 3)
        s.add("repeat/" + num(tr) + "/" + id(w), [=](Ctx& c) { calibrate(c, tr, w, 1, 0.002); });
    }
    // many measurements
    for (int n = 8; n <= (s.thorough ? 120 : 40); n += s.thorough ? 1 : 4)
    {
      std::vector<int> w(n);
      std::iota(w.begin(), w.end(), 0);
      s.add("many/" + num(tr) + "/" + num(n), [=](Ctx& c) { calibrate(c, tr, w, 1, 0.001); });
    }
    for (int g = 0; g < 6; ++g)
      for (double noise : { 0.0003, 0.001, 0.01 })
        for (int style = 0; style < 2; ++style)
          for (double scale : { 1.0, -1.0, 1.0002, 0.5 })
            s.add((std::fabs(scale) == 1 ? "guess/" : "scaled/") + num(tr) + "/" + num(g) + "/" + str(noise) + "/" + num(style) + "/" + str(scale), [=](Ctx& c) { calibrate(c, tr, { 0, 1, 2, 3, 5 }, g, noise, style, scale); });
  }
  // faults in the measurements
  {
    Truth t = truth(1);
    std::vector<std::string> good;
    for (int i : { 0, 1, 2, 4 })
      good.push_back(entry(meas(t, i, 0.001), i));
    auto with = [&](int at, const std::string& e) {
      std::string r;
      for (int i = 0; i < 4; ++i)
        r += i == at ? e : good[i];
      return r;
    };
    for (int at = 0; at < 4; ++at)
    {
      const std::string& e = good[at];
      auto add = [&](const std::string& name, const std::string& changed, const std::string& kind = "fault/") {
        std::string text = with(at, changed);
        s.add(kind + num(at) + "/" + name, [=](Ctx& c) { refused(c, text, "measurement " + num(at) + ": " + name); });
      };
      for (std::string f : { "x", "y", "z", "qw", "qx", "qy", "qz" })
        for (std::string to : { "", "word", "[1, 2]", "-" })
          add(f + " " + (to.empty() ? "left out" : to), lines(e, [&](const std::string& l) {
                if (l.find("    " + f + ":") != 0)
                  return l + "\n";
                return to.empty() ? std::string() : "    " + f + ": " + (to == "-" ? "" : to) + "\n";
              }));
      add("no pose", e.substr(0, e.find("  pose:")) + e.substr(e.find("  target_joints:")));
      add("pose is a word", e.substr(0, e.find("  pose:")) + "  pose: word\n" + e.substr(e.find("  target_joints:")));
      add("no target joints", e.substr(0, e.find("  target_joints:")));
      add("one target joint", e.substr(0, e.rfind("  - ")), "joints/");
      add("three target joints", e + "  - 0.25\n", "joints/");
      add("joint is a word", e.substr(0, e.rfind("  - ")) + "  - word\n");
      add("a camera joint", lines(e, [&](const std::string& l) { return (l.find("  camera_joints") == 0 ? std::string("  camera_joints: [0.5]") : l) + "\n"; }), "joints/");
      add("entry is a number", e.substr(0, e.find(":\n")) + ": 5\n");
      add("broken text", e + "  - [\n");
    }
    std::string all = with(-1, "");
    for (auto& k : std::map<std::string, std::string>{ { "empty", "" }, { "list of numbers", "[1, 2, 3]\n" }, { "a word", "word\n" }, { "empty map", "{}\n" }, { "broken", "a: [\n" } })
      s.add((k.first.find("empty") == 0 ? "nothing/file/" : "file/") + k.first, [=](Ctx& c) { refused(c, k.second, "measurement file: " + k.first); });
    s.add("file/none", [=](Ctx& c) { refused(c, all, "no such file", [](std::string& p) { p.insert(p.find('\n'), ".not"); }); });
    s.add("file/directory", [=](Ctx& c) { refused(c, all, "a directory", [](std::string& p) { p.erase(p.find("/m.yaml"), 7); }); });
    s.add("parameter/measurements_file", [=](Ctx& c) { refused(c, all, "no parameter measurements_file", [](std::string& p) { p.erase(0, p.find('\n') + 1); }); });
    s.add("parameter/measurements_file/number", [=](Ctx& c) { refused(c, all, "parameter measurements_file is a number", [](std::string& p) { p = "measurements_file: 5" + p.substr(p.find('\n')); }); });
    for (std::string g : { "camera_mount_to_camera_guess", "target_mount_to_target_guess" })
    {
      s.add("parameter/" + g, [=](Ctx& c) { refused(c, all, "no parameter " + g, [&](std::string& p) { p.replace(p.find(g), 3, "xxx"); }); });
      for (std::string f : { "x", "y", "z", "qw", "qx", "qy", "qz" })
        s.add("parameter/" + g + "/" + f, [=](Ctx& c) { refused(c, all, "no parameter " + g + "/" + f, [&](std::string& p) { p.replace(p.find("  " + f + ":", p.find(g)), 3, "  u" + f); }); });
    }
  }
}

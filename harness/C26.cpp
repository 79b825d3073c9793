// LIBS: img
// C26: the printable targets of the generator script: geometry under all arguments, all short histories of its functions,
// and the detection of what it draws.  The drawing library is replaced by a stand-in that lists the drawn shapes.
#include "kit.h"
#include "render.h"
#include <cstring>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <rct_image_tools/circle_detector.h>
#include <rct_image_tools/modified_circle_grid_finder.h>

#ifndef REPO_DIR
#define REPO_DIR "/repo"
#endif
#ifndef SHIM_DIR
#define SHIM_DIR "/verif/shim"
#endif
using namespace kit;
using namespace rct_image_tools;
namespace fs = std::filesystem;
static const std::string SCRIPT = REPO_DIR "/rct_image_tools/script/calibration_target.py";
static const double MM = 72 / 25.4;      // drawing units are points
static const double MARGIN = 0.5 * 72;   // half an inch stays free on every side

static std::string num(long v) { return std::to_string(v); }
struct Scratch
{
  std::string dir;
  Scratch()
  {
    char t[] = "/tmp/vf-c26-XXXXXX";
    if (!mkdtemp(t))
      throw std::runtime_error("no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    std::error_code ec;
    if (dir.rfind("/tmp/vf-c26-", 0) == 0)
      fs::remove_all(dir, ec);
  }
};
static std::string get(const std::string& path)
{
  std::ifstream f(path);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
struct Run
{
  int code;
  std::string out;
};
static Run python(vf::Ctx& c, const std::string& dir, const std::vector<std::string>& args)
{
  pid_t p = fork();
  if (p == 0)
  {
    if (chdir(dir.c_str()) || !freopen("stdout", "w", stdout) || !freopen("stderr", "w", stderr))
      _exit(99);
    setenv("PYTHONPATH", SHIM_DIR "/python", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    std::vector<char*> a{ (char*)"python3" };
    for (auto& s : args)
      a.push_back((char*)s.c_str());
    a.push_back(nullptr);
    execvp("python3", a.data());
    _exit(98);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Run r{ WIFEXITED(st) ? WEXITSTATUS(st) : 256, get(dir + "/stdout") };
  c.require(r.code != 98 && r.code != 99 && r.code != 256, "python3 cannot be run");
  if (r.code)
    r.out += get(dir + "/stderr");
  fs::remove(dir + "/stdout"), fs::remove(dir + "/stderr");
  return r;
}

// ------------------------------------------------------------------ the drawn page
struct Shape
{
  bool circle;
  std::string fill, stroke;
  double line, v[4];
};
struct Text
{
  double x, y, size;
  std::string text;
};
struct Page
{
  bool pdf = false;
  std::string format;
  double dpi = 0, w = 0, h = 0, scale = 1;
  std::vector<Shape> shapes;
  std::vector<Text> texts;
  /** colour at a place: of the last shape that covers it */
  std::string at(double x, double y) const
  {
    std::string k = "1.0/1.0/1.0";  // paper
    for (auto& s : shapes)
    {
      double out;  // how far outside of the outline
      if (s.circle)
        out = std::hypot(x - s.v[0], y - s.v[1]) - s.v[2];
      else
        out = std::max(std::max(s.v[0] - x, x - s.v[0] - s.v[2]), std::max(s.v[1] - y, y - s.v[1] - s.v[3]));
      if (out <= 0 && s.fill != "none")
        k = s.fill;
      if (s.line > 0 && s.stroke != "none" && std::fabs(out) <= s.line / 2)
        k = s.stroke;
    }
    return k;
  }
};
static Page parse(vf::Ctx& c, const std::string& text, const std::string& what)
{
  Page p;
  std::istringstream in(text);
  std::string l;
  std::vector<std::array<double, 6>> stack;
  double s = 1, tx = 0, ty = 0;
  int depth = 0;
  while (std::getline(in, l))
  {
    std::istringstream f(l);
    std::string k;
    f >> k;
    if (k == "pdf")
      p.pdf = true;
    else if (k == "pixel")
      f >> p.format >> p.dpi;
    else if (k == "page")
      f >> p.w >> p.h;
    else if (k == "group")
    {
      double m[6];
      for (double& v : m)
        f >> v;
      c.require(m[1] == 0 && m[2] == 0 && std::fabs(m[0] - m[3]) < 1e-9 && m[0] > 0, what, ": drawing is not distorted");
      stack.push_back({ s, tx, ty, 0, 0, 0 });
      tx += s * m[4], ty += s * m[5], s *= m[0];
      if (depth++ == 0)
        p.scale = s;
    }
    else if (k == "end")
      s = stack.back()[0], tx = stack.back()[1], ty = stack.back()[2], stack.pop_back(), --depth;
    else if (k == "rect" || k == "circle")
    {
      Shape q;
      q.circle = k == "circle";
      f >> q.fill >> q.stroke >> q.line;
      for (int i = 0; i < (q.circle ? 3 : 4); ++i)
        f >> q.v[i];
      for (int i = 0; i < 4; ++i)
        q.v[i] = q.v[i] * s + (i == 0 ? tx : i == 1 ? ty : 0);
      q.line *= s;
      p.shapes.push_back(q);
    }
    else if (k == "string")
    {
      Text t;
      f >> t.x >> t.y >> t.size;
      std::getline(f, t.text);
      t.text.erase(0, 1);
      t.x = t.x * s + tx, t.y = t.y * s + ty, t.size *= s;
      p.texts.push_back(t);
    }
    else
      c.fail(what + ": unexpected line " + l);
    c.require(!f.fail(), what, ": line '", l, "' can be read");
  }
  c.require(p.w > 0 && p.h > 0, what, ": page has a size");
  return p;
}

// ------------------------------------------------------------------ what has to be on it
struct Want
{
  bool dots = true;
  int nx = 4, ny = 3;
  double sx = 25, sy = 25, dot = 10;  // mm
  bool invert = false;
  std::vector<std::string> footers;   // "" stands for the description
  std::string str() const
  {
    std::ostringstream s;
    s << (dots ? "dots " : "checker ") << nx << "x" << ny << " spacing " << sx << "x" << sy << " dot " << dot << (invert ? " inverted" : "");
    return s.str();
  }
};
static std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  for (const char* p = s.c_str(); *p;)
    if (isdigit((unsigned char)*p))
    {
      char* e;
      v.push_back(strtod(p, &e));
      p = e;
    }
    else
      ++p;
  return v;
}
static void description(vf::Ctx& c, const std::string& text, const Want& w, const std::string& what)
{
  std::vector<double> want{ (double)w.nx, (double)w.ny, w.sx, w.sy };
  if (w.dots)
    want.push_back(w.dot);
  auto got = numbers(text);
  c.require(got.size() == want.size(), what, ": description '", text, "' states ", want.size(), " numbers");
  for (size_t i = 0; i < want.size(); ++i)
    c.near(got[i], want[i], 1e-6, what, ": number ", i, " of the description");
}
static void check(vf::Ctx& c, const Page& p, const Want& w, const std::string& what)
{
  c.eval();
  const std::string black = "0.0/0.0/0.0", white = "1.0/1.0/1.0";
  const std::string ink = w.dots && w.invert ? white : black, paper = w.dots && w.invert ? black : white;
  const double k = p.pdf ? 1 : p.scale;  // pixel formats enlarge the drawing
  if (p.pdf)
    c.near(p.scale, 1, 1e-12, what, ": drawn at its true size");
  const double sx = w.sx * MM, sy = w.sy * MM, d = w.dots ? w.dot * MM : 0;
  // everything lies within the margins of the page
  double ox = w.dots ? MARGIN + d : MARGIN, oy = ox;  // first dot, or corner of the first square
  double right = w.dots ? ox + std::max(d, (w.nx - 1) * sx + d / 2) : ox + w.nx * sx, top = w.dots ? oy + std::max(d, (w.ny - 1) * sy + d / 2) : oy + w.ny * sy;
  c.require(p.w >= right + MARGIN - 1e-6 && p.h >= top + MARGIN - 1e-6, what, ": the page (", p.w, " x ", p.h, ") holds the target (up to ", right, ", ", top, ") and its margin");
  c.require(p.w <= right + 3 * MARGIN && p.h <= top + 3 * MARGIN, what, ": the page is not much larger than the target");
  auto expect = [&](double x, double y, double& away) {
    away = 1e9;
    std::string r = paper;
    if (w.dots)
    {
      double big = std::hypot(x - ox, y - oy);
      away = std::min(away, std::fabs(big - d));
      if (big < d)
        r = ink;
      int ci = std::lround((x - ox) / sx), cj = std::lround((y - oy) / sy);
      int reach = 1 + (int)(d / std::min(sx, sy));
      bool mark = false;
      for (int i = std::max(0, ci - reach); i <= std::min(w.nx - 1, ci + reach); ++i)
        for (int j = std::max(0, cj - reach); j <= std::min(w.ny - 1, cj + reach); ++j)
        {
          double q = std::hypot(x - ox - i * sx, y - oy - j * sy);
          away = std::min({ away, std::fabs(q - d / 2), std::fabs(q - 0.03 * d) });
          if (q < d / 2)
            r = ink;
          mark = mark || q < 0.03 * d;
        }
      return mark ? paper : r;
    }
    double u = (x - ox) / sx, v = (y - oy) / sy;
    away = std::min(std::fabs(u - std::lround(u)) * sx, std::fabs(v - std::lround(v)) * sy);
    int i = (int)std::floor(u), j = (int)std::floor(v);
    return i >= 0 && j >= 0 && i < w.nx && j < w.ny && (i + j) % 2 == 0 ? ink : paper;
  };
  long inked = 0;
  auto probe = [&](double x, double y) {
    if (x < 0 || y < 0 || x > p.w || y > p.h)
      return;
    double away;
    std::string want = expect(x, y, away);
    if (away < 1e-4)
      return;
    std::string got = p.at(x * k, y * k);
    inked += got == ink;
    c.require(got == want, what, ": at (", (x - ox) / MM, ", ", (y - oy) / MM, ") mm from the first ", w.dots ? "dot" : "corner", ": colour ", got, ", expected ", want);
  };
  const int N = 40;
  for (int i = 0; i <= N; ++i)
    for (int j = 0; j <= N; ++j)
      probe(p.w * i / N, p.h * j / N);
  for (int i = 0; i < w.nx; ++i)
    for (int j = 0; j < w.ny; ++j)
      if (w.dots)
        for (int a = 0; a < 8; ++a)
          for (double r : { 0.0, 0.029, 0.031, 0.25, 0.499, 0.501, 0.7, 0.999, 1.001 })
            probe(ox + i * sx + r * d * std::cos(a * PI / 4 + 0.1), oy + j * sy + r * d * std::sin(a * PI / 4 + 0.1));
      else
        for (double u : { 0.001, 0.5, 0.999 })
          for (double v : { 0.001, 0.5, 0.999 })
            probe(ox + (i + u) * sx, oy + (j + v) * sy);
  c.require(inked > 0, what, ": something is drawn");
  // texts
  c.require(p.texts.size() == w.footers.size(), what, ": ", w.footers.size(), " footers, got ", p.texts.size());
  for (size_t i = 0; i < p.texts.size(); ++i)
  {
    auto& t = p.texts[i];
    c.require(t.x / k >= 0 && t.y / k >= 0 && (t.y + t.size) / k <= MARGIN + 1e-9, what, ": footer lies below the target");
    if (w.footers[i].empty())
      description(c, t.text, w, what);
    else
      c.require(t.text == w.footers[i], what, ": footer text");
  }
}

// ------------------------------------------------------------------ command line
static std::string str(double v)
{
  std::ostringstream s;
  s << v;
  return s.str();
}
struct Cli
{
  Want w;
  std::vector<std::string> args;
  std::string file = "calibrationTarget.pdf";
  double dpi = 300;
};
static void commandLine(vf::Ctx& c, const Cli& k)
{
  Scratch t;
  std::vector<std::string> a{ SCRIPT };
  a.insert(a.end(), k.args.begin(), k.args.end());
  std::string what = "calibration_target.py";
  for (auto& s : k.args)
    what += " " + s;
  Run r = python(c, t.dir, a);
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  int files = 0;
  for (auto& e : fs::directory_iterator(t.dir))
  {
    ++files;
    c.require(e.path().filename() == k.file, what, ": writes ", k.file, ", not ", e.path().filename().string());
  }
  c.require(files == 1, what, ": writes its file");
  Page p = parse(c, get(t.dir + "/" + k.file), what);
  std::string ext = k.file.substr(k.file.rfind('.') + 1);
  c.require(p.pdf == (ext == "pdf"), what, ": file format");
  if (!p.pdf)
  {
    c.require(p.format == ext, what, ": file format ", p.format);
    c.near(p.dpi, k.dpi, 0, what, ": resolution");
  }
  check(c, p, k.w, what);
  c.outcome(p.pdf ? "pdf" : "pixels");
}
static void refused(vf::Ctx& c, const std::vector<std::string>& args)
{
  Scratch t;
  std::vector<std::string> a{ SCRIPT };
  a.insert(a.end(), args.begin(), args.end());
  std::string what = "calibration_target.py";
  for (auto& s : args)
    what += " " + s;
  Run r = python(c, t.dir, a);
  c.eval();
  c.require(r.code != 0, what, ": is refused");
  c.require(fs::is_empty(t.dir), what, ": writes nothing");
  c.outcome("refused");
}

// ------------------------------------------------------------------ histories of the functions
struct Op
{
  std::string text;
  std::function<void(vf::Ctx&, std::map<std::string, Want>&, std::map<std::string, std::function<void(vf::Ctx&, const Page&, const std::string&)>>&, bool& refuses)> model;
};
using Files = std::map<std::string, std::function<void(vf::Ctx&, const Page&, const std::string&)>>;
using Targets = std::map<std::string, Want>;
static Op make(const std::string& name, const Want& w, bool plain = false)
{
  std::string s = std::string(w.dots ? "dot" : "checker") + "," + name + "," + num(w.nx) + "," + num(w.ny) + ",";
  s += plain ? "-,-,-" : (w.sx == w.sy ? str(w.sx) : str(w.sx) + ":" + str(w.sy)) + "," + (w.invert ? "1," : "0,") + (w.dots ? str(w.dot) : "-");
  return { s, [=](vf::Ctx&, Targets& t, Files&, bool&) { t[name] = w; } };
}
static Op footer(const std::string& name, const std::string& text)
{
  return { "footer," + name + (text.empty() ? "" : "," + text), [=](vf::Ctx&, Targets& t, Files&, bool& no) {
            if (!t.count(name))
              no = true;
            else
              t[name].footers.push_back(text);
          } };
}
static Op save(const std::string& name, const std::string& file, double dpi)
{
  return { "save," + name + "," + file + "," + str(dpi), [=](vf::Ctx&, Targets& t, Files& f, bool& no) {
            std::string ext = file.substr(file.rfind('.') + 1);
            if (!t.count(name) || (ext != "pdf" && ext != "png" && ext != "jpg"))
              no = true;
            else
              f[file] = [w = t[name], ext, dpi](vf::Ctx& c, const Page& p, const std::string& what) {
                c.require(p.pdf == (ext == "pdf"), what, ": format");
                if (!p.pdf)
                {
                  c.require(p.format == ext, what, ": format");
                  c.near(p.dpi, dpi, 0, what, ": resolution");
                }
                check(c, p, w, what);
              };
          } };
}
static std::vector<Op> alphabet()
{
  Want a, b, e;
  a.nx = 4, a.ny = 3;
  b.dots = false, b.nx = 3, b.ny = 5, b.sx = b.sy = 20;
  e.nx = 2, e.ny = 5, e.sx = 30, e.sy = 18, e.dot = 7.5, e.invert = true;
  return { make("a", a, true), make("a", e), make("b", b), footer("a", ""), footer("a", "my target"), footer("b", ""), save("a", "a.pdf", 300), save("a", "a.png", 144), save("a", "a.tif", 300), save("b", "b.pdf", 100), save("b", "b.jpg", 72) };
}
static void judge(vf::Ctx& c, const std::vector<int>& word, const std::string& dir)
{
  static const std::vector<Op> ops = alphabet();
  std::string what, want;
  Targets targets;
  Files files;
  for (int i : word)
  {
    what += ops[i].text + "; ";
    bool no = false;
    ops[i].model(c, targets, files, no);
    want += no ? "R" : "D";
    c.transition();
  }
  std::string log = get(dir + "/log"), l, got;
  std::istringstream in(log);
  while (std::getline(in, l))
    got += l.rfind("done ", 0) == 0 ? "D" : l.rfind("refused ", 0) == 0 ? "R" : "";
  c.require(got == want, what, "outcomes ", got, ", expected ", want, "\n", log);
  size_t n = 0;
  for (auto& e : fs::directory_iterator(dir))
  {
    std::string f = e.path().filename();
    if (f == "log")
      continue;
    c.require(files.count(f), what, "unexpected file ", f);
    ++n;
    files[f](c, parse(c, get(e.path()), what), what + "file " + f);
  }
  c.require(n == files.size(), what, n, " files, expected ", files.size());
  c.eval();
}
/** all words that begin with 'prefix', up to the depth */
static void history(vf::Ctx& c, const std::vector<int>& prefix, int depth)
{
  const std::vector<Op> ops = alphabet();
  std::vector<std::vector<int>> words{ prefix };
  for (size_t i = 0; i < words.size(); ++i)
    if ((int)words[i].size() < depth)
      for (size_t k = 0; k < ops.size(); ++k)
      {
        auto w = words[i];
        w.push_back(k);
        words.push_back(w);
      }
  Scratch t;
  {
    std::ofstream f(t.dir + "/words");
    for (size_t i = 0; i < words.size(); ++i)
    {
      fs::create_directory(t.dir + "/" + num(i));
      f << t.dir << "/" << i;
      for (int k : words[i])
        f << "|" << ops[k].text;
      f << "\n";
    }
  }
  Run r = python(c, t.dir, { SHIM_DIR "/python/driver.py", SCRIPT, t.dir + "/words" });
  c.require(r.code == 0, "words that begin with ", ops[prefix[0]].text, ": exit code ", r.code, "\n", r.out);
  for (size_t i = 0; i < words.size(); ++i)
    judge(c, words[i], t.dir + "/" + num(i));
}

// ------------------------------------------------------------------ detection of the printed target
static void detection(vf::Ctx& c, const Want& w, double rotation, double pxPerMm)
{
  Scratch t;
  std::vector<std::string> a{ SCRIPT, "dot", num(w.nx), num(w.ny), "--spacing", str(w.sx), "--dotSize", str(w.dot) };
  if (w.invert)
    a.insert(a.end(), { "--invert", "True" });
  std::string what = w.str() + " turned by " + str(rotation);
  Run r = python(c, t.dir, a);
  c.require(r.code == 0, what, ": exit code ", r.code, "\n", r.out);
  Page p = parse(c, get(t.dir + "/calibrationTarget.pdf"), what);
  // page (mm, y up) -> image
  double s = pxPerMm, cx = p.w / MM / 2, cy = p.h / MM / 2, side = s * std::hypot(p.w, p.h) / MM + 20;
  Eigen::Matrix3d H;
  double co = std::cos(rotation) * s, si = std::sin(rotation) * s;
  H << co, -si, side / 2 - co * cx + si * cy, -si, -co, side / 2 + si * cx + co * cy, 0, 0, 1;
  std::vector<render::Disc> discs;
  std::string paper = p.at(1, 1);
  for (auto& q : p.shapes)
    if (q.circle)
    {
      render::Disc d{ q.v[0] / MM, q.v[1] / MM, q.v[2] / MM };
      d.value = q.fill == "1.0/1.0/1.0" ? 255 : 0;
      discs.push_back(d);
    }
  cv::Mat image = render::scene((int)side, (int)side, discs, H, paper == "1.0/1.0/1.0" ? 255 : 0, 4);
  ModifiedCircleGridTarget target(w.ny, w.nx, w.sx / 1000);
  CircleDetectorParams params;
  if (w.invert)
    params.circleColor = 255;
  // where the marks in the middle of the dots are larger than a pixel, the colour filter judges the mark
  params.filterByColor = pxPerMm <= 1;
  ModifiedCircleGridTargetFinder finder(target, params);
  TargetFeatures got;
  c.eval();
  try
  {
    got = finder.findTargetFeatures(image);
  }
  catch (const std::exception& e)
  {
    c.fail(what + ": the printed target is not found: " + e.what());
  }
  auto corr = target.createCorrespondences(got);
  c.require((int)corr.size() == w.nx * w.ny, what, ": all dots");
  double first = MARGIN / MM + w.dot;
  for (auto& q : corr)
  {
    V2 want = render::map(H, first + q.in_target[0] * 1000, first + q.in_target[1] * 1000);
    c.require((q.in_image - want).norm() < 1.0, what, ": the point (", q.in_target[0] * 1000, ", ", q.in_target[1] * 1000, ") mm is seen at (", q.in_image[0], ", ", q.in_image[1], "), the dot printed there at (", want[0], ", ", want[1], ")");
  }
  c.outcome("found");
}

void vf::define(Suite& s)
{
  s.property = "C26";
  s.rule = "all target kinds x grid sizes x spacings x dot sizes x inversion x footers on the command line, all words over eleven operations on the script's functions, all shapes x rotations with the finder";
  s.assumptions = { "the drawing library is replaced by a stand-in that lists the shapes as drawn; the size of pixel images follows from the resolution that is handed on" };
  std::vector<int> sizes = s.thorough ? std::vector<int>{ 1, 2, 3, 4, 5, 6, 7, 9, 12 } : std::vector<int>{ 1, 2, 3, 4, 7 };
  std::vector<double> spacings = s.thorough ? std::vector<double>{ 0, 5, 15, 25.4, 40, 100, 333 } : std::vector<double>{ 0, 15, 25.4, 100 };
  std::vector<double> dots = s.thorough ? std::vector<double>{ 0, 3, 5, 12.5, 60, 90 } : std::vector<double>{ 0, 5, 12.5, 70 };
  for (int kind = 0; kind < 2; ++kind)
    for (int x : sizes)
      for (int y : sizes)
        for (double sp : spacings)
          for (double d : dots)
          {
            if (kind == 1 && d > 0)
              continue;
            double dot = d > 0 ? d : 10, spacing = sp > 0 ? sp : 25;
            if (kind == 0 && dot > 0.9 * spacing)
              continue;
            for (int inv = 0; inv < 2; ++inv)
            {
              Cli k;
              k.w.dots = kind == 0, k.w.nx = x, k.w.ny = y, k.w.sx = k.w.sy = spacing, k.w.dot = dot, k.w.invert = inv;
              k.args = { kind == 0 ? "dot" : "checker", num(x), num(y) };
              if (sp > 0)
                k.args.insert(k.args.end(), { "--spacing", str(sp) });
              if (d > 0)
                k.args.insert(k.args.end(), { "--dotSize", str(d) });
              if (inv)
                k.args.insert(k.args.end(), { "--invert", "True" });
              if ((x + y + inv) % 2)
                k.args.push_back("--addFooter"), k.w.footers = { "" };
              if ((x + 2 * y) % 3 == 0)
                k.args.insert(k.args.end(), { "-o", "t.pdf" }), k.file = "t.pdf";
              else if ((x + 2 * y) % 3 == 1 && inv)
                k.args.insert(k.args.end(), { "-o", "t.png", "--dpi", num(100 * y) }), k.file = "t.png", k.dpi = 100 * y;
              std::string id = "cli";
              for (auto& a : k.args)
                id += "/" + a;
              s.add(id, [=](Ctx& c) { commandLine(c, k); });
            }
          }
  for (int foot = 0; foot < 2; ++foot)
    for (std::string out : { "", "o.pdf", "o.png", "o.jpg", "two.parts.pdf" })
      for (std::string inv : { "", "True", "true", "1", "False", "false", "0" })
        for (int dpi : { 0, 72, 600 })
          for (std::string kind : { "dot", "checker" })
          {
            Cli k;
            k.w.dots = kind == "dot", k.w.nx = 3, k.w.ny = 4;
            k.args = { kind, "3", "4" };
            if (!inv.empty())
              k.args.insert(k.args.end(), { "--invert", inv }), k.w.invert = inv == "True" || inv == "true" || inv == "1";
            if (!out.empty())
              k.args.insert(k.args.end(), { "-o", out }), k.file = out;
            if (dpi)
              k.args.insert(k.args.end(), { "--dpi", num(dpi) }), k.dpi = dpi;
            if (foot)
              k.args.push_back("--addFooter"), k.w.footers = { "" };
            std::string id = "options";
            for (auto& a : k.args)
              id += "/" + a;
            s.add(id, [=](Ctx& c) { commandLine(c, k); });
          }
  for (auto& a : std::vector<std::vector<std::string>>{ {}, { "dot" }, { "dot", "3" }, { "ring", "3", "4" }, { "dot", "x", "4" }, { "dot", "3", "4.5" }, { "dot", "3", "4", "--spacing", "wide" }, { "dot", "3", "4", "--dotSize" }, { "dot", "3", "4", "-o", "a.tif" }, { "checker", "3", "4", "-o", "noextension" }, { "dot", "3", "4", "--other", "1" } })
  {
    std::string id = "refused";
    for (auto& x : a)
      id += "/" + x;
    s.add(id, [=](Ctx& c) { refused(c, a); });
  }
  // histories of the functions (also with two different pitches, which the command line does not offer)
  {
    int n = alphabet().size();
    int depth = s.thorough ? 5 : 4;
    for (int i = 0; i < n; ++i)
    {
      s.add(std::string("history/") + char('a' + i), [=](Ctx& c) { history(c, { i }, 1); });
      for (int j = 0; j < n; ++j)
        s.add(std::string("history/") + char('a' + i) + char('a' + j), [=](Ctx& c) { history(c, { i, j }, depth); });
    }
  }
  for (int x = 3; x <= (s.thorough ? 8 : 6); ++x)
    for (int y = 3; y <= (s.thorough ? 8 : 6); ++y)
      for (int inv = 0; inv < 2; ++inv)
        for (double d : { 8.0, 10.0 })
          for (int turn = 0; turn < (s.thorough ? 16 : 4); ++turn)
          {
            Want w;
            w.nx = x, w.ny = y, w.invert = inv, w.dot = d;
            double a = turn * 2 * PI / (s.thorough ? 16 : 4) + 0.1;
            for (double scale : s.thorough ? std::vector<double>{ 1.0, 1.5, 2.0, 2.5, 3.0 } : std::vector<double>{ 1.0, 2.0 })
              s.add("detect/" + num(x) + "x" + num(y) + "/" + num(inv) + "/" + str(d) + "/" + num(turn) + "/" + str(scale), [=](Ctx& c) { detection(c, w, a, scale); });
          }
}

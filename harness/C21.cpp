// LIBS: img kin ros
// C21: results depend on the call's own inputs only. Explores the tree of call histories: every node is a process that has
// executed exactly one history; every edge executes one more call there and compares its result with the one that the same
// call gives in a fresh process.
#include "ops.h"
#include <fcntl.h>
#include <filesystem>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using ops::Op;
using ops::Res;

/** runs f in a copy of this process and returns what it reports; "!..." if the copy died */
template <class F>
std::string inCopy(F f)
{
  int p[2];
  if (pipe(p))
    throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    std::string s;
    try
    {
      s = f();
    }
    catch (const std::exception& e)
    {
      s = std::string("!exception ") + e.what();
    }
    for (size_t i = 0; i < s.size();)
    {
      ssize_t k = write(p[1], s.data() + i, s.size() - i);
      if (k <= 0)
        _exit(3);
      i += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0)
    s.append(b, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st))
    return "!died with signal " + std::to_string(WTERMSIG(st));
  if (WEXITSTATUS(st))
    return "!ended with status " + std::to_string(WEXITSTATUS(st));
  return s;
}
std::string pack(const Res& r)
{
  std::string s = std::to_string(r.v.size()) + "\n";
  for (auto& p : r.v)
  {
    s += p.first + "\n";
    s.append((const char*)&p.second, 8);
  }
  return s + r.text;
}
Res unpack(const std::string& s)
{
  Res r;
  size_t at = s.find('\n'), n = std::stoul(s);
  ++at;
  for (size_t i = 0; i < n; ++i)
  {
    size_t e = s.find('\n', at);
    double d;
    memcpy(&d, s.data() + e + 1, 8);
    r.v.emplace_back(s.substr(at, e - at), d);
    at = e + 9;
  }
  r.text = s.substr(at);
  return r;
}

std::string scratch;
struct Alphabet
{
  std::vector<Op> op;
  std::vector<Res> ref;
};

struct Report
{
  uint64_t calls = 0;
  std::string bad;
};
/** one more call in this process */
std::string step(const Alphabet& a, int k)
{
  const Op& o = a.op[k];
  o.load();
  Res before = o.inputs();
  Res got = o.run()();
  std::string d = Res::diff(got, a.ref[k]);
  if (!d.empty())
    return o.name() + ": " + d;
  d = Res::diff(o.inputs(), before, 0);
  if (!d.empty())
    return o.name() + " changed its inputs: " + d;
  return "";
}
/** all continuations of the present history by words of `next` (one set of calls per position) */
void explore(const Alphabet& a, const std::vector<std::vector<int>>& next, size_t at, const std::string& history, Report& rep)
{
  for (int k : next[at])
  {
    std::string s = inCopy([&] {
      Report r;
      r.calls = 1;
      r.bad = step(a, k);
      if (!r.bad.empty())
        r.bad = "after [" + history + "] " + r.bad;
      else if (at + 1 < next.size())
        explore(a, next, at + 1, history + (history.empty() ? "" : ", ") + a.op[k].name(), r);
      return std::to_string(r.calls) + "\n" + r.bad;
    });
    if (!s.empty() && s[0] == '!')
      rep.bad = "after [" + history + "] " + a.op[k].name() + ": " + s.substr(1);
    else
    {
      rep.calls += std::stoull(s);
      rep.bad = s.substr(s.find('\n') + 1);
    }
    if (!rep.bad.empty())
      return;
  }
}
void quiet()
{
  cv::setNumThreads(1);  // copies of a process do not get its helper threads
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  dup2(n, 2);
  close(n);
  ros_stub::log();
}
}  // namespace

void vf::define(vf::Suite& s)
{
  s.property = "C21";
  s.level = "model_checking";
  s.rule = "histories are words over the alphabet of (operation, data variant); each is executed in its own process and every call's result and inputs are compared with "
           "the same call in a fresh process";
  s.assumptions = { "results are compared to a relative 1e-7 (the solver's summation order may follow the addresses of its parameters)",
                    "the values of the random joint sampler are not compared, drawn circles get their random colours from a fixed generator state" };
  s.case_timeout = 600;

  char t[] = "/tmp/vf-c21-XXXXXX";
  scratch = mkdtemp(t);
  static std::string dir = scratch;
  static pid_t owner = getpid();
  atexit([] {
    std::error_code ec;
    if (getpid() == owner && dir.rfind("/tmp/vf-c21-", 0) == 0)
      std::filesystem::remove_all(dir, ec);
  });

  auto a = std::make_shared<Alphabet>();
  a->op = ops::all(true, scratch);
  std::map<std::string, std::vector<int>> types;
  std::vector<int> everything, pick;
  for (size_t k = 0; k < a->op.size(); ++k)
  {
    auto& o = a->op[k];
    std::string r = inCopy([&] {
      quiet();
      o.load();
      return pack(o.run()());
    });
    a->ref.push_back(r.empty() || r[0] == '!' ? Res() : unpack(r));
    types[o.type].push_back(k);
    everything.push_back(k);
    if (o.variant == "a" || o.variant == "b")
      pick.push_back(k);
  }
  auto run = [a](vf::Ctx& c, const std::vector<std::vector<int>>& next, const std::vector<int>& first = {}) {
    std::string r = inCopy([&] {
      quiet();
      Report rep;
      explore(*a, next, 0, "", rep);
      return std::to_string(rep.calls) + "\n" + rep.bad;
    });
    c.require(r.empty() || r[0] != '!', r);
    std::string bad = r.substr(r.find('\n') + 1);
    c.require(bad.empty(), bad);
    uint64_t n = std::stoull(r), words = 1, leaves = 1;
    (void)words;
    for (auto& l : next)
      leaves *= l.size();
    c.transition(n);
    c.trace(leaves);
    // the nodes of the tree are different histories
    for (uint64_t i = 0; i < n; ++i)
    {
      c.eval();
      c.state(vf::mix(vf::hashStr(c.case_id), i));
    }
  };
  // every ordered pair of calls
  for (int k : everything)
    s.add("pairs/" + a->op[k].name(), [=](vf::Ctx& c) { run(c, { { k }, everything }); });
  // longer histories of the same operation, all variants
  for (auto& t : types)
    s.add("same/" + t.first, [=](vf::Ctx& c) {
      std::vector<std::vector<int>> w(3, t.second);
      if (c.thorough && t.second.size() <= 7)
        w.resize(4, t.second);
      run(c, w);
    });
  if (s.thorough)
    for (int k : pick)
      s.add("triples/" + a->op[k].name(), [=](vf::Ctx& c) { run(c, { { k }, pick, pick }); });
}

// LIBS: img_observed kin_observed ros_observed
// C22: two calls that run concurrently give what they give one after the other.  All interleavings of the accesses to shared
// memory, up to a bound on preemptions, on the real code (see sched/runtime.cpp).
#include "ops.h"
#include "sched/sched.h"
#include <dlfcn.h>
#include <execinfo.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
std::function<void(ceres::Problem&)> atSolve;
// the solver runs on the caller's thread only
namespace ceres
{
void Solve(const Solver::Options& o, Problem* p, Solver::Summary* s)
{
  if (atSolve)
    atSolve(*p);
  Solver::Options q = o;
  q.num_threads = 1;
  Solver().Solve(q, p, s);
}
}  // namespace ceres

namespace
{
namespace ro = kit::ro;
using ops::Op;
using ops::Res;
using sched::Touch;
using sched::Unit;

std::string pack(const Res& r)
{
  std::string s = std::to_string(r.v.size()) + "\n";
  for (auto& p : r.v)
  {
    s += p.first + "\n";
    s.append((const char*)&p.second, 8);
  }
  return s + r.text;
}
Res unpack(const std::string& s)
{
  Res r;
  size_t at = s.find('\n'), n = std::stoul(s);
  ++at;
  for (size_t i = 0; i < n; ++i)
  {
    size_t e = s.find('\n', at);
    double d;
    memcpy(&d, s.data() + e + 1, 8);
    r.v.emplace_back(s.substr(at, e - at), d);
    at = e + 9;
  }
  r.text = s.substr(at);
  return r;
}
template <class T>
void putRaw(std::string& s, const T& x)
{
  s.append((const char*)&x, sizeof x);
}
template <class T>
T getRaw(const std::string& s, size_t& at)
{
  T x;
  if (at + sizeof x > s.size())
    throw std::runtime_error("short report");
  memcpy(&x, s.data() + at, sizeof x);
  at += sizeof x;
  return x;
}
/** what came out of one execution */
struct Run
{
  std::string died;  // empty: did not
  sched::Outcome o;
};
std::string packRun(const sched::Outcome& o)
{
  std::string s;
  for (int k = 1; k < 3; ++k)
  {
    putRaw(s, o.result[k].size());
    s += o.result[k];
    putRaw(s, o.touched[k].size());
    for (auto& t : o.touched[k])
      putRaw(s, t);
    putRaw(s, o.steps[k]);
    putRaw(s, o.total[k]);
    putRaw(s, o.accesses[k]);
    putRaw(s, o.bytes[k]);
  }
  putRaw(s, o.deadlock);
  return s;
}
sched::Outcome unpackRun(const std::string& s)
{
  sched::Outcome o;
  size_t at = 0;
  for (int k = 1; k < 3; ++k)
  {
    size_t n = getRaw<size_t>(s, at);
    o.result[k] = s.substr(at, n);
    at += n;
    n = getRaw<size_t>(s, at);
    for (size_t i = 0; i < n; ++i)
      o.touched[k].push_back(getRaw<Touch>(s, at));
    o.steps[k] = getRaw<uint64_t>(s, at);
    o.total[k] = getRaw<uint64_t>(s, at);
    o.accesses[k] = getRaw<uint64_t>(s, at);
    o.bytes[k] = getRaw<uint64_t>(s, at);
  }
  o.deadlock = getRaw<bool>(s, at);
  return o;
}

/** what two threads do with the solver's problem, instead of solving it */
using Inside = std::function<std::pair<sched::Body, sched::Body>(ceres::Problem&)>;
struct Job
{
  sched::Body one, two;
  sched::Order order;
  Inside inside;                 // or: the two calls are made where `before` starts the solver
  std::function<void()> before;  // calls that were made earlier
  unsigned seconds = 60;
};
struct Child
{
  pid_t pid;
  int fd;
  size_t job;
  std::string text;
};
Child launch(const Job& j, size_t index)
{
  int p[2];
  if (pipe(p))
    throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    cv::setNumThreads(1);
    alarm(j.seconds);
    if (getenv("VF_BT"))
      for (int sig : { SIGABRT, SIGSEGV })
        signal(sig, [](int n) {
          void* b[60];
          int fd = open("/tmp/vf-bt.txt", O_WRONLY | O_CREAT | O_APPEND, 0600);
          backtrace_symbols_fd(b, backtrace(b, 60), fd);
          _exit(77);
        });
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    auto report = [&](const sched::Outcome& o) {
      std::string s = packRun(o);
      for (size_t i = 0; i < s.size();)
      {
        ssize_t k = write(p[1], s.data() + i, s.size() - i);
        if (k <= 0)
          _exit(3);
        i += k;
      }
      _exit(0);
    };
    try
    {
      if (j.inside)
        atSolve = [&](ceres::Problem& problem) {
          auto b = j.inside(problem);
          sched::objects(0);
          report(sched::execute(b.first, b.second, j.order));
        };
      if (j.before)
        j.before();
      report(sched::execute(j.one, j.two, j.order));
    }
    catch (...)
    {
    }
    _exit(9);
  }
  close(p[1]);
  return { pid, p[0], index, "" };
}
Run collect(Child& c)
{
  close(c.fd);
  int st = 0;
  waitpid(c.pid, &st, 0);
  Run r;
  if (WIFSIGNALED(st))
    r.died = WTERMSIG(st) == SIGALRM ? "did not end" : "died with signal " + std::to_string(WTERMSIG(st));
  else if (WEXITSTATUS(st))
    r.died = "ended with status " + std::to_string(WEXITSTATUS(st));
  else
    r.o = unpackRun(c.text);
  return r;
}
/** each execution in its own copy of this process, `width` at a time */
std::vector<Run> runAll(const std::vector<Job>& jobs, size_t width)
{
  std::vector<Run> out(jobs.size());
  std::vector<Child> live;
  size_t next = 0;
  while (next < jobs.size() || !live.empty())
  {
    while (next < jobs.size() && live.size() < width)
    {
      live.push_back(launch(jobs[next], next));
      ++next;
    }
    std::vector<pollfd> fds;
    for (auto& c : live)
      fds.push_back({ c.fd, POLLIN, 0 });
    poll(fds.data(), fds.size(), -1);
    for (size_t i = fds.size(); i-- > 0;)
      if (fds[i].revents)
      {
        char b[65536];
        ssize_t k = read(live[i].fd, b, sizeof b);
        if (k > 0)
          live[i].text.append(b, k);
        else
        {
          out[live[i].job] = collect(live[i]);
          live.erase(live.begin() + i);
        }
      }
  }
  return out;
}
Run runOne(const Job& j) { return runAll({ j }, 1)[0]; }

using Uses = std::unordered_map<Unit, uint8_t>;
Uses uses(const std::vector<Touch>& t)
{
  Uses u;
  for (auto& x : t)
    u[x.unit] |= x.use;
  return u;
}
/** the units that one call writes while the other one uses them; `lib`: writes that the hooks did not see are involved */
void conflicts(const Uses& a, const Uses& b, std::set<Unit>& out, bool& lib)
{
  const uint8_t W = sched::WRITE | sched::LIBWRITE;
  const Uses& s = a.size() < b.size() ? a : b;
  const Uses& l = a.size() < b.size() ? b : a;
  for (auto& kv : s)
  {
    auto i = l.find(kv.first);
    if (i != l.end() && ((kv.second | i->second) & W))
    {
      out.insert(kv.first);
      if ((kv.second | i->second) & sched::LIBWRITE)
        lib = true;
    }
  }
}

struct Call
{
  Op op;
  int type = 0;
  Res ref;                 // what it gives alone
  bool works = false;
  Uses uses[2][3];         // [earlier calls?][thread], running alone
  double cost = 0;
};
struct World
{
  std::vector<Call> a, b;  // the same calls on two sets of objects
  std::vector<std::string> types;
  std::vector<size_t> first;  // call of each type that is used as the earlier one
};
sched::Body body(const Op& o)
{
  const Op* p = &o;
  return [p] { return pack(p->run()()); };
}
std::string tell(const std::vector<sched::Leg>& legs)
{
  std::string s;
  for (auto& l : legs)
    s += (s.empty() ? "" : ", ") + std::string(l.who == 1 ? "first" : "second") + (l.stop ? " up to its shared access " + std::to_string(l.stop) : " to the end");
  return s;
}

/** how far a pair of calls is explored */
struct Bound
{
  uint32_t perSite = 2, first = 16;
  uint64_t steps = 40;   // preemption points per call
  uint64_t both = 5;     // points per call for two preemptions
};
/** explores a pair; `judge` says what is wrong with the two results */
struct Explorer
{
  vf::Ctx& c;
  sched::Body one, two;
  std::function<void()> before;
  std::function<std::string(const std::string&, const std::string&)> judge;
  std::string what;
  std::set<Unit> watched;
  uint64_t schedules = 0;
  Inside inside = nullptr;

  Run go(const std::vector<sched::Leg>& legs, sched::Mode mode, const Bound& b)
  {
    Job j{ one, two };
    j.before = before;
    j.inside = inside;
    j.order.legs = legs;
    j.order.mode = mode;
    j.order.perSite = b.perSite;
    j.order.first = b.first;
    j.order.watched.assign(watched.begin(), watched.end());
    Run r = runOne(j);
    if (r.died == "did not end")
    {
      j.seconds = 200;
      r = runOne(j);
    }
    std::string how = what + " [" + tell(legs) + (mode == sched::BLOCKS ? " (basic blocks)" : "") + "]: ";
    ++schedules;
    c.trace();
    c.eval();
    c.require(r.died.empty(), how, r.died);
    c.require(!r.o.deadlock, how, "the calls wait for each other");
    c.transition(r.o.steps[1] + r.o.steps[2] + 2);
    uint64_t h = vf::hashStr(what);
    for (auto& l : legs)
    {
      h = vf::mix(vf::mix(h, l.who), l.stop);
      c.state(h);
    }
    std::string bad = judge(r.o.result[1], r.o.result[2]);
    if (!bad.empty())
    {
      std::set<std::string> at;
      for (Unit u : watched)
        at.insert(sched::where(u));
      std::string s;
      for (auto& a : at)
        if (s.size() < 300)
          s += (s.empty() ? "" : ", ") + a;
      c.fail(how + bad + (s.empty() ? "" : " (shared: " + s + ")"));
    }
    return r;
  }
  /** adds what the two calls were seen to share; true if that is new */
  bool learn(const Run& r)
  {
    size_t n = watched.size();
    bool lib = false;
    conflicts(uses(r.o.touched[1]), uses(r.o.touched[2]), watched, lib);
    for (int k = 1; k < 3; ++k)
      for (auto& t : r.o.touched[k])
        if (sched::ownerOf(t.unit) == 3 - k)
          watched.insert(t.unit);
    return watched.size() > n;
  }
  void explore(bool lib, const Bound& b)
  {
    for (int round = 0; round < 3; ++round)
    {
      bool more = false;
      Run ab = go({ { 1, 0 }, { 2, 0 } }, sched::ACCESSES, b), ba = go({ { 2, 0 }, { 1, 0 } }, sched::ACCESSES, b);
      more |= learn(ab) | learn(ba);
      if (watched.empty())
        break;
      if (more && round < 2)
        continue;  // count again
      uint64_t n1 = std::min(b.steps, std::max(ab.o.steps[1], ba.o.steps[1])), n2 = std::min(b.steps, std::max(ab.o.steps[2], ba.o.steps[2]));
      for (uint64_t i = 1; i <= std::max(n1, n2); ++i)
      {
        if (i <= n1)
          more |= learn(go({ { 1, i }, { 2, 0 }, { 1, 0 } }, sched::ACCESSES, b));
        if (i <= n2)
          more |= learn(go({ { 2, i }, { 1, 0 }, { 2, 0 } }, sched::ACCESSES, b));
      }
      if (more && round < 2)
        continue;
      for (uint64_t i = 1; i <= std::min(n1, b.both); ++i)
        for (uint64_t j = 1; j <= std::min(n2, b.both); ++j)
        {
          go({ { 1, i }, { 2, j }, { 1, 0 }, { 2, 0 } }, sched::ACCESSES, b);
          go({ { 2, j }, { 1, i }, { 2, 0 }, { 1, 0 } }, sched::ACCESSES, b);
        }
      break;
    }
    if (lib)
    {
      Bound f = b;
      f.perSite = 1;
      f.first = 0;
      Run ab = go({ { 1, 0 }, { 2, 0 } }, sched::BLOCKS, f);
      uint64_t n1 = std::min(b.steps * 10, ab.o.steps[1]), n2 = std::min(b.steps * 10, ab.o.steps[2]);
      for (uint64_t i = 1; i <= std::max(n1, n2); ++i)
      {
        if (i <= n1)
          go({ { 1, i }, { 2, 0 }, { 1, 0 } }, sched::BLOCKS, f);
        if (i <= n2)
          go({ { 2, i }, { 1, 0 }, { 2, 0 } }, sched::BLOCKS, f);
      }
    }
  }
};

void explorePair(vf::Ctx& c, const Call& x, const Call& y, bool warm, const std::function<void()>& before, const std::string& config, const Bound& b, bool always)
{
  std::set<Unit> w;
  bool lib = false;
  conflicts(x.uses[warm][1], y.uses[warm][2], w, lib);
  c.eval();
  if (w.empty() && !always)
    return;
  if (getenv("VF_WHY") && !w.empty())
  {
    FILE* f = fopen("/tmp/vf-why.txt", "a");
    fprintf(f, "%s: %s || %s lib %d:", c.case_id.c_str(), x.op.name().c_str(), y.op.name().c_str(), (int)lib);
    for (Unit u : w)
      fprintf(f, " %s[%d/%d]", sched::where(u).c_str(), x.uses[warm][1].at(u), y.uses[warm][2].at(u));
    fprintf(f, "\n");
    fclose(f);
  }
  Explorer e{ c, body(x.op), body(y.op), before };
  e.what = config + " " + x.op.name() + " || " + y.op.name();
  e.watched = w;
  e.judge = [&](const std::string& p, const std::string& q) {
    std::string d = Res::diff(unpack(p), x.ref);
    if (!d.empty())
      return "the first call gives " + d;
    d = Res::diff(unpack(q), y.ref);
    return d.empty() ? d : "the second call gives " + d;
  };
  e.explore(lib, b);
  c.outcome(w.empty() ? "nothing shared" : lib ? "shared, partly by libraries" : "shared");
}

/** evaluates one term of the solver's problem, with and without derivatives */
sched::Body term(ceres::Problem& p, size_t k)
{
  std::vector<ceres::ResidualBlockId> ids;
  p.GetResidualBlocks(&ids);
  const ceres::CostFunction* f = p.GetCostFunctionForResidualBlock(ids.at(k));
  std::vector<double*> at;
  p.GetParameterBlocksForResidualBlock(ids[k], &at);
  return [f, at] {
    Res out;
    for (bool derive : { true, false })
    {
      std::vector<double> r(f->num_residuals(), 0);
      std::vector<std::vector<double>> j;
      std::vector<double*> jp;
      for (int n : f->parameter_block_sizes())
        j.emplace_back(n * r.size(), 0);
      for (auto& m : j)
        jp.push_back(m.data());
      out.put("ok", f->Evaluate(at.data(), r.data(), derive ? jp.data() : nullptr));
      for (double x : r)
        out.put("r", x);
      if (derive)
        for (auto& m : j)
          for (double x : m)
            out.put("j", x);
    }
    return pack(out);
  };
}
/** a calibration may evaluate the terms of its cost function in parallel */
void terms(vf::Ctx& c, const Call& x, const std::function<void()>& start, const Bound& b)
{
  // how many are there
  size_t n = 0;
  {
    Job j;
    j.before = start;
    j.inside = [](ceres::Problem& p) {
      size_t n = p.NumResidualBlocks();
      return std::make_pair(sched::Body([n] { return std::to_string(n); }), sched::Body());
    };
    Run r = runOne(j);
    c.require(r.died.empty(), x.op.name(), ": the solver was not reached, ", r.died);
    n = std::stoul(r.o.result[1]);
  }
  std::set<size_t> pick{ 0, 1, 2, n / 2, n - 1 };
  std::map<size_t, Run> alone[3];
  for (int k : { 1, 2 })
    for (size_t i : pick)
      if (i < n)
      {
        Job j;
        j.before = start;
        j.order.compare = true;
        j.inside = [i, k](ceres::Problem& p) { return k == 1 ? std::make_pair(term(p, i), sched::Body()) : std::make_pair(sched::Body(), term(p, i)); };
        alone[k][i] = runOne(j);
        c.require(alone[k][i].died.empty(), x.op.name(), ": term ", i, " alone ", alone[k][i].died);
      }
  for (size_t i : pick)
    for (size_t l : pick)
    {
      if (i >= l || l >= n)
        continue;
      Explorer e{ c, {}, {} };
      e.before = start;
      e.inside = [i, l](ceres::Problem& p) { return std::make_pair(term(p, i), term(p, l)); };
      e.what = x.op.name() + " terms " + std::to_string(i) + " || " + std::to_string(l);
      bool lib = false;
      conflicts(uses(alone[1][i].o.touched[1]), uses(alone[2][l].o.touched[2]), e.watched, lib);
      std::string ra = alone[1][i].o.result[1], rb = alone[2][l].o.result[2];
      e.judge = [ra, rb](const std::string& p, const std::string& q) {
        std::string d = Res::diff(unpack(p), unpack(ra));
        if (!d.empty())
          return "the first term gives " + d;
        d = Res::diff(unpack(q), unpack(rb));
        return d.empty() ? d : "the second term gives " + d;
      };
      c.outcome(e.watched.empty() ? "terms share nothing" : "terms share memory");
      e.explore(lib, b);
    }
}

/** the random joint values: concurrent callers get what some order of the calls would have given them */
void random(vf::Ctx& c, bool shared, int earlier, const Bound& b)
{
  auto make = [](int seed) {
    std::vector<ro::DHTransform> t;
    for (int i = 0; i < 3; ++i)
      t.emplace_back(Eigen::Vector4d(0.1 * i, 0, 0, 0), ro::DHJointType::REVOLUTE, "j", seed);
    return ro::DHChain(t, kit::Iso::Identity());
  };
  sched::objects(2);
  using ChainPtr = std::shared_ptr<const ro::DHChain>;
  ChainPtr p(new ro::DHChain(make(1))), z(new ro::DHChain(make(1))), q = p;
  if (!shared)
    q.reset(new ro::DHChain(make(2)));
  sched::objects(0);
  auto draw = [](const std::shared_ptr<const ro::DHChain>& p) {
    return [p] {
      Res r;
      for (int i = 0; i < 2; ++i)
        r.put("q", p->createUniformlyRandomPose());
      return pack(r);
    };
  };
  Explorer e{ c, draw(p), draw(q) };
  if (earlier)
    e.before = [z, earlier] {
      for (int i = 0; i < earlier; ++i)
        z->createUniformlyRandomPose();
    };
  e.what = std::string("random joints of ") + (shared ? "one chain" : "two chains");
  auto values = [](const std::string& a, const std::string& b) {
    std::vector<double> v;
    for (auto* s : { &a, &b })
      for (auto& kv : unpack(*s).v)
        v.push_back(kv.second);
    std::sort(v.begin(), v.end());
    return v;
  };
  std::vector<std::vector<double>> allowed;
  e.judge = [&](const std::string&, const std::string&) { return std::string(); };
  for (int first : { 1, 2 })
  {
    Run r = e.go({ { first, 0 }, { 3 - first, 0 } }, sched::ACCESSES, b);
    allowed.push_back(values(r.o.result[1], r.o.result[2]));
    e.learn(r);
  }
  e.judge = [&](const std::string& x, const std::string& y) {
    auto v = values(x, y);
    for (auto& a : allowed)
      if (a == v)
        return std::string();
    return std::string("the values are not the ones that the calls give one after the other");
  };
  e.explore(false, b);
}
}  // namespace

void vf::define(vf::Suite& s)
{
  s.property = "C22";
  s.level = "model_checking";
  s.rule = "pairs of calls on two threads; the accesses of each call to memory that it does not own are recorded on the real code; where two calls conflict, every preemption at "
           "a conflicting access is executed (one preemption: all counted points; two: the first points of both), each schedule in its own process; pairs without a conflict have "
           "one interleaving up to equivalence";
  s.assumptions = { "accesses inside third-party libraries are seen by what they change, not one by one; library internals are trusted to be thread-safe",
                    "points are counted up to a bound per place in the code", "sequentially consistent memory" };
  s.case_timeout = 800;
  cv::setNumThreads(1);  // copies of a process do not get its helper threads
  auto w = std::make_shared<World>();
  ops::separate_slots = true;
  for (auto& o : ops::all(false))
    o.load();  // the libraries' own lazily made objects are not looked at
  sched::objects(2);
  for (auto* v : { &w->a, &w->b })
  {
    for (auto& o : ops::all(false))
    {
      if (o.type == "dh.random")
        continue;  // see random()
      o.load();
      v->push_back({ o });
    }
  }
  sched::objects(0);
  for (auto* v : { &w->a, &w->b })
    for (auto& k : *v)
    {
      auto at = std::find(w->types.begin(), w->types.end(), k.op.type);
      k.type = at - w->types.begin();
      if (at == w->types.end())
      {
        w->types.push_back(k.op.type);
        w->first.push_back(&k - v->data());
      }
    }
  auto earlier = [w](int type) -> std::function<void()> {
    Op* o = &w->a[w->first[type]].op;
    return [o] {
      sched::objects(1);
      o->run()();
      sched::objects(0);
    };
  };
  // what each call uses
  std::vector<Job> jobs;
  std::vector<std::tuple<Call*, int, int>> of;
  for (int warm : { 0, 1 })
    for (auto* v : { &w->a, &w->b })
      for (auto& c : *v)
        for (int k = 1; k < 3; ++k)
        {
          if (v == &w->b && k == 1)
            continue;
          Job j;
          (k == 1 ? j.one : j.two) = body(c.op);
          j.order.compare = true;
          if (warm)
            j.before = earlier(c.type);
          jobs.push_back(j);
          of.emplace_back(&c, warm, k);
        }
  auto r = runAll(jobs, 8);
  std::string broken;
  for (size_t i = 0; i < r.size(); ++i)
  {
    auto [c, warm, k] = of[i];
    if (!r[i].died.empty() || r[i].o.deadlock)
    {
      broken += c->op.name() + (warm ? " again" : "") + " alone on thread " + std::to_string(k) + ": " + (r[i].died.empty() ? "waits for itself" : r[i].died) + "; ";
      continue;
    }
    c->uses[warm][k] = uses(r[i].o.touched[k]);
    if (getenv("VF_BYTES")) fprintf(stderr, "%s %d %d bytes %lu acc %lu\n", c->op.name().c_str(), warm, k, r[i].o.bytes[k], r[i].o.accesses[k]);
    c->cost = 0.02 + r[i].o.accesses[k] * 5e-8;  // seconds, roughly
    if (!warm)
      c->ref = unpack(r[i].o.result[k]);
  }
  if (!broken.empty())
  {
    s.add("alone", [broken](vf::Ctx& c) { c.fail(broken); });
    return;
  }
  struct Plan
  {
    std::string id;
    std::vector<std::tuple<const Call*, const Call*, bool>> pairs;  // explored if they conflict; the flag: also otherwise
    bool warm;
    std::function<void()> before;
    std::string config;
    bool cross;
  };
  std::vector<Plan> plans;
  size_t T = w->types.size();
  std::vector<std::vector<size_t>> ofType(T);
  for (size_t i = 0; i < w->a.size(); ++i)
    ofType[w->a[i].type].push_back(i);
  for (bool warm : { false, true })
    for (bool shared : { false, true })
      for (size_t t = 0; t < T; ++t)
        for (size_t u = t; u < T; ++u)
        {
          if (warm && u != t)
            continue;
          if (shared && !(w->a[w->first[t]].op.shareable && w->a[w->first[u]].op.shareable))
            continue;
          Plan p{ std::string(warm ? "again-" : "") + (shared ? "shared/" : "separate/") + w->types[t] + "+" + w->types[u], {}, warm, warm ? earlier(t) : std::function<void()>(),
                  std::string(warm ? "after an earlier call, " : "") + (shared ? "shared objects:" : "separate objects:"), u != t };
          size_t n = 0;
          auto& other = shared ? w->a : w->b;
          for (size_t i : ofType[t])
            for (size_t j : ofType[u])
            {
              if (u == t && j < i)
                continue;
              p.pairs.emplace_back(&w->a[i], &other[j], n++ == 1);
            }
          plans.push_back(p);
        }
  const bool thorough = s.thorough;
  for (auto& p : plans)
    s.add(p.id, [p, thorough, w](vf::Ctx& c) {
      Bound b;
      if (thorough)
      {
        b.perSite = 8;
        b.first = 100;
        b.steps = 400;
        b.both = 12;
      }
      size_t explored = 0, most = 6;
      if (!thorough)
      {
        // heavy calls are explored less widely, so that the check ends in time whatever they share
        double cost = std::get<0>(p.pairs[0])->cost + std::get<1>(p.pairs[0])->cost, budget = p.warm ? 12 : 25;
        most = std::min(6.0, std::max(1.0, budget / (20 * cost)));
        b.steps = std::min(40.0, std::max(4.0, budget / (most * cost * 2)));
        b.both = b.steps >= 25 ? 5 : 0;
      }
      for (auto& [x, y, always] : p.pairs)
      {
        std::set<Unit> units;
        bool lib = false;
        conflicts(x->uses[p.warm][1], y->uses[p.warm][2], units, lib);
        Bound k = b;
        if (!units.empty() && !thorough)
        {
          if (p.cross)
          {
            // what conflicts within one of the two kinds is explored there
            std::set<Unit> s1, s2;
            bool l;
            auto& m = w->b[w->first[x->type]];
            auto& n = w->b[w->first[y->type]];
            conflicts(x->uses[p.warm][1], m.uses[p.warm][2], s1, l);
            conflicts(y->uses[p.warm][1], n.uses[p.warm][2], s2, l);
            bool fresh = false;
            for (Unit u : units)
              fresh |= !s1.count(u) && !s2.count(u);
            if (!fresh)
              k.steps = 2, k.both = 0;
            if (explored >= (fresh ? 3u : 1u))
              continue;
          }
          else if (explored >= most)
            continue;
          ++explored;
        }
        explorePair(c, *x, *y, p.warm, p.before, p.config, k, always);
      }
    });
  for (auto& x : w->a)
  {
    static const std::set<std::string> solving = { "handeye2d", "handeye3d", "pnp2d", "pnp3d", "mcpnp", "msmoving", "msonly", "mswrist", "intrinsic", "circle", "kin2d", "kin6d" };
    if (!solving.count(x.op.type) || !(x.op.variant == "a" || (x.op.type == "intrinsic" && x.op.variant == "guess") || (thorough && x.op.variant != "refused")))
      continue;
    const Call* p = &x;
    s.add("terms/" + x.op.name(), [w, p, thorough](vf::Ctx& c) {
      Bound b;
      b.steps = thorough ? 200 : 40;
      terms(c, *p, [p] {
        sched::objects(1);
        p->op.run()();
      }, b);
    });
  }
  for (bool shared : { false, true })
    for (int earlierDraws : { 0, 1, 103 })
      s.add("random/" + std::string(shared ? "shared" : "separate") + "/" + std::to_string(earlierDraws), [shared, earlierDraws, thorough](vf::Ctx& c) {
        Bound b;
        b.steps = thorough ? 400 : 80;
        b.first = b.steps;
        b.both = thorough ? 20 : 8;
        random(c, shared, earlierDraws, b);
      });
}

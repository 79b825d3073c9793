#include "vf.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>

namespace vf
{
uint64_t hashStr(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
void Ctx::fail(const std::string& msg) { throw Failure{ msg }; }
}  // namespace vf

using namespace vf;
using Clock = std::chrono::steady_clock;

namespace
{
struct Slot
{
  volatile long current;      // index of the case in flight, -1 when idle
  volatile double started;    // steady seconds
};

double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

std::string jsonEsc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c < 0x20 || c > 0x7e)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o;
}

/** Runs one case; returns empty string if it held */
std::string runCase(const Suite& s, std::size_t i, Ctx& c)
{
  c.case_id = s.cases[i].first;
  c.thorough = s.thorough;
  try
  {
    s.cases[i].second(c);
  }
  catch (const Failure& f)
  {
    return f.msg.empty() ? "failed" : f.msg;
  }
  catch (const std::exception& e)
  {
    return std::string("unexpected exception: ") + e.what();
  }
  catch (...)
  {
    return "unexpected exception of unknown type";
  }
  return "";
}

struct Violation
{
  std::size_t index;
  std::string msg;
  bool alone = true;
  int stripe = 0, nstripes = 1;
};

struct Totals
{
  uint64_t evals = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> sigs, states;
  std::map<std::string, uint64_t> outcomes;
};

void writeAll(int fd, const void* p, size_t n)
{
  const char* c = static_cast<const char*>(p);
  while (n)
  {
    ssize_t k = write(fd, c, n);
    if (k < 0)
    {
      if (errno == EINTR)
        continue;
      _exit(97);
    }
    c += k;
    n -= k;
  }
}
void putStr(int fd, const std::string& s)
{
  uint32_t n = s.size();
  writeAll(fd, &n, 4);
  writeAll(fd, s.data(), n);
}

// messages worker -> parent: 'F' index msg | 'T' totals
void sendFailure(int fd, uint64_t idx, const std::string& m)
{
  writeAll(fd, "F", 1);
  writeAll(fd, &idx, 8);
  putStr(fd, m);
}
void sendTotals(int fd, const Ctx& c)
{
  writeAll(fd, "T", 1);
  uint64_t h[5] = { c.evals, c.transitions, c.traces, c.sigs.size(), c.states.size() };
  writeAll(fd, h, sizeof h);
  std::vector<uint64_t> v(c.sigs.begin(), c.sigs.end());
  v.insert(v.end(), c.states.begin(), c.states.end());
  if (!v.empty())
    writeAll(fd, v.data(), v.size() * 8);
  uint32_t n = c.outcomes.size();
  writeAll(fd, &n, 4);
  for (auto& o : c.outcomes)
  {
    putStr(fd, o.first);
    writeAll(fd, &o.second, 8);
  }
}

struct Reader
{
  std::string buf;
  size_t pos = 0;
  bool have(size_t n) const { return buf.size() - pos >= n; }
  // parses complete messages; incomplete tail stays
  void parse(std::vector<std::pair<uint64_t, std::string>>& fails, Totals& t)
  {
    for (;;)
    {
      size_t save = pos;
      if (!have(1))
        break;
      char k = buf[pos++];
      if (k == 'F')
      {
        if (!have(12))
        {
          pos = save;
          break;
        }
        uint64_t idx;
        memcpy(&idx, &buf[pos], 8);
        uint32_t n;
        memcpy(&n, &buf[pos + 8], 4);
        if (!have(12 + n))
        {
          pos = save;
          break;
        }
        fails.emplace_back(idx, buf.substr(pos + 12, n));
        pos += 12 + n;
      }
      else
      {
        if (!have(40))
        {
          pos = save;
          break;
        }
        uint64_t h[5];
        memcpy(h, &buf[pos], 40);
        size_t p = pos + 40;
        size_t nv = h[3] + h[4];
        if (buf.size() < p + nv * 8 + 4)
        {
          pos = save;
          break;
        }
        size_t q = p + nv * 8;
        uint32_t n;
        memcpy(&n, &buf[q], 4);
        q += 4;
        bool ok = true;
        std::map<std::string, uint64_t> oc;
        for (uint32_t i = 0; i < n; ++i)
        {
          uint32_t l;
          if (buf.size() < q + 4)
          {
            ok = false;
            break;
          }
          memcpy(&l, &buf[q], 4);
          if (buf.size() < q + 4 + l + 8)
          {
            ok = false;
            break;
          }
          std::string key = buf.substr(q + 4, l);
          uint64_t v;
          memcpy(&v, &buf[q + 4 + l], 8);
          oc[key] += v;
          q += 4 + l + 8;
        }
        if (!ok)
        {
          pos = save;
          break;
        }
        t.evals += h[0];
        t.transitions += h[1];
        t.traces += h[2];
        for (size_t i = 0; i < nv; ++i)
        {
          uint64_t v;
          memcpy(&v, &buf[p + 8 * i], 8);
          (i < h[3] ? t.sigs : t.states).insert(v);
        }
        for (auto& o : oc)
          t.outcomes[o.first] += o.second;
        pos = q;
      }
    }
    buf.erase(0, pos);
    pos = 0;
  }
};

int realStdout = 1;

/** Worker body: runs the listed cases in order */
[[noreturn]] void workerMain(const Suite& s, int fd, Slot* slot, size_t first, size_t stride, size_t stop)
{
  Ctx total;
  int reported = 0;
  for (size_t i = first; i < stop; i += stride)
  {
    slot->started = now();
    slot->current = static_cast<long>(i);
    Ctx c;
    std::string m = runCase(s, i, c);
    if (!m.empty() && reported++ < 50)
      sendFailure(fd, i, m);
    total.evals += c.evals;
    total.transitions += c.transitions;
    total.traces += c.traces;
    total.sigs.insert(c.sigs.begin(), c.sigs.end());
    total.states.insert(c.states.begin(), c.states.end());
    for (auto& o : c.outcomes)
      total.outcomes[o.first] += o.second;
    if (total.sigs.size() + total.states.size() > 200000)
    {
      sendTotals(fd, total);
      total = Ctx();
    }
  }
  slot->current = -1;
  sendTotals(fd, total);
  _exit(0);
}

/** Runs a sequence of cases in a fresh process and reports whether the last one fails. Returns message or "" */
std::string runFresh(const Suite& s, const std::vector<size_t>& seq, double timeout)
{
  int p[2];
  if (pipe(p))
    exit(3);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    std::string m;
    for (size_t i : seq)
    {
      Ctx c;
      m = runCase(s, i, c);
    }
    putStr(p[1], m);
    _exit(0);
  }
  close(p[1]);
  double t0 = now();
  std::string buf;
  bool hang = false;
  for (;;)
  {
    pollfd pf{ p[0], POLLIN, 0 };
    int r = poll(&pf, 1, 200);
    if (r > 0)
    {
      char b[4096];
      ssize_t k = read(p[0], b, sizeof b);
      if (k <= 0)
        break;
      buf.append(b, k);
    }
    if (now() - t0 > timeout)
    {
      hang = true;
      kill(pid, SIGKILL);
      break;
    }
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (hang)
    return "no answer within " + std::to_string((int)timeout) + " s";
  if (WIFSIGNALED(st))
    return std::string("crashed with signal ") + strsignal(WTERMSIG(st));
  if (WEXITSTATUS(st) != 0)
    return "terminated the process with exit status " + std::to_string(WEXITSTATUS(st));
  if (buf.size() < 4)
    return "no result";
  return buf.substr(4);
}

std::vector<size_t> prefixOf(size_t idx, int stripe, int n)
{
  std::vector<size_t> v;
  for (size_t i = stripe; i <= idx; i += n)
    v.push_back(i);
  return v;
}
}  // namespace

int main(int argc, char** argv)
{
  Suite s;
  std::string replay, only, root = "/verif";
  bool list = false, verbose = false;
  if (const char* t = getenv("VERIF_TIER"))
    s.thorough = std::string(t) == "thorough";
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc)
      replay = argv[++i];
    else if (a == "--only" && i + 1 < argc)
      only = argv[++i];
    else if (a == "--tier" && i + 1 < argc)
      s.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--root" && i + 1 < argc)
      root = argv[++i];
    else if (a == "--list")
      list = true;
    else if (a == "--verbose")
      verbose = true;
  }
  std::string rp_case, rp_mode = "alone";
  int rp_stripe = 0, rp_n = 1;
  if (!replay.empty())
  {
    std::ifstream f(replay);
    std::string line;
    while (std::getline(f, line))
    {
      if (line.rfind("case: ", 0) == 0)
        rp_case = line.substr(6);
      if (line.rfind("mode: ", 0) == 0)
        rp_mode = line.substr(6);
      if (line.rfind("stripe: ", 0) == 0)
        sscanf(line.c_str() + 8, "%d/%d", &rp_stripe, &rp_n);
      if (line.rfind("tier: ", 0) == 0)
        s.thorough = line.substr(6) == "thorough";
    }
  }
  realStdout = dup(1);
  if (!verbose)
  {
    // the library prints solver reports; keep stdout for the verdict
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    close(dn);
  }
  FILE* out = fdopen(dup(realStdout), "w");
  setvbuf(out, nullptr, _IOLBF, 0);
  define(s);
  double t0 = now();
  if (!s.thorough)
    s.case_timeout = std::min(s.case_timeout, 150.);
  const bool stop = getenv("VF_STOP");  // for tools/mutate.py: the first suspect suffices
  if (!only.empty())
  {
    std::vector<std::pair<std::string, CaseFn>> sel;
    for (auto& c : s.cases)
      if (c.first.find(only) != std::string::npos)
        sel.push_back(c);
    s.cases = sel;
  }
  {
    std::set<std::string> ids;
    for (auto& c : s.cases)
      if (!ids.insert(c.first).second)
      {
        fprintf(out, "internal error: duplicate case id %s\n", c.first.c_str());
        return 3;
      }
  }
  if (list)
  {
    for (auto& c : s.cases)
      fprintf(out, "%s\n", c.first.c_str());
    return 0;
  }
  if (!replay.empty())
  {
    size_t idx = s.cases.size();
    for (size_t i = 0; i < s.cases.size(); ++i)
      if (s.cases[i].first == rp_case)
        idx = i;
    if (idx == s.cases.size())
    {
      fprintf(out, "case '%s' not found\n", rp_case.c_str());
      return 3;
    }
    std::string m =
        runFresh(s, rp_mode == "alone" ? std::vector<size_t>{ idx } : prefixOf(idx, rp_stripe, rp_n), 4 * s.case_timeout);
    fprintf(out, "%s: %s\n", rp_case.c_str(), m.empty() ? "holds" : m.c_str());
    return m.empty() ? 0 : 1;
  }

  int n = std::max(1u, std::thread::hardware_concurrency());
  if (const char* j = getenv("VF_JOBS"))
    n = std::max(1, atoi(j));
  if (n > 8)
    n = 8;
  Slot* slots = static_cast<Slot*>(
      mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct W
  {
    pid_t pid = -1;
    int fd = -1;
    Reader rd;
    bool done = false;
    bool killed = false;
  };
  std::vector<W> ws(n);
  auto start = [&](int k, size_t first) {
    int p[2];
    if (pipe(p))
      exit(3);
    fflush(nullptr);
    slots[k].current = -1;
    pid_t pid = fork();
    if (pid == 0)
    {
      close(p[0]);
      workerMain(s, p[1], &slots[k], first, n, s.cases.size());
    }
    close(p[1]);
    ws[k].pid = pid;
    ws[k].fd = p[0];
    ws[k].rd = Reader();
    ws[k].killed = false;
  };
  Totals tot;
  std::vector<std::tuple<size_t, int, std::string>> suspects;  // index, stripe, message
  uint64_t cases_run = s.cases.size();
  bool aborted = false;
  // known findings
  std::vector<std::pair<std::string, std::string>> known;  // case-id prefix, text
  {
    std::ifstream f(root + "/known_findings.txt");
    std::string line;
    std::string key = "finding: property=" + s.property + " case=";
    while (std::getline(f, line))
      if (line.rfind(key, 0) == 0)
      {
        std::string rest = line.substr(key.size());
        auto sp = rest.find(' ');
        known.emplace_back(rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1));
      }
  }
  auto isNew = [&](size_t idx) {
    for (auto& k : known)
      if (s.cases[idx].first.compare(0, k.first.size(), k.first) == 0)
        return false;
    return true;
  };
  for (int k = 0; k < n; ++k)
    start(k, k);
  int alive = n;
  while (alive)
  {
    if ((stop || (!s.thorough && now() - t0 > 300)) &&
        std::any_of(suspects.begin(), suspects.end(), [&](auto& x) { return isNew(std::get<0>(x)); }))
    {  // an answer in time matters more than a complete list of violations
      for (auto& w : ws)
        if (!w.done)
        {
          kill(w.pid, SIGKILL);
          waitpid(w.pid, nullptr, 0);
          close(w.fd);
          w.done = true;
        }
      aborted = true;
      break;
    }
    std::vector<pollfd> pf;
    std::vector<int> who;
    for (int k = 0; k < n; ++k)
      if (!ws[k].done)
      {
        pf.push_back({ ws[k].fd, POLLIN, 0 });
        who.push_back(k);
      }
    poll(pf.data(), pf.size(), 300);
    for (size_t q = 0; q < pf.size(); ++q)
    {
      int k = who[q];
      W& w = ws[k];
      if (pf[q].revents & (POLLIN | POLLHUP))
      {
        static char b[1 << 16];
        ssize_t r = read(w.fd, b, sizeof b);
        if (r > 0)
        {
          w.rd.buf.append(b, r);
          std::vector<std::pair<uint64_t, std::string>> fs;
          w.rd.parse(fs, tot);
          for (auto& f : fs)
            suspects.emplace_back(f.first, k, f.second);
        }
        else
        {
          std::vector<std::pair<uint64_t, std::string>> fs;
          w.rd.parse(fs, tot);
          for (auto& f : fs)
            suspects.emplace_back(f.first, k, f.second);
          close(w.fd);
          int st = 0;
          waitpid(w.pid, &st, 0);
          bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          long cur = slots[k].current;
          if (!clean && cur >= 0)
          {
            std::string why = w.killed ? "no answer within the case time limit" :
                              WIFSIGNALED(st) ? std::string("crashed with signal ") + strsignal(WTERMSIG(st)) :
                                                "terminated the process with exit status " + std::to_string(WEXITSTATUS(st));
            suspects.emplace_back(cur, k, why);
            if (suspects.size() < 60 && (size_t)cur + n < s.cases.size())
            {
              start(k, cur + n);
              continue;
            }
            else if ((size_t)cur + n < s.cases.size())
              aborted = true;
          }
          else if (!clean)
          {
            fprintf(out, "internal error: worker %d ended with status %d\n", k, st);
            return 3;
          }
          w.done = true;
          --alive;
        }
      }
      if (!w.done && slots[k].current >= 0 && now() - slots[k].started > s.case_timeout && !w.killed)
      {
        w.killed = true;
        kill(w.pid, SIGKILL);
      }
    }
  }
  std::sort(suspects.begin(), suspects.end());
  std::stable_partition(suspects.begin(), suspects.end(), [](auto& x) { return std::get<2>(x).rfind("no answer", 0) != 0; });
  std::vector<Violation> viol;
  std::set<std::string> known_hit;
  int unconfirmed = 0;
  for (auto& sp : suspects)
  {
    size_t idx = std::get<0>(sp);
    int stripe = std::get<1>(sp);
    const std::string& id = s.cases[idx].first;
    bool isknown = false;
    for (auto& k : known)
      if (id.compare(0, k.first.size(), k.first) == 0)
      {
        known_hit.insert(k.first + " " + k.second);
        isknown = true;
      }
    if (isknown)
      continue;
    if (viol.size() >= 5 || (!viol.empty() && (stop || (!s.thorough && now() - t0 > 200))))
      continue;
    // Replay before report: alone in a fresh process, else the whole deterministic prefix of its worker
    std::string m = runFresh(s, { idx }, (s.thorough ? 4 : 2) * s.case_timeout);
    Violation v{ idx, m, true, stripe, n };
    if (m.empty())
    {
      v.alone = false;
      v.msg = m = runFresh(s, prefixOf(idx, stripe, n), s.thorough ? 4 * s.case_timeout + 600 : std::max(60., 760 - (now() - t0)));
    }
    if (m.empty())
    {
      ++unconfirmed;
      fprintf(out, "note: case %s failed once (%s) but not on replay; not reported\n", id.c_str(),
              std::get<2>(sp).c_str());
      continue;
    }
    viol.push_back(v);
  }
  for (auto& k : known_hit)
    fprintf(out, "KNOWN-FINDING: property=%s %s\n", s.property.c_str(), k.c_str());
  mkdir((root + "/replays").c_str(), 0755);
  for (size_t i = 0; i < viol.size(); ++i)
  {
    auto& v = viol[i];
    std::string path = root + "/replays/" + s.property + "-" + std::to_string(i) + ".txt";
    std::ofstream f(path);
    f << "property: " << s.property << "\ncase: " << s.cases[v.index].first << "\nmode: " << (v.alone ? "alone" : "prefix")
      << "\nstripe: " << v.stripe << "/" << v.nstripes << "\ntier: " << (s.thorough ? "thorough" : "quick")
      << "\nwhat: " << v.msg << "\nreplay with: /verif/run.sh " << s.property << " --replay " << path << "\n";
    f.close();
    fprintf(out, "  case %s%s: %s\n", s.cases[v.index].first.c_str(), v.alone ? "" : " (after its predecessors)",
            v.msg.c_str());
    fprintf(out, "VIOLATION property=%s replay=%s\n", s.property.c_str(), path.c_str());
  }
  double wall = now() - t0;
  mkdir((root + "/evidence").c_str(), 0755);
  {
    std::ofstream f(root + "/evidence/" + s.property + ".json");
    const char* seed = getenv("VERIF_SEED");
    f << "{\n \"property\": \"" << s.property << "\",\n \"tier\": \"" << (s.thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << (seed ? atol(seed) : 1) << ",\n \"level\": \"" << s.level << "\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << tot.evals << ",\n  \"distinct_nontrivial\": " << tot.sigs.size()
      << ",\n  \"cases\": " << cases_run << ",\n  \"rule\": \"" << jsonEsc(s.rule) << "\",\n  \"exhaustive\": "
      << (aborted || !only.empty() ? "false" : "true") << ",\n";
    if (s.level == "model_checking")
      f << "  \"states\": " << tot.states.size() << ",\n  \"transitions\": " << tot.transitions
        << ",\n  \"traces_validated_against_impl\": " << tot.traces << ",\n";
    f << "  \"outcomes\": {";
    bool first = true;
    for (auto& o : tot.outcomes)
    {
      f << (first ? "" : ", ") << "\"" << jsonEsc(o.first) << "\": " << o.second;
      first = false;
    }
    f << "},\n  \"samples\": [";
    size_t m = s.cases.size(), cnt = std::min<size_t>(8, m);
    for (size_t i = 0; i < cnt; ++i)
      f << (i ? ", " : "") << "\"" << jsonEsc(s.cases[i * (m - 1) / std::max<size_t>(1, cnt - 1)].first) << "\"";
    f << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < s.assumptions.size(); ++i)
      f << (i ? ", " : "") << "\"" << jsonEsc(s.assumptions[i]) << "\"";
    f << "],\n \"unconfirmed\": " << unconfirmed << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << viol.size()
      << "\n}\n";
  }
  fprintf(out, "%s: %zu cases, %llu evaluations, %zu distinct, %zu states, %llu transitions, %.1f s, %zu violation(s)\n",
          s.property.c_str(), s.cases.size(), (unsigned long long)tot.evals, tot.sigs.size(), tot.states.size(),
          (unsigned long long)tot.transitions, wall, viol.size());
  for (auto& o : tot.outcomes)
    fprintf(out, "  outcome %-40s %llu\n", o.first.c_str(), (unsigned long long)o.second);
  if (aborted && viol.empty())
    return 3;
  return viol.empty() ? 0 : 1;
}

// Exhaustive bounded explorer used by every C++ check in /verif/checks.
//
// A check is a list of suites.  A suite is a function of a Ctx: it builds the
// real object under test, asks the Ctx to resolve every choice (which
// operation, which argument, which environment answer, which thread runs
// next) and compares the object with a reference model after every step.  The
// engine enumerates EVERY sequence of choices (depth-first, no sampling),
// sharded over forked workers so that a crash, a sanitizer report or a hang of
// the code under test is attributed to one choice sequence.  Every failing
// sequence is re-executed from scratch before it is reported.
#ifndef MC_HH
#define MC_HH
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail {
  std::string key, msg;
};
struct Prune {};
struct NotMine {};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char ch : s) {
    h ^= ch;
    h *= 1099511628211ULL;
  }
  return h;
}
inline uint64_t hdbl(double d, uint64_t h) {
  if (d == 0) d = 0;  // merge -0 and 0
  uint64_t u;
  memcpy(&u, &d, 8);
  return mix(h, u);
}

static const int MAXCHOICES = 1 << 14;
struct Slot {
  volatile int len;
  volatile uint64_t beat;
  int choices[MAXCHOICES];
};

class Ctx {
 public:
  std::vector<int> prefix;      // choices to replay
  std::vector<int> taken;       // choices taken
  std::vector<int> arity;       // number of alternatives at each
  std::vector<std::string> trace;
  bool tracing = false;
  bool strict = false;  // replay: the prefix must be consumed exactly
  bool thorough = false;
  int shard = 0, nshards = 1, splitDepth = 0;
  uint64_t transitions = 0;
  std::unordered_set<uint64_t> *states = nullptr;
  Slot *slot = nullptr;
  uint64_t outcome = 0;  // hash of what was observed in this execution

  int choose(int n, const char *what = "") {
    if (n <= 0) throw std::logic_error(std::string("mc: empty choice ") + what);
    size_t i = taken.size();
    int c;
    if (i < prefix.size()) {
      c = prefix[i];
      if (c < 0 || c >= n) {
        std::ostringstream os;
        os << "mc: divergence while replaying: choice " << i << " (" << what
           << ") is " << c << " of " << n;
        throw std::logic_error(os.str());
      }
    } else {
      if (strict)
        throw std::logic_error("mc: divergence while replaying: extra choice");
      c = 0;
    }
    taken.push_back(c);
    arity.push_back(n);
    if (slot && i < (size_t)MAXCHOICES) {
      slot->choices[i] = c;
      slot->len = (int)i + 1;
      slot->beat = slot->beat + 1;
    }
    if ((int)taken.size() == splitDepth && !mine()) throw NotMine();
    return c;
  }
  bool mine() const {
    uint64_t h = 88172645463325252ULL;
    for (size_t i = 0; i < taken.size() && (int)i < splitDepth; ++i)
      h = mix(h, (uint64_t)taken[i] + 1);
    return (int)(h % (uint64_t)nshards) == shard;
  }
  bool flag(const char *what = "") { return choose(2, what) == 1; }
  template <class T>
  const T &pick(const std::vector<T> &v, const char *what = "") {
    return v[(size_t)choose((int)v.size(), what)];
  }
  // one transition of the system under test
  void step() {
    ++transitions;
    if (slot) slot->beat = slot->beat + 1;
  }
  void note(const std::string &s) {
    if (tracing) trace.push_back(s);
  }
  void state(uint64_t h) {
    if (states) states->insert(h);
  }
  void observe(uint64_t h) { outcome = mix(outcome, h); }
  void prune() { throw Prune(); }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) {
    throw Fail{key, msg};
  }
  void expect(bool ok, const std::string &key, const std::string &msg) {
    if (!ok) throw Fail{key, msg};
  }
};

#define MC_OP(c, expr)               \
  do {                               \
    (c).step();                      \
    if ((c).tracing) {               \
      std::ostringstream mc_os_;     \
      mc_os_.precision(17);          \
      mc_os_ << expr;                \
      (c).note(mc_os_.str());        \
    }                                \
  } while (0)
#define MC_FAIL(c, key, expr)        \
  do {                               \
    std::ostringstream mc_os_;       \
    mc_os_.precision(17);            \
    mc_os_ << expr;                  \
    (c).fail(key, mc_os_.str());     \
  } while (0)
#define MC_EXPECT(c, cond, key, expr) \
  do {                                \
    if (!(cond)) MC_FAIL(c, key, expr); \
  } while (0)

struct Suite {
  std::string name;
  std::function<void(Ctx &)> fn;
  std::string bounds;    // what is enumerated
  int splitDepth = 3;    // choices used to shard
  bool onlyThorough = false;
};

inline std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (ch < 32 || ch > 126) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", ch);
          o += b;
        } else
          o += (char)ch;
    }
  }
  return o + "\"";
}
inline std::string jvec(const std::vector<int> &v) {
  std::ostringstream os;
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
  os << "]";
  return os.str();
}
inline std::string jtrace(const std::vector<std::string> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jesc(v[i]);
  return o + "]";
}

// Result of running one choice sequence to its end in this process.
enum Kind { OK, PRUNED, SKIPPED, FAILED };
struct RunResult {
  Kind kind;
  std::string key, msg;
};

inline RunResult run_once(const Suite &s, Ctx &c) {
  RunResult r{OK, "", ""};
  try {
    s.fn(c);
    if (c.strict && c.taken.size() != c.prefix.size())
      throw std::logic_error("mc: divergence while replaying: too few choices");
    if ((int)c.taken.size() < c.splitDepth && !c.mine()) r.kind = SKIPPED;
  } catch (const Fail &f) {
    r = RunResult{FAILED, f.key, f.msg};
  } catch (const Prune &) {
    r.kind = PRUNED;
    if ((int)c.taken.size() < c.splitDepth && !c.mine()) r.kind = SKIPPED;
  } catch (const NotMine &) {
    r.kind = SKIPPED;
  } catch (const std::logic_error &e) {
    if (!strncmp(e.what(), "mc: ", 4)) {
      r = RunResult{FAILED, "engine", e.what()};
    } else
      r = RunResult{FAILED, "uncaught-exception",
                    std::string("uncaught exception: ") + e.what()};
  } catch (const std::exception &e) {
    r = RunResult{FAILED, "uncaught-exception",
                  std::string("uncaught exception: ") + e.what()};
  } catch (...) {
    r = RunResult{FAILED, "uncaught-exception", "uncaught exception"};
  }
  return r;
}

struct Stats {
  uint64_t executions = 0, pruned = 0, transitions = 0, maxdepth = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::vector<std::string>> samples;
  std::map<std::string, uint64_t> known;
  std::map<std::string, std::string> knownMsg;
  bool failed = false;
  std::string key, msg;
  std::vector<int> choices;
  bool capped = false;
};

inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

struct Engine {
  std::string property;
  bool thorough = false;
  int jobs = 8;
  double hang = 25;
  double deadline = 1e18;  // cap, reported as such
  std::set<std::string> known;
  std::string tmp;

  static void quiet(const char *errfile) {
    int fd = ::open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    int fe = errfile ? ::open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
    dup2(fe >= 0 ? fe : fd, 2);
  }

  void worker(const Suite &s, int w, Slot *slot, const std::string &outfile) {
    Stats st;
    std::vector<int> prefix;
    bool more = true;
    int sampleCount = 0;
    while (more) {
      Ctx c;
      c.prefix = prefix;
      c.thorough = thorough;
      c.shard = w;
      c.nshards = jobs;
      c.splitDepth = jobs > 1 ? s.splitDepth : 0;
      c.states = &st.states;
      c.slot = slot;
      c.tracing = (w == 0 && sampleCount < 3 && (st.executions % 97) == 0);
      slot->len = 0;
      slot->beat = slot->beat + 1;
      RunResult r = run_once(s, c);
      if (r.kind == FAILED && !c.mine()) r.kind = SKIPPED;
      if (r.kind == OK || r.kind == PRUNED || r.kind == FAILED) {
        st.transitions += c.transitions;
        if (c.taken.size() > st.maxdepth) st.maxdepth = c.taken.size();
      }
      if (r.kind == OK) {
        ++st.executions;
        st.outcomes.insert(c.outcome);
        if (c.tracing && !c.trace.empty()) {
          st.samples.push_back(c.trace);
          ++sampleCount;
        }
      } else if (r.kind == PRUNED)
        ++st.pruned;
      else if (r.kind == FAILED) {
        ++st.executions;
        if (known.count(r.key)) {
          if (!st.known[r.key]++) st.knownMsg[r.key] = r.msg;
        } else {
          st.failed = true;
          st.key = r.key;
          st.msg = r.msg;
          st.choices = c.taken;
          break;
        }
      }
      // next choice sequence
      prefix = c.taken;
      std::vector<int> ar = c.arity;
      more = false;
      while (!prefix.empty()) {
        if (prefix.back() + 1 < ar[prefix.size() - 1]) {
          ++prefix.back();
          more = true;
          break;
        }
        prefix.pop_back();
      }
      if (more && (st.executions & 0xff) == 0 && now() > deadline) {
        st.capped = true;
        break;
      }
    }
    // write result
    std::ofstream f(outfile.c_str(), std::ios::binary);
    f << st.executions << " " << st.pruned << " " << st.transitions << " "
      << st.maxdepth << " " << st.failed << " " << st.capped << "\n";
    if (st.failed) {
      f << st.choices.size();
      for (int x : st.choices) f << " " << x;
      f << "\n";
      std::string m = jesc(st.msg), k = st.key;
      f << k << "\n" << m << "\n";
    }
    f << st.known.size() << "\n";
    for (auto &kv : st.known)
      f << kv.first << "\n" << kv.second << "\n" << jesc(st.knownMsg[kv.first])
        << "\n";
    f << st.samples.size() << "\n";
    for (auto &t : st.samples) f << jtrace(t) << "\n";
    f << st.states.size() << " " << st.outcomes.size() << "\n";
    for (uint64_t h : st.states) f.write((const char *)&h, 8);
    for (uint64_t h : st.outcomes) f.write((const char *)&h, 8);
    f.close();
  }

  struct Out {
    uint64_t executions = 0, pruned = 0, transitions = 0, maxdepth = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> known;
    std::map<std::string, std::string> knownMsg;
    bool failed = false, capped = false;
    std::string key, msg;  // msg is json
    std::vector<int> choices;
    std::string trace = "[]";
  };

  struct Replay {
    bool failed = false;
    std::string key, msg, trace = "[]";
  };

  // Re-execute one choice sequence in a child of its own.
  Replay replay(const Suite &s, const std::vector<int> &choices, double limit,
                bool strict) {
    std::string out = tmp + "/replay.out", err = tmp + "/replay.err",
                trc = tmp + "/replay.trc";
    unlink(out.c_str());
    fflush(NULL);
    pid_t p = fork();
    if (!p) {
      quiet(err.c_str());
      Ctx c;
      c.prefix = choices;
      c.strict = strict;
      c.thorough = thorough;
      c.tracing = true;
      RunResult r = run_once(s, c);
      std::ofstream f(out.c_str());
      f << (r.kind == FAILED ? 1 : 0) << "\n"
        << r.key << "\n"
        << jesc(r.msg) << "\n"
        << jtrace(c.trace) << "\n";
      f.close();
      _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hung = false;
    while (true) {
      pid_t q = waitpid(p, &st, WNOHANG);
      if (q == p) break;
      if (now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hung = true;
        break;
      }
      usleep(2000);
    }
    Replay rr;
    if (hung) {
      rr.failed = true;
      rr.key = "hang";
      rr.msg = jesc("the execution does not terminate");
      return rr;
    }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      rr.failed = true;
      rr.key = "crash";
      std::ostringstream os;
      if (WIFSIGNALED(st))
        os << "crash: signal " << WTERMSIG(st);
      else
        os << "crash: exit " << WEXITSTATUS(st);
      std::ifstream e(err.c_str());
      std::string l;
      int n = 0;
      while (n < 4 && std::getline(e, l))
        if (l.find("ERROR") != std::string::npos ||
            l.find("#1 ") != std::string::npos ||
            l.find("terminate") != std::string::npos ||
            l.find("what()") != std::string::npos ||
            l.find("Assertion") != std::string::npos) {
          os << " | " << l;
          ++n;
        }
      rr.msg = jesc(os.str());
      return rr;
    }
    std::ifstream f(out.c_str());
    std::string l;
    std::getline(f, l);
    rr.failed = l == "1";
    std::getline(f, rr.key);
    std::getline(f, rr.msg);
    std::getline(f, rr.trace);
    return rr;
  }

  Out run(const Suite &s) {
    Out o;
    Slot *slots = (Slot *)mmap(NULL, sizeof(Slot) * (size_t)jobs,
                               PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid((size_t)jobs);
    std::vector<uint64_t> lastBeat((size_t)jobs, 0);
    std::vector<double> lastT((size_t)jobs, now());
    std::vector<int> alive((size_t)jobs, 1);
    fflush(NULL);
    for (int w = 0; w < jobs; ++w) {
      slots[w].len = 0;
      slots[w].beat = 0;
      std::ostringstream of;
      of << tmp << "/w" << w << ".out";
      unlink(of.str().c_str());
      pid_t p = fork();
      if (!p) {
        quiet(NULL);
        worker(s, w, &slots[w], of.str());
        _exit(0);
      }
      pid[(size_t)w] = p;
    }
    int left = jobs;
    std::vector<std::pair<std::vector<int>, std::string>> cands;
    while (left > 0) {
      usleep(5000);
      for (int w = 0; w < jobs; ++w) {
        size_t W = (size_t)w;
        if (!alive[W]) continue;
        int st;
        pid_t q = waitpid(pid[W], &st, WNOHANG);
        bool dead = q == pid[W], hung = false;
        if (!dead) {
          if (slots[w].beat != lastBeat[W]) {
            lastBeat[W] = slots[w].beat;
            lastT[W] = now();
          } else if (now() - lastT[W] > hang) {
            kill(pid[W], SIGKILL);
            waitpid(pid[W], &st, 0);
            hung = dead = true;
          }
        }
        if (!dead) continue;
        alive[W] = 0;
        --left;
        bool crashed =
            hung || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
        if (crashed) {
          std::vector<int> ch(slots[w].choices,
                              slots[w].choices + slots[w].len);
          cands.push_back(std::make_pair(ch, hung ? "hang" : "crash"));
          // one crash is a verdict: stop the others
          for (int v = 0; v < jobs; ++v)
            if (alive[(size_t)v]) kill(pid[(size_t)v], SIGKILL);
        }
      }
    }
    for (int w = 0; w < jobs; ++w) {
      std::ostringstream of;
      of << tmp << "/w" << w << ".out";
      std::ifstream f(of.str().c_str(), std::ios::binary);
      if (!f) continue;
      uint64_t ex, pr, tr, md, n;
      int failed, capped;
      if (!(f >> ex >> pr >> tr >> md >> failed >> capped)) continue;
      o.executions += ex;
      o.pruned += pr;
      o.transitions += tr;
      if (md > o.maxdepth) o.maxdepth = md;
      if (capped) o.capped = true;
      std::string l;
      if (failed) {
        f >> n;
        std::vector<int> ch(n);
        for (auto &x : ch) f >> x;
        std::getline(f, l);
        std::string k, m;
        std::getline(f, k);
        std::getline(f, m);
        cands.push_back(std::make_pair(ch, k));
      }
      f >> n;
      std::getline(f, l);
      for (uint64_t i = 0; i < n; ++i) {
        std::string k, c, m;
        std::getline(f, k);
        std::getline(f, c);
        std::getline(f, m);
        o.known[k] += strtoull(c.c_str(), 0, 10);
        o.knownMsg[k] = m;
      }
      f >> n;
      std::getline(f, l);
      for (uint64_t i = 0; i < n; ++i) {
        std::getline(f, l);
        o.samples.push_back(l);
      }
      uint64_t ns, no;
      f >> ns >> no;
      std::getline(f, l);
      for (uint64_t i = 0; i < ns; ++i) {
        uint64_t h;
        f.read((char *)&h, 8);
        o.states.insert(h);
      }
      for (uint64_t i = 0; i < no; ++i) {
        uint64_t h;
        f.read((char *)&h, 8);
        o.outcomes.insert(h);
      }
    }
    munmap(slots, sizeof(Slot) * (size_t)jobs);
    // replay before report; shortest first
    std::sort(cands.begin(), cands.end(),
              [](const std::pair<std::vector<int>, std::string> &a,
                 const std::pair<std::vector<int>, std::string> &b) {
                return a.first.size() != b.first.size()
                           ? a.first.size() < b.first.size()
                           : a.first < b.first;
              });
    for (auto &cd : cands) {
      bool strict = cd.second != "crash" && cd.second != "hang";
      Replay a = replay(s, cd.first, 2 * hang, strict);
      Replay b = replay(s, cd.first, 2 * hang, strict);
      if (a.failed && b.failed && a.key == b.key) {
        if (known.count(a.key)) {
          o.known[a.key]++;
          o.knownMsg[a.key] = a.msg;
          continue;
        }
        o.failed = true;
        o.key = a.key;
        o.msg = a.msg;
        o.trace = a.trace;
        o.choices = cd.first;
        break;
      }
      std::cerr << "mc: a candidate failure did not reproduce (" << cd.second
                << ": first " << a.failed << "/" << a.key << ", second "
                << b.failed << "/" << b.key << ")\n";
      o.key = "unreproducible";
    }
    return o;
  }
};

inline int main(int argc, char **argv, const std::string &property,
                const std::vector<Suite> &suites) {
  Engine e;
  e.property = property;
  std::string out = "result.json", replayFile, only, suiteName;
  std::vector<int> choices;
  bool doReplay = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough")
      e.thorough = true;
    else if (a == "--jobs")
      e.jobs = atoi(next().c_str());
    else if (a == "--out")
      out = next();
    else if (a == "--tmp")
      e.tmp = next();
    else if (a == "--known")
      e.known.insert(next());
    else if (a == "--only")
      only = next();
    else if (a == "--deadline")
      e.deadline = now() + atof(next().c_str());
    else if (a == "--replay") {
      doReplay = true;
      suiteName = next();
      std::istringstream is(next());
      int x;
      while (is >> x) choices.push_back(x);
    }
  }
  if (e.tmp.empty()) {
    std::cerr << "--tmp DIR is needed\n";
    return 2;
  }
  if (doReplay) {
    for (auto &s : suites)
      if (s.name == suiteName) {
        Engine::Replay r = e.replay(s, choices, 2 * e.hang, false);
        std::cout << "{\"failed\":" << (r.failed ? "true" : "false")
                  << ",\"key\":" << jesc(r.key)
                  << ",\"msg\":" << (r.msg.empty() ? "\"\"" : r.msg)
                  << ",\"trace\":" << r.trace << "}\n";
        return 0;
      }
    std::cerr << "no suite " << suiteName << "\n";
    return 2;
  }
  std::ofstream f(out.c_str());
  f << "{\"suites\":[";
  bool first = true, failed = false, bad = false;
  for (auto &s : suites) {
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    if (s.onlyThorough && !e.thorough) continue;
    double t0 = now();
    Engine::Out o = e.run(s);
    if (o.key == "engine" || o.key == "unreproducible") bad = true;
    f << (first ? "" : ",") << "\n{\"name\":" << jesc(s.name)
      << ",\"bounds\":" << jesc(s.bounds) << ",\"executions\":" << o.executions
      << ",\"pruned\":" << o.pruned << ",\"transitions\":" << o.transitions
      << ",\"maxdepth\":" << o.maxdepth << ",\"states\":" << o.states.size()
      << ",\"outcomes\":" << o.outcomes.size()
      << ",\"capped\":" << (o.capped ? "true" : "false")
      << ",\"wall\":" << now() - t0 << ",\"samples\":[";
    for (size_t i = 0; i < o.samples.size(); ++i)
      f << (i ? "," : "") << o.samples[i];
    f << "],\"known\":{";
    bool k1 = true;
    for (auto &kv : o.known) {
      f << (k1 ? "" : ",") << jesc(kv.first) << ":{\"count\":" << kv.second
        << ",\"msg\":" << o.knownMsg[kv.first] << "}";
      k1 = false;
    }
    f << "},\"failed\":" << (o.failed ? "true" : "false");
    if (o.failed) {
      failed = true;
      f << ",\"key\":" << jesc(o.key) << ",\"msg\":" << o.msg
        << ",\"trace\":" << o.trace << ",\"choices\":" << jvec(o.choices);
    }
    f << "}";
    first = false;
    if (o.key == "engine") {
      std::cerr << "mc: engine error in suite " << s.name << ": " << o.msg
                << "\n";
    }
    if (failed) break;
  }
  f << "\n]}\n";
  f.close();
  if (bad) return 2;
  return failed ? 1 : 0;
}

// tolerance comparison: absolute for small values, relative for large ones
inline bool near(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * m;
}

}  // namespace mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used)) const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_"
         "null=1:handle_abort=0:detect_stack_use_after_return=0:"
         "max_allocation_size_mb=4096";
}
#endif

#endif

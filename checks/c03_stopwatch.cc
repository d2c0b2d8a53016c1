// Stopwatch: the statistics of every record equal the ones recomputed from the
// history of the clock, for every well-formed history of calls.
#include <mc.hh>
#include <sys/time.h>
#include <time.h>
#include <sot/core/stop-watch.hh>

// The clocks are ours: real time and CPU time advance independently, so that
// a measure taken on the wrong clock shows.
static long long realUs = 0, cpuTicks = 0;
static bool fake = false;
extern "C" int gettimeofday(struct timeval *tv, void *) __THROW {
  tv->tv_sec = realUs / 1000000;
  tv->tv_usec = realUs % 1000000;
  return 0;
}
extern "C" clock_t clock(void) __THROW { return (clock_t)cpuTicks; }

struct Rec {
  bool exists = false, running = false, fresh = false;  // fresh: reset, not started since
  bool pausedPart = false;  // paused and not stopped since
  long double t0 = 0, total = 0, parts = 0;
  std::vector<long double> laps;
};

static const char *NAME[2] = {"control loop", "b"};

struct World {
  Stopwatch sw;
  bool cpu, active = true;
  Rec r[2];
  explicit World(bool cpu) : sw(cpu ? CPU_TIME : REAL_TIME), cpu(cpu) {
    realUs = 1700000000LL * 1000000 + 999999;
    cpuTicks = 5000;
  }
  long double time() const {
    return cpu ? (long double)cpuTicks / CLOCKS_PER_SEC : (long double)realUs / 1000000.0L;
  }
  uint64_t hash() const {
    uint64_t h = active;
    for (int i = 0; i < 2; ++i) {
      h = mc::mix(h, r[i].exists * 4 + r[i].running * 2 + r[i].pausedPart);
      h = mc::hdbl(std::round((double)r[i].total * 1e7), h);
      h = mc::hdbl(std::round((double)r[i].parts * 1e7), h);
      if (r[i].running) h = mc::hdbl(std::round((double)(time() - r[i].t0) * 1e7), h);
      long double mn = 1e9, mx = -1;
      for (long double l : r[i].laps) mn = std::min(mn, l), mx = std::max(mx, l);
      h = mc::hdbl(std::round((double)mn * 1e7), mc::hdbl(std::round((double)mx * 1e7), h));
      h = mc::mix(h, r[i].laps.size());
    }
    return h;
  }
};

static void eq(mc::Ctx &c, long double got, long double want, const char *what, int i) {
  c.observe(mc::hdbl(std::round((double)got * 1e6), 3));
  MC_EXPECT(c, std::fabs((double)(got - want)) < 2e-7, what,
            what << " of \"" << NAME[i] << "\" is " << (double)got << ", the history gives " << (double)want);
}

static void verify(mc::Ctx &c, World &w) {
  for (int i = 0; i < 2; ++i) {
    Rec &r = w.r[i];
    MC_EXPECT(c, w.sw.performance_exists(NAME[i]) == r.exists, "exists", "record \"" << NAME[i] << "\" exists: " << !r.exists);
    if (!r.exists) continue;
    eq(c, w.sw.get_total_time(NAME[i]), r.total, "total", i);
    if (!r.laps.empty()) eq(c, w.sw.get_average_time(NAME[i]), r.total / r.laps.size(), "average", i);
    if (!r.laps.empty()) {
      long double mn = r.laps[0], mx = r.laps[0];
      for (long double l : r.laps) mn = std::min(mn, l), mx = std::max(mx, l);
      eq(c, w.sw.get_min_time(NAME[i]), mn, "minimum", i);
      eq(c, w.sw.get_max_time(NAME[i]), mx, "maximum", i);
      eq(c, w.sw.get_last_time(NAME[i]), r.laps.back(), "last", i);
    }
    if (r.running) eq(c, w.sw.get_time_so_far(NAME[i]), w.time() - r.t0, "time-so-far", i);
    // the printed report carries the same numbers
    if (w.active && !r.laps.empty()) {
      std::ostringstream os;
      w.sw.report(NAME[i], 4, os);
      std::string t = os.str();
      MC_EXPECT(c, t.compare(0, strlen(NAME[i]), NAME[i]) == 0, "report", "the report does not start with the name: " << t);
      std::istringstream is(t.substr(strlen(NAME[i])));
      double v[6];
      for (int k = 0; k < 6; ++k) MC_EXPECT(c, (bool)(is >> v[k]), "report", "the report misses a number: " << t);
      long double mn = r.laps[0], mx = r.laps[0];
      for (long double l : r.laps) mn = std::min(mn, l), mx = std::max(mx, l);
      long double want[6] = {mn * 1e3L, r.total / r.laps.size() * 1e3L, mx * 1e3L, r.laps.back() * 1e3L, (long double)r.laps.size(), r.total * 1e3L};
      for (int k = 0; k < 6; ++k)
        MC_EXPECT(c, std::fabs(v[k] - (double)want[k]) < 3e-4, "report", "number " << k << " of the report is " << v[k] << " instead of " << (double)want[k]);
    }
  }
}

static void history(mc::Ctx &c, int depth, bool pauses, bool onoff) {
  World w(c.flag("CPU time"));
  c.note(w.cpu ? "CPU time" : "real time");
  std::ostringstream sink;
  std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
  struct Back {
    std::streambuf *b;
    ~Back() { std::cout.rdbuf(b); }
  } back{old};
  for (int d = 0; d < depth; ++d) {
    // the operations that make sense now
    std::vector<std::pair<char, int>> ops;
    for (int i = 0; i < 2; ++i) {
      Rec &r = w.r[i];
      if (!r.running || !w.active) ops.push_back({'s', i});
      if (r.exists && (r.running || !w.active)) {
        ops.push_back({'t', i});
        if (pauses) ops.push_back({'p', i});
      }
      if (r.exists) ops.push_back({'r', i});
      if (r.fresh) ops.push_back({'t', i});  // stop after reset: ignored
    }
    ops.push_back({'a', 0});
    if (onoff) ops.push_back({'o', 0});
    std::pair<char, int> op = ops[(size_t)c.choose((int)ops.size(), "op")];
    int i = op.second;
    Rec &r = w.r[i];
    // time passes before the call
    static const long long REAL[3] = {0, 250000, 1750001}, CPU[3] = {0, 130000, 41};
    int k = c.choose(3, "delay");
    realUs += REAL[k];
    cpuTicks += CPU[k];
    switch (op.first) {
      case 's':
        MC_OP(c, "+" << REAL[k] << "us real, +" << CPU[k] << " ticks; start " << NAME[i]);
        w.sw.start(NAME[i]);
        if (w.active) {
          r.exists = r.running = true;
          r.fresh = false;
          r.t0 = w.time();
        }
        break;
      case 't':
        MC_OP(c, "+" << REAL[k] << "us real, +" << CPU[k] << " ticks; stop " << NAME[i]);
        w.sw.stop(NAME[i]);
        if (w.active && r.running) {
          long double l = w.time() - r.t0;
          r.total += l;
          r.laps.push_back(r.parts + l);  // with its parts before its pauses
          r.parts = 0;
          r.running = r.pausedPart = false;
          // the record keeps its start; a second stop is not a well-formed use
        }
        break;
      case 'p':
        MC_OP(c, "+" << REAL[k] << "us real, +" << CPU[k] << " ticks; pause " << NAME[i]);
        w.sw.pause(NAME[i]);
        if (w.active && r.running) {
          r.total += w.time() - r.t0;
          r.parts += w.time() - r.t0;
          r.running = false;
          r.pausedPart = true;
        }
        break;
      case 'r':
        MC_OP(c, "reset " << NAME[i]);
        w.sw.reset(NAME[i]);
        if (w.active) {
          r = Rec();
          r.exists = r.fresh = true;
        }
        break;
      case 'a':
        MC_OP(c, "reset all");
        w.sw.reset_all();
        if (w.active)
          for (int j = 0; j < 2; ++j) {
            bool e = w.r[j].exists;
            w.r[j] = Rec();
            w.r[j].exists = w.r[j].fresh = e;
          }
        break;
      case 'o':
        w.active = !w.active;
        MC_OP(c, (w.active ? "turn on" : "turn off"));
        if (w.active)
          w.sw.turn_on();
        else
          w.sw.turn_off();
        break;
    }
    verify(c, w);
    c.state(w.hash());
  }
}

// Unknown records and an unset mode are reported, nothing is created.
static void errors(mc::Ctx &c) {
  World w(c.flag("CPU"));
  int k = c.choose(9, "call");
  bool known = c.flag("another record exists");
  if (known) w.sw.start("other");
  MC_OP(c, "call " << k << " on an unknown record");
  bool thrown = false;
  try {
    std::ostringstream os;
    switch (k) {
      case 0: w.sw.stop("none"); break;
      case 1: w.sw.pause("none"); break;
      case 2: w.sw.reset("none"); break;
      case 3: w.sw.report("none", 2, os); break;
      case 4: w.sw.get_total_time("none"); break;
      case 5: w.sw.get_min_time("none"); break;
      case 6: w.sw.get_max_time("none"); break;
      case 7: w.sw.get_average_time("none"); break;
      case 8: w.sw.get_time_so_far("none"); break;
    }
  } catch (const StopwatchException &) {
    thrown = true;
  }
  MC_EXPECT(c, thrown, "unknown-record", "no error for an unknown record");
  MC_EXPECT(c, !w.sw.performance_exists("none"), "unknown-record", "a failed call creates a record");
  c.state((uint64_t)k);
  Stopwatch none;
  thrown = false;
  try {
    none.start("x");
  } catch (const StopwatchException &) {
    thrown = true;
  }
  MC_EXPECT(c, thrown, "no-mode", "a stopwatch without a time mode measures time");
  none.set_mode(REAL_TIME);
  none.start("x");
  realUs += 500000;
  none.stop("x");
  MC_EXPECT(c, std::fabs((double)none.get_last_time("x") - 0.5) < 1e-6, "last", "wrong measure after setting the mode");
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> s;
  s.push_back({"laps", [](mc::Ctx &c) { history(c, c.thorough ? 6 : 5, false, false); },
               "both clocks; 2 records; every sequence of 5 (thorough 6) start/stop/reset/reset-all calls with 3 delays before each (one null)"});
  s.push_back({"pauses", [](mc::Ctx &c) { history(c, c.thorough ? 6 : 5, true, false); },
               "the same with pause, 5 (thorough 6) calls"});
  s.push_back({"on-off", [](mc::Ctx &c) { history(c, c.thorough ? 6 : 4, true, true); },
               "the same with the clock turned off and on, 4 (thorough 6) calls"});
  s.push_back({"errors", errors, "every accessor on an unknown record, unset mode"});
  return mc::main(argc, argv, "C03", s);
}

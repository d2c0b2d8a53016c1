// C29: recorded data are replayed as they are in their files, events happen
// at their times and stamps are those of the clock.
#include <sot/core/reader.hh>
#include <sot/core/sequencer.hh>
#include <sot/core/time-stamp.hh>
#include <sys/time.h>
#include <unistd.h>

#include "inputs.hh"

// The clock of the entities is that of the harness.
static long nowUs = 0;    // since 1970
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
  tv->tv_sec = nowUs / 1000000;
  tv->tv_usec = nowUs % 1000000;
  return 0;
}

/* --- reader ------------------------------------------------------------ */
typedef std::vector<double> Line;
struct Text {
  std::string name, text;
  std::vector<Line> lines;
};
static Line upto(int n, double step) {
  Line l;
  for (int i = 0; i < n; ++i) l.push_back(i * step);
  return l;
}
static std::string join(const Line &l) {
  std::ostringstream os;
  for (size_t i = 0; i < l.size(); ++i) os << (i ? " " : "") << l[i];
  return os.str();
}
static const std::vector<Text> &texts() {
  static std::vector<Text> v;
  if (v.empty()) {
    Line shrt = upto(6, 1.25), exact = upto(300, 0.5), lng = upto(1500, 0.25);
    v.push_back({"plain", "1 2 3 4\n5 6 7 8\n9 10 11 12\n", {{1, 2, 3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}}});
    v.push_back({"ragged", "\n  -1.5\t2e3 \n\ntext\n7 8 x 9\n0.5", {{-1.5, 2000}, {7, 8}, {0.5}}});
    v.push_back({"long lines", join(shrt) + "\n" + join(lng) + "\n" + join(exact) + "\n", {shrt, lng, exact}});
    v.push_back({"nothing", "", {}});
    v.push_back({"blank lines", "\n \n\n", {}});
  }
  return v;
}
static std::string pathOf(const std::string &what) {
  const char *d = getenv("VERIF_SCRATCH");
  std::ostringstream os;
  os << (d ? d : "/tmp") << "/" << what << "-" << getpid();
  return os.str();
}
struct TextFile {
  std::string path;
  explicit TextFile(const std::string &what) : path(pathOf(what)) { unlink(path.c_str()); }
  ~TextFile() { unlink(path.c_str()); }
  void put(const std::string &s) { std::ofstream(path.c_str(), std::ios::binary) << s; }
};
static Flags makeFlags(int k) {
  // everything, one of two, the first two, all but the second, none
  if (!k) return Flags(true);
  if (k == 4) return Flags(false);
  Flags f;
  for (int i = 0; i < 1600; ++i) f.add(k == 1 ? i % 2 == 1 : k == 2 ? i < 2 : i != 1);
  return f;
}
static const Flags &flagsOf(int k) {
  static const Flags f[5] = {makeFlags(0), makeFlags(1), makeFlags(2), makeFlags(3), makeFlags(4)};
  return f[k];
}
static bool selected(int k, int i) { return k == 0 || (k == 1 && i % 2 == 1) || (k == 2 && i < 2) || (k == 3 && i != 1); }
static void reader(mc::Ctx &c) {
  sotReader r(mc::uniq("reader"));
  std::vector<Line> data;
  int cur = -1, t = 0, sel = 0, rows = 0, cols = 0;
  TextFile f("reader");
  int depth = c.thorough ? 6 : 5;
  for (int k = 0; k < depth; ++k) {
    switch (c.choose(k == 0 ? 2 : 7, "step")) {
      case 0: {
        const Text &x = texts()[(size_t)c.choose(k ? 3 : (int)texts().size(), "file")];
        MC_OP(c, "load " << x.name);
        f.put(x.text);
        mc::run(r, "load", {mc::Value(f.path)});
        data.insert(data.end(), x.lines.begin(), x.lines.end());
        break;
      }
      case 1:
        MC_OP(c, "load a missing file");
        unlink(f.path.c_str());
        mc::run(r, "load", {mc::Value(f.path)});
        break;
      case 2:
        MC_OP(c, "clear");
        mc::run(r, "clear");
        data.clear();
        cur = -1;
        break;
      case 3:
        MC_OP(c, "rewind");
        mc::run(r, "rewind");
        cur = -1;
        break;
      case 4: {
        sel = c.choose(5, "selection");
        MC_OP(c, "selection " << sel);
        r.selectionSIN = flagsOf(sel);
        break;
      }
      case 5: {
        static const int sz[][2] = {{2, 2}, {3, 1}};
        int i = c.choose(2, "size");
        rows = sz[i][0];
        cols = sz[i][1];
        MC_OP(c, "resize " << rows << " " << cols);
        mc::run(r, "resize", {mc::Value(rows), mc::Value(cols)});
        break;
      }
      default: {
        // times of reading need not follow each other; one line per time
        int order = c.choose(3, "read");
        t += 1 + (order == 2);
        Vector gotV;
        Matrix gotM;
        if (order == 0) gotV = r.vectorSOUT(t);
        gotM = r.matrixSOUT(t);
        if (order != 0) gotV = r.vectorSOUT(t);
        MC_OP(c, "read at " << t << ": " << (gotV.size() > 20 ? std::string("a long vector") : mc::show(gotV)));
        if (data.empty()) break;
        if (cur + 1 < (int)data.size()) ++cur;
        Line l;
        for (size_t i = 0; i < data[(size_t)cur].size(); ++i)
          if (selected(sel, (int)i)) l.push_back(data[(size_t)cur][i]);
        Vector want(l.size());
        for (size_t i = 0; i < l.size(); ++i) want((long)i) = l[i];
        MC_EXPECT(c, mc::near(gotV, want), "line",
                  "line " << cur << " at " << t << " has " << gotV.size() << " numbers instead of " << want.size() << " or other ones: " << mc::show(gotV.head(std::min(12L, (long)gotV.size()))));
        MC_EXPECT(c, mc::near(Vector(r.vectorSOUT(t)), want), "again", "read again, another line is given");
        c.observe(mc::hmat(Matrix(gotV), (uint64_t)cur));
        if ((int)l.size() < rows * cols) break;  // nothing is said of the matrix
        Matrix m(rows, cols);
        for (int i = 0; i < rows; ++i)
          for (int j = 0; j < cols; ++j) m(i, j) = l[(size_t)(i * cols + j)];
        MC_EXPECT(c, mc::near(gotM, m), "matrix", "the matrix is " << mc::show(gotM) << " instead of " << mc::show(m));
      }
    }
  }
}

/* --- sequencer ----------------------------------------------------------- */
struct Happened {
  int id;
  const void *sot;
};
static std::vector<Happened> happened;
static int alive = 0;
struct Ev : public Sequencer::sotEventAbstract {
  int id;
  Ev(int id, int type, const std::string &n) : sotEventAbstract(n), id(id) {
    eventType = type;
    ++alive;
  }
  ~Ev() { --alive; }
  void operator()(Sot *s) { happened.push_back({id, s}); }
};
struct Seq : public Sequencer {
  Seq(const std::string &n) : Sequencer(n) {}
  void play(bool p) { playMode = p; }
  void output(std::ostream *os) { outputStreamPtr = os; }
};
static void sequencer(mc::Ctx &c) {
  struct Mem {  // events which are removed are not deleted by the sequencer
    std::vector<Ev *> removed;
    ~Mem() {
      for (Ev *e : removed) delete e;
    }
  } mem;
  std::unique_ptr<Seq> s(new Seq(mc::uniq("sequencer")));
  struct Clear {
    Seq &s;
    ~Clear() { s.clearAll(); }
  } clearing{*s};
  alive = 0;
  struct E {
    int when, id, type, name;
    Ev *ev;
  };
  std::vector<E> evs;
  static const char *names[] = {"first", "second"};
  static int somewhere;
  Sot *sot = NULL;
  int t = 0, t0 = -1, ids = 0;
  bool playing = false, verbose = false;
  std::ostringstream os;
  int depth = c.thorough ? 4 : 3, first = c.choose(3, "events");
  if (c.flag("playing")) s->play(playing = true);
  for (int k = -first; k < depth; ++k) {
    int w = k < 0 ? 0 : c.choose(8, "step");
    if (w == 0) {
      int when = c.choose(3, "time of the event"), kind = c.choose(3, "kind"), type = kind / 2, name = kind % 2;
      Ev *e = new Ev(++ids, type, names[name]);
      s->addTask(e, (unsigned)when);
      evs.push_back({when, ids, type, name, e});
      MC_OP(c, "add " << ids << ", " << names[name] << " of type " << type << ", at t0+" << when);
    } else if (w == 1) {
      int when = c.choose(3, "time of the event"), kind = c.choose(3, "kind"), type = kind / 2, name = kind % 2;
      MC_OP(c, "remove " << names[name] << " of type " << type << " at t0+" << when);
      s->rmTask(type, names[name], (unsigned)when);
      for (size_t i = 0; i < evs.size(); ++i)
        if (evs[i].when == when && evs[i].type == type && evs[i].name == name) {
          mem.removed.push_back(evs[i].ev);
          evs.erase(evs.begin() + (long)i);
          break;
        }
    } else if (w == 2) {
      MC_OP(c, "clear");
      s->clearAll();
      evs.clear();
    } else if (w == 3) {
      playing = !playing;
      MC_OP(c, (playing ? "play" : "pause"));
      s->play(playing);
    } else if (w == 4) {
      sot = sot ? NULL : reinterpret_cast<Sot *>(&somewhere);
      MC_OP(c, "set the solver");
      s->setSotRef(sot);
    } else if (w == 5) {
      verbose = !verbose;
      s->output(verbose ? &os : NULL);
      MC_OP(c, (verbose ? "verbose" : "quiet"));
    } else {
      t += w == 6 ? 1 : 2;
      happened.clear();
      os.str("");
      s->triggerSOUT(t);
      MC_OP(c, "trigger at " << t << ": " << happened.size() << " events");
      std::vector<int> want;
      std::ostringstream said;
      if (playing) {
        if (t0 < 0) t0 = t;
        for (const E &e : evs)
          if (e.when == t - t0) {
            want.push_back(e.id);
            if (verbose) said << "At time t=" << t << ": " << names[e.name] << "\n";
          }
      }
      MC_EXPECT(c, happened.size() == want.size(), "events", happened.size() << " events happen at " << t << " instead of " << want.size() << " (t0 is " << t0 << ")");
      for (size_t i = 0; i < want.size(); ++i) {
        MC_EXPECT(c, happened[i].id == want[i], "events", "event " << happened[i].id << " happens at " << t << " instead of " << want[i]);
        MC_EXPECT(c, happened[i].sot == sot, "solver", "event " << want[i] << " is given another solver");
        c.observe((uint64_t)want[i]);
      }
      MC_EXPECT(c, os.str() == said.str(), "report", "\"" << os.str() << "\" is reported instead of \"" << said.str() << "\"");
      s->triggerSOUT(t);
      MC_EXPECT(c, happened.size() == want.size(), "once", "events happen again at the same time");
    }
    MC_EXPECT(c, alive == (int)(evs.size() + mem.removed.size()), "alive", alive << " events are kept instead of " << evs.size());
    std::ostringstream d;
    s->display(d);
    std::ostringstream want;
    want << "Sequencer " << s->getName() << "(t0=" << t0 << ",mode=" << (playing ? "play" : "pause") << "): \n";
    for (int when = 0; when < 3; ++when) {
      std::string l;
      for (const E &e : evs)
        if (e.when == when) l += std::string(names[e.name]) + " ";
      if (!l.empty()) want << " - t=" << when << ":\t" << l << "\n";
    }
    MC_EXPECT(c, d.str() == want.str(), "display", "the display is \"" << d.str() << "\" instead of \"" << want.str() << "\"");
  }
}

/* --- time stamps --------------------------------------------------------- */
static void stamps(mc::Ctx &c) {
  nowUs = 1234567890L;
  TimeStamp e(mc::uniq("stamp"));
  int t = 1;
  long once[2] = {0, 0};
  int at[2] = {0, 0};
  auto two = [](long us) {
    Vector v(2);
    v << (double)(us / 1000000), (double)(us % 1000000);
    return v;
  };
  static const long lapses[] = {1, 1000, 999999, 7250000};
  int depth = c.thorough ? 8 : 6;
  for (int k = 0; k < depth; ++k) {
    int w = c.choose(9, "step");
    if (w < 4) {
      nowUs += lapses[w];
      MC_OP(c, "wait " << lapses[w] << " us");
    } else if (w == 4) {
      ++t;
      MC_OP(c, "time " << t);
    } else if (w == 5) {
      Vector v = e.timeSOUT(t);
      MC_OP(c, "time is " << mc::show(v));
      MC_EXPECT(c, mc::near(v, two(nowUs)), "time", "it is " << mc::show(v) << " instead of " << nowUs << " us");
    } else if (w == 6) {
      double d = e.timeDoubleSOUT(t);
      MC_OP(c, "timeDouble is " << d);
      MC_EXPECT(c, std::fabs(d - (double)nowUs * 1e-3) < 1e-6, "timeDouble", "it is " << d << " ms instead of " << nowUs << " us");
    } else if (w == 7) {
      Vector v = e.timeOnceSOUT(t);
      if (at[0] != t) once[0] = nowUs;
      at[0] = t;
      MC_OP(c, "synchro is " << mc::show(v));
      MC_EXPECT(c, mc::near(v, two(once[0])), "synchro", "at " << t << " it is " << mc::show(v) << " instead of " << once[0] << " us");
    } else {
      double d = e.timeOnceDoubleSOUT(t);
      if (at[1] != t) once[1] = nowUs;
      at[1] = t;
      MC_OP(c, "synchroDouble is " << d);
      MC_EXPECT(c, std::fabs(d - (double)once[1] * 1e-3) < 1e-6, "synchroDouble", "at " << t << " it is " << d << " ms instead of " << once[1] << " us");
    }
    c.observe(mc::mix((uint64_t)nowUs, (uint64_t)w));
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"reader", reader, "5 files (ragged, text, lines of thousands of characters, none); histories of loads, clears, rewinds, selections, sizes and readings of depth 5 (thorough: 6)", 3});
  S.push_back({"sequencer", sequencer, "0 to 2 events, then histories of depth 3 (thorough: 4) of events added and removed at 3 times, clears, plays, pauses and triggers", 3});
  S.push_back({"stamps", stamps, "histories of depth 6 (thorough: 8) of lapses, times and readings of the four signals", 3});
  return mc::main(argc, argv, "C29", S);
}

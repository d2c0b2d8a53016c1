// C11: the mailbox between threads, under every interleaving.
#include "fibers.hh"
#include <sot/core/mailbox.hxx>

using namespace dynamicgraph;
using namespace dynamicgraph::sot;

// gettimeofday is replaced by a clock that never gives twice the same date
static long g_clock = 0;
struct World;
static void dated();
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *) {
  mc::Sched *s = mc::Sched::active();
  if (s) s->yield("clock");
  ++g_clock;
  tv->tv_sec = g_clock;
  if (s) s->yield("clock");
  tv->tv_usec = 7 * g_clock;
  dated();
  return 0;
}

// an object of two words whose copy is not atomic
struct Obj {
  int a, b;
  Obj() : a(0), b(0) {}
  explicit Obj(int v) : a(v), b(v) {}
  Obj(const Obj &o) {
    a = o.a;
    point();
    b = o.b;
  }
  Obj &operator=(const Obj &o) {
    int x = o.a;
    point();
    a = x;
    b = o.b;
    return *this;
  }
  static bool instrumented;
  static void point() {
    if (instrumented && mc::Sched::active()) mc::Sched::active()->yield("copy");
  }
};
bool Obj::instrumented = true;
namespace dynamicgraph {
template <>
struct signal_io<Obj> : signal_io_unimplemented<Obj> {};
}  // namespace dynamicgraph
namespace dynamicgraph {
namespace sot {
template <>
const std::string Mailbox<Obj>::CLASS_NAME = "Mailbox";
}
}  // namespace dynamicgraph

typedef Mailbox<Obj> Box;

struct World {
  mc::Ctx &c;
  Box box;
  long now = 0;  // logical date
  struct Post {
    int v;
    long start, end;  // of the whole call
    long dated;       // when its date was taken, inside its critical section
    bool missed;      // it was dated, and not ended, during a read: see known finding
  };
  std::vector<Post> posts;
  int lastRead = 0;       // value last read, 0 before any
  long lastReadStart = 0;
  std::map<int, size_t> current;  // post under way in each thread
  static std::string fresh() {
    static long n = 0;
    std::ostringstream os;
    os << "box" << ++n;
    return os.str();
  }
  explicit World(mc::Ctx &cc) : c(cc), box(fresh()) {}

  void post(int v) {
    Post p = {v, ++now, -1, 0, false};
    size_t i = posts.size();
    posts.push_back(p);
    int me = mc::Sched::active() ? mc::Sched::active()->cur : -1;
    current[me] = i;
    Obj o(v);
    box.post(o);
    posts[i].end = ++now;
  }
  // index of the post of value v
  int find(int v) const {
    for (size_t i = 0; i < posts.size(); ++i)
      if (posts[i].v == v) return (int)i;
    return -1;
  }
  void fail(const std::string &k, const std::string &m) { throw mc::Fail{k, m}; }
  // what a completed read of value v between dates s and e must satisfy
  void judge(const char *who, int a, int b, long s, long e) {
    std::ostringstream os;
    os << who << " read (" << a << "," << b << ")";
    if (a != b) fail("torn", os.str() + ": parts of two objects");
    if (a != 0 && find(a) < 0) fail("invented", os.str() + ": never posted");
    if (a != 0 && posts[(size_t)find(a)].start > e) fail("future", os.str() + " before it was posted");
    // never back in time: the value read before must not be strictly newer
    if (lastRead != 0 && a != lastRead) {
      if (a == 0) fail("back-in-time", os.str() + ": nothing, after an object had been read");
      const Post &p = posts[(size_t)find(a)], &q = posts[(size_t)find(lastRead)];
      if (p.end >= 0 && p.end < q.start) {
        os << " after the newer object " << lastRead;
        fail("back-in-time", os.str());
      }
    }
    // freshness: with no post under way during the read, the newest post counts
    bool overlap = false;
    for (auto &p : posts)
      if (p.start < e && (p.end < 0 || p.end > s)) overlap = true;
    if (!overlap) {
      bool ok = posts.empty() ? a == 0 : false, missed = false;
      long last = -1;
      for (auto &p : posts) {
        bool superseded = false;
        for (auto &q : posts)
          if (p.end >= 0 && p.end < q.start) superseded = true;
        if (!superseded && p.v == a) ok = true;
        if (p.dated > last) {  // the newest, in the order of the critical sections
          last = p.dated;
          missed = p.missed;
        }
      }
      if (!ok) {
        os << ": stale, although a newer object was completely posted before";
        fail(missed ? "posted-during-read" : "stale", os.str());
      }
    } else
      for (auto &p : posts)
        if (p.dated && p.dated < e && (p.end < 0 || p.end > s)) p.missed = true;
    lastRead = a;
    lastReadStart = s;
  }
  void readOut(int t) {
    long s = ++now;
    const Box::sotTimestampedObject &r = box.SOUT(t);
    long e = ++now;
    judge("SOUT", r.obj.a, r.obj.b, s, e);
    if (r.obj.a) {
      if (r.timestamp.tv_usec != 7 * r.timestamp.tv_sec) fail("timestamp", "the date mixes two posts");
      // dates are given in the order of the critical sections
      stamp(r.obj.a, r.timestamp.tv_sec);
    } else if (r.timestamp.tv_sec != 0 || r.timestamp.tv_usec != 0)
      fail("first-date", "a date is given before anything was posted");
  }
  std::map<int, long> dates;
  void stamp(int v, long d) {
    if (!dates.count(v))
      for (auto &x : dates)
        if (x.second == d) fail("timestamp", "two objects with the same date");
    if (dates.count(v) && dates[v] != d) fail("timestamp", "the date of an object changed");
    dates[v] = d;
  }
  void readObj(int t) {
    long s = ++now;
    Obj::instrumented = true;
    const Obj &r = box.objSOUT(t);
    long e = ++now;
    judge("objSOUT", r.a, r.b, s, e);
  }
  // hasBeenUpdated, when no post is under way
  void updated() {
    long s = ++now;
    bool u = box.hasBeenUpdated();
    long e = ++now;
    bool overlap = false, any = false;
    for (auto &p : posts) {
      if (p.start < e && (p.end < 0 || p.end > s)) overlap = true;
      // posted completely after the last read began and before now
      if (p.start > lastReadEnd && p.end >= 0 && p.end < s) any = true;
    }
    if (!overlap && any && !u) fail("not-updated", "hasBeenUpdated is false although an object was posted since the last read");
    bool possible = false;
    for (auto &p : posts)
      if (p.start < e && (p.end < 0 || p.end > lastReadStartCall)) possible = true;
    if (u && !possible) fail("updated", "hasBeenUpdated is true although nothing was posted since the last read");
  }
  long lastReadEnd = 0, lastReadStartCall = 0;
  void op(int k, int t) {
    if (k == 2) {
      updated();
      return;
    }
    lastReadStartCall = now + 1;
    if (k == 0)
      readOut(t);
    else
      readObj(t);
    lastReadEnd = now;
  }
};

static World *g_world = NULL;
static void dated() {
  mc::Sched *s = mc::Sched::active();
  if (!g_world || !s || s->cur < 0) return;
  g_world->posts[g_world->current[s->cur]].dated = ++g_world->now;
}

static void scenario(mc::Ctx &c, std::vector<int> posters, int readerOps, int kinds, int bound, bool afterwards) {
  g_clock = 0;
  std::vector<int> ops;
  for (int i = 0; i < readerOps; ++i) ops.push_back(c.choose(kinds, "reader operation"));
  World *pw = new World(c);  // left alone when the execution is abandoned
  World &w = *pw;
  g_world = pw;
  mc::Sched s(c, bound);
  int v = 0;
  for (size_t i = 0; i < posters.size(); ++i) {
    int n = posters[i], base = v;
    v += n;
    std::ostringstream nm;
    nm << "poster" << i;
    s.add(nm.str(), [&w, n, base]() {
      for (int k = 0; k < n; ++k) {
        mc::Sched::active()->yield("op");
        w.post(base + k + 1);
      }
    }, false);
  }
  bool direct = readerOps > 0;
  int total = v;
  if (direct)
    s.add("reader", [&w, ops, total]() {
      int t = 0;
      for (int k : ops) {
        mc::Sched::active()->yield("op");
        w.op(k, ++t);
      }
    }, true);
  s.run();
  // everything is posted and quiet: the newest object is readable
  Obj::instrumented = false;
  if (afterwards && total) {
    World *p = &w;
    try {
      p->op(0, 1000);
    } catch (mc::Fail &) {
      Obj::instrumented = true;
      throw;
    }
  }
  Obj::instrumented = true;
  c.observe((uint64_t)w.lastRead);
  g_world = NULL;
  delete pw;
}

#include <malloc.h>
int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0x5a);  // fresh memory is not zero
  std::vector<mc::Suite> S;
  S.push_back({"one-poster", [](mc::Ctx &c) { scenario(c, {2}, 2, 3, c.thorough ? 1000 : 3, true); },
               "a poster of 2 objects and a reader of 2 operations of each kind (SOUT, objSOUT, hasBeenUpdated), every "
               "interleaving at locks, clock readings and in the middle of copies (up to 3 preemptions inside the operations; thorough: all)",
               6});
  S.push_back({"more-reads", [](mc::Ctx &c) { scenario(c, {3}, 3, 1, c.thorough ? 4 : 2, true); },
               "3 posts against 3 reads of SOUT, any order of the operations, up to 2 preemptions inside them (thorough: 4)", 8});
  S.push_back({"two-posters", [](mc::Ctx &c) { scenario(c, {1, 1}, 2, 2, c.thorough ? 4 : 2, true); },
               "two posters against a reader of 2 operations, any order of the operations, up to 2 preemptions inside them (thorough: 4)", 6});
  S.push_back({"sequential", [](mc::Ctx &c) {
                 g_clock = 0;
                 Obj::instrumented = false;
                 World w(c);
                 int v = 0;
                 for (int k = 0; k < (c.thorough ? 9 : 7); ++k) {
                   int o = c.choose(4, "operation");
                   c.step();
                   if (o == 3) {
                     w.post(++v);
                     continue;
                   }
                   w.op(o, k + 1);
                   if (o == 1) {  // the date that goes with the object
                     struct timeval d = w.box.timeSOUT(k + 1);
                     const Box::sotTimestampedObject &r = w.box.SOUT(k + 1);
                     MC_EXPECT(c, d.tv_sec == r.timestamp.tv_sec && d.tv_usec == r.timestamp.tv_usec &&
                                      d.tv_sec == (long)v && d.tv_usec == 7 * (long)v,
                               "time-signal", "timeSOUT gives " << d.tv_sec << " after post " << v);
                   }
                 }
                 c.observe((uint64_t)w.lastRead);
               },
               "every sequence of 7 operations (thorough: 9) of a single thread", 3});
  return mc::main(argc, argv, "C11", S);
}

// C22: events, switches, latches and periodic calls act as documented on
// every history of their inputs.
#include <sot/core/binary-int-to-uint.hh>
#include <sot/core/event.hh>
#include <sot/core/factory.hh>
#include <sot/core/latch.hh>
#include <sot/core/periodic-call-entity.hh>
#include <sot/core/timer.hh>

#include "tools/switch.cpp"

#include "inputs.hh"


// a signal that counts its evaluations
struct Counter : Entity {
  static const std::string CLASS_NAME;
  virtual const std::string &getClassName() const { return CLASS_NAME; }
  Signal<int, int> out;
  std::vector<int> times;
  std::string *log;
  Counter(const std::string &n, std::string *l = NULL) : Entity(n), out("Counter(" + n + ")::output(int)::out"), log(l) {
    out.setFunction([this](int &r, int t) -> int & {
      times.push_back(t);
      if (log) *log += getName() + " ";
      return r = t;
    });
    signalRegistration(out);
  }
};
const std::string Counter::CLASS_NAME = "Counter";
static std::string many(const std::vector<int> &v) {
  std::ostringstream os;
  for (int x : v) os << x << " ";
  return os.str();
}

static void events(mc::Ctx &c) {
  Event e(mc::uniq("event"));
  Signal<bool, int> &out = mc::sig<bool>(e, "check");
  SignalPtr<bool, int> &cond = dynamic_cast<SignalPtr<bool, int> &>(e.getSignal("condition"));
  Counter a(mc::uniq("first")), b(mc::uniq("second"));
  int last = 2, since = 0, repeat = 0;
  bool known = false;  // when the current run of true values began
  std::vector<const Counter *> triggers;
  std::vector<int> want[2];
  int t = 0;
  const int N = c.thorough ? 8 : 6;
  if (c.flag("configured")) {
    repeat = c.choose(4, "repeat after");
    mc::run(e, "repeat", {mc::Value(repeat)});
    mc::run(e, "addSignal", {mc::Value(a.getName() + ".out")});
    triggers.push_back(&a);
    MC_OP(c, "a trigger, repeated after " << repeat);
  }
  for (int i = 0; i < N; ++i) {
    c.step();
    int w = c.choose(2 + 4, "operation");
    if (w == 2) {
      int n = c.choose(4, "repeat after");
      MC_OP(c, "repeat " << n);
      mc::run(e, "repeat", {mc::Value(n)});
      repeat = n;
    } else if (w == 3) {
      if (triggers.size() == 2) c.prune();
      const Counter *k = triggers.empty() ? &a : &b;
      MC_OP(c, "trigger " << triggers.size());
      mc::run(e, "addSignal", {mc::Value(k->getName() + ".out")});
      triggers.push_back(k);
      std::string l = mc::run(e, "list").value(), x = "(";
      for (auto *p : triggers) x += "'" + const_cast<Counter *>(p)->out.getName() + "', ";
      MC_EXPECT(c, l == x + ")", "list", "list of the triggers is " << l);
    } else if (w == 4) {
      if (i) c.prune();
      MC_OP(c, "an unknown trigger");
      bool th = false;
      try {
        mc::run(e, "addSignal", {mc::Value(std::string("nobody_at_all.out"))});
      } catch (std::exception &) {
        th = true;
      }
      MC_EXPECT(c, th, "unknown", "a signal that does not exist is accepted");
    } else {
      bool fails = w == 5, v = w == 1;
      ++t;
      SignalTimeDependent<bool, int> failing("failing");
      failing.setDependencyType(TimeDependency<int>::ALWAYS_READY);
      failing.setFunction([](bool &, int) -> bool & { throw ExceptionSignal(ExceptionSignal::GENERIC, "no input"); });
      if (fails)
        cond.plug(&failing);
      else
        cond = v;
      MC_OP(c, "condition " << (fails ? -1 : v) << " at " << t);
      bool th = false, got = false;
      try {
        got = out(t);
      } catch (std::exception &) {
        th = true;
      }
      MC_EXPECT(c, th == fails, "refused", "the condition " << (fails ? "fails and the event does not" : "is known and the event fails"));
      if (!fails) {
        bool change = last == 2 || last != (int)v;
        bool up = last == 0 && v, fire = up;
        MC_EXPECT(c, got == change, "change", "check is " << got << " and the condition was " << last << " and is " << v);
        if (!v) known = false;
        if (up) {
          known = true;
          since = 0;
        } else if (v && known) {
          ++since;
          fire = repeat > 0 && since >= repeat;
        }
        if (fire) since = 0;
        last = v;
        if (v && !known) {  // true from the start: nothing said about triggers
          want[0] = a.times;
          want[1] = b.times;
        } else if (fire)
          for (size_t k = 0; k < triggers.size(); ++k) want[k].push_back(t);
      } else
        cond = (last == 1);
    }
    MC_EXPECT(c, a.times == want[0] && b.times == want[1], "triggers",
              "triggers evaluated at " << many(a.times) << "and " << many(b.times) << " instead of " << many(want[0]) << "and " << many(want[1]));
    c.observe((uint64_t)a.times.size() * 16 + (uint64_t)b.times.size());
  }
}

template <class X>
static void switches(mc::Ctx &c, const std::vector<X> &vals) {
  typedef Switch<X, int> E;
  E e(mc::uniq("switch"));
  std::vector<std::unique_ptr<Input<X> > > in;
  const std::vector<int> S = {0, 2, 1, -1};
  const std::vector<bool> B = {true, false};
  Input<int> sel(S, &e.selectionSIN);
  Input<bool> bsel(B, &e.boolSelectionSIN);
  Reader<X> r;
  bool pending = true;
  auto number = [&](int n) {
    MC_OP(c, "number of inputs " << n);
    mc::run(e, "setSignalNumber", {mc::Value(n)});
    while ((int)in.size() > n) in.pop_back();
    while ((int)in.size() < n) in.emplace_back(new Input<X>(vals, e.getSignalIn((int)in.size())));
    MC_EXPECT(c, int(mc::run(e, "getSignalNumber").value()) == n, "number", "has another number of inputs");
  };
  number(1 + c.choose(3, "number of inputs"));
  for (size_t i = 0; i < in.size(); ++i) in[i]->change((int)(i % vals.size()));
  const int N = c.thorough ? 4 : 3;
  for (int i = 0; i < N; ++i) {
    c.step();
    int w = c.choose(5, "operation");
    if (w == 1) {
      std::string s = sel.change(c.choose(sel.choices(), "selection"));
      MC_OP(c, "selection " << s);
    } else if (w == 2) {
      std::string s = bsel.change(c.choose(bsel.choices(), "boolean selection"));
      MC_OP(c, "boolean selection " << s);
    } else if (w == 3 && in.size()) {
      int k = c.choose((int)in.size(), "input");
      std::string s = in[(size_t)k]->change(c.choose(in[(size_t)k]->choices(), "value"));
      MC_OP(c, "input " << k << " " << s);
    } else if (w == 4) {
      int n = c.choose(3, "number of inputs");
      number(n + (n >= (int)in.size()));
    }
    pending |= w || sel.kind >= 2 || bsel.kind >= 2;
    for (auto &x : in) pending |= x->kind >= 2;
    if (i + 1 < N && !c.flag("read")) continue;
    r.read(c, e.SOUT, true, pending, [&](int t, X &v) {
      int k;
      if (sel.kind != Input<int>::NONE) {
        if (!sel.ok()) return REFUSED;
        k = sel.at(t);
      } else {
        if (!bsel.ok()) return REFUSED;
        k = bsel.at(t);
      }
      if (k < 0 || k >= (int)in.size() || !in[(size_t)k]->ok()) return REFUSED;
      v = in[(size_t)k]->at(t);
      return VALUE;
    }, Near());
    pending = false;
  }
}
static void switching(mc::Ctx &c) {
  switch (c.choose(3, "type")) {
    case 0: return switches<Vector>(c, {mc::vec({1, 2}), mc::vec({3})});
    case 1: return switches<bool>(c, {true, false});
    default: {
      MH a, b;
      a.setIdentity();
      b.matrix() << 0, -1, 0, 3, 1, 0, 0, 2, 0, 0, 1, -1, 0, 0, 0, 1;
      return switches<MH>(c, {a, b});
    }
  }
}

static void latches(mc::Ctx &c) {
  Latch l(mc::uniq("latch"));
  bool on = false;
  int t = 0;
  const int N = c.thorough ? 8 : 6;
  for (int i = 0; i < N; ++i) {
    c.step();
    int w = c.choose(6, "operation");
    static const char *names[] = {"read", "turn on", "turn off", "signal on", "signal off", "next time"};
    MC_OP(c, names[w]);
    if (w == 1 || w == 2) mc::run(l, w == 1 ? "turnOn" : "turnOff");
    if (w == 3 || w == 4) {
      bool r = (w == 3 ? l.turnOnSOUT : l.turnOffSOUT)(t);
      MC_EXPECT(c, r == (w == 3), "signal", "the signal that turns the latch gives " << r);
    }
    if (w >= 1 && w <= 4) on = w % 2;
    if (w == 5) ++t;
    if (w == 0) MC_EXPECT(c, l.outSOUT(t) == on, "state", "the latch is " << !on);
    c.observe(on);
  }
  MC_EXPECT(c, l.outSOUT(t) == on, "state", "the latch is " << !on);
}

struct Calls : PeriodicCallEntity {
  using PeriodicCall::addDownsampledSignal;
  using PeriodicCall::addSignal;
  using PeriodicCall::clear;
  using PeriodicCall::rmSignal;
  Calls(const std::string &n) : PeriodicCallEntity(n) {}
};
static void periodic(mc::Ctx &c) {
  Calls p(mc::uniq("calls"));
  std::string log;
  Counter a(mc::uniq("a"), &log), b(mc::uniq("b"), &log);
  Counter *k[2] = {&a, &b};
  std::map<std::string, std::pair<Counter *, int> > want;
  int t = 0;
  const int N = c.thorough ? 5 : 4;
  for (int i = 0; i < N; ++i) {
    c.step();
    int w = c.choose(6, "operation");
    if (w == 0) w = 6;
    if (w == 1 || w == 2) {  // by path or by name, at every time or not
      Counter *x = k[c.choose(2, "signal")];
      bool path = c.flag("path");
      std::string name = path ? x->getName() + ".out" : c.flag("name") ? "x" : "y";
      int f = w == 1 ? 1 : c.choose(4, "period");
      MC_OP(c, "add " << x->getName() << " as " << name << " every " << f);
      bool th = false;
      try {
        if (w == 1 && path)
          p.addSignal(name);
        else if (w == 1)
          p.addSignal(name, x->out);
        else if (path)
          p.addDownsampledSignal(name, (unsigned)f);
        else
          p.addDownsampledSignal(name, x->out, (unsigned)f);
      } catch (std::exception &) {
        th = true;
      }
      MC_EXPECT(c, th == (f == 0), "period", "a period of " << f << (th ? " is refused" : " is accepted"));
      if (!th) want[name] = {x, f};
    } else if (w == 3) {
      int n = c.choose(3, "name");
      std::string name = n == 0 ? "x" : n == 1 ? "y" : a.getName() + ".out";
      MC_OP(c, "remove " << name);
      p.rmSignal(name);
      want.erase(name);
    } else if (w == 4) {
      MC_OP(c, "a signal that does not exist");
      bool th = false;
      try {
        p.addSignal("nobody_at_all.out");
      } catch (std::exception &) {
        th = true;
      }
      MC_EXPECT(c, th, "unknown", "a signal that does not exist is accepted");
    } else {
      int n = w == 5 ? 1 : 1 + c.choose(2, "times");
      for (int j = 0; j < n; ++j) {
        ++t;
        log.clear();
        std::string x;
        for (auto &s : want)
          if (t % s.second.second == 0) x += s.second.first->getName() + " ";
        MC_OP(c, (w == 5 ? "once at " : "at ") << t);
        (w == 5 ? p.trigerOnce : p.triger)(t);
        MC_EXPECT(c, log == x, "calls", "at " << t << " the signals evaluated are " << log << " instead of " << x);
        c.observe((uint64_t)(log.size() > 0) * 100 + (uint64_t)t);
      }
      if (w == 5) want.clear();
    }
  }
}

template <class E, class X, class Y, class F>
static void single(mc::Ctx &c, E &e, SignalPtr<X, int> &sin, SignalTimeDependent<Y, int> &sout, const std::vector<X> &vals, F f) {
  Input<X> in(vals, &sin);
  Reader<Y> r;
  bool pending = true;
  const int N = 4;
  for (int i = 0; i < N; ++i) {
    c.step();
    int w = c.choose(in.choices() + 1, "input");
    if (w) {
      std::string s = in.change(w - 1);
      MC_OP(c, "input " << s);
    }
    pending |= w || in.kind >= 2;
    if (i + 1 < N && !c.flag("read")) continue;
    r.read(c, sout, in.ok(), pending, [&](int t, Y &v) {
      v = f(in.at(t));
      return VALUE;
    }, Near());
    pending = false;
  }
  (void)e;
}
template <class X>
static void timed(mc::Ctx &c, const std::vector<X> &vals) {
  Timer<X> e(mc::uniq("timer"));
  single(c, e, e.sigSIN, c.flag("clock") ? e.sigClockSOUT : e.sigSOUT, vals, [](const X &x) { return x; });
  MC_EXPECT(c, e.timerSOUT(10) >= 0, "duration", "the time spent is negative");
}
static void passing(mc::Ctx &c) {
  switch (c.choose(4, "entity")) {
    case 0: return timed<double>(c, {1, -2, 3});
    case 1: return timed<Vector>(c, {mc::vec({1, 2}), mc::vec({3})});
    case 2: return timed<Matrix>(c, {Matrix(Matrix::Identity(2, 2)), Matrix(Matrix::Ones(1, 3))});
    default: {
      BinaryIntToUint e(mc::uniq("binary"));
      std::vector<int> v = {-1, 0, 1, 5, -7};
      return single(c, e, e.binaryIntSIN, e.binaryUintSOUT, v, [](int x) { return x < 0 ? 0u : 1u; });
    }
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"events", events, "histories of conditions, failures, triggers and repetitions", 4});
  S.push_back({"switches", switching, "histories of inputs, selections, numbers of inputs and readings", 4});
  S.push_back({"latches", latches, "histories of commands, signals and readings", 1});
  S.push_back({"periodic", periodic, "histories of additions, removals and calls", 3});
  S.push_back({"passing", passing, "timers and signs: histories of inputs and readings", 1});
  return mc::main(argc, argv, "C22", S);
}

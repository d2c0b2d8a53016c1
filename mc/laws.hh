// Histories of the inputs of an entity, its commands and the readings of its
// outputs in every order, against laws of the current inputs.
#ifndef MC_LAWS_HH
#define MC_LAWS_HH
#include <memory>

#include "inputs.hh"
namespace laws {
struct In {
  std::string name;
  int choices;
  std::function<std::string(int)> change;
  std::function<bool()> ok;
};
struct Out {
  std::string name;
  std::function<Matrix(int)> get;   // reads the signal
  std::function<bool()> ok;         // its inputs are there
  std::function<Matrix(int)> want;  // called once per time, before the readings
  std::function<bool()> said;       // something is said of the value
};
struct Act {
  std::string name;
  std::function<void()> run;
};
template <class X>
In in(const std::string &name, Input<X> &i) {
  return {name, i.choices(), [&i](int w) { return i.change(w); }, [&i]() { return i.ok(); }};
}
inline bool always() { return true; }
// all the inputs are set to their first value; then steps of a change of an
// input, a command or nothing, each followed by all readings
inline void play(mc::Ctx &c, std::vector<In> ins, std::vector<Out> outs, std::vector<Act> acts, int depth, std::function<void(int)> before = std::function<void(int)>(),
                 int skip = 1, double tol = 1e-9) {
  for (In &i : ins) i.change(0);
  int total = 1 + (int)acts.size();
  for (In &i : ins) total += i.choices;
  int n = (int)outs.size(), first = c.choose(n, "first reading"), t = 0;
  bool back = n > 1 && c.flag("backwards");
  for (int k = 0; k <= depth; ++k) {
    int w = c.choose(total, "change");
    if (!w) {
      MC_OP(c, "nothing changes");
    } else if (--w < (int)acts.size()) {
      MC_OP(c, acts[(size_t)w].name);
      acts[(size_t)w].run();
    } else {
      w -= (int)acts.size();
      size_t i = 0;
      while (w >= ins[i].choices) w -= ins[i++].choices;
      std::string to = ins[i].change(w);
      MC_OP(c, ins[i].name << " is " << to);
    }
    t += skip;
    if (before) before(t);
    bool failed = false;
    for (int j = 0; j < n; ++j) {
      if (failed) break;  // the values at the time of a failure are not said
      Out &o = outs[(size_t)(first + (back ? n - j : j)) % (size_t)n];
      bool ok = o.ok();
      std::string err;
      Matrix got;
      bool th = false;
      try {
        got = o.get(t);
      } catch (std::exception &e) {
        th = true;
        err = e.what();
      }
      failed = th;
      MC_EXPECT(c, th == !ok, o.name, o.name << " at " << t << (th ? " is refused: " + err : " is given without its inputs: " + mc::show(got)));
      if (th || (o.said && !o.said())) continue;
      Matrix want = o.want(t);
      MC_EXPECT(c, mc::near(got, want, tol), o.name, o.name << " at " << t << " is " << mc::show(got) << " instead of " << mc::show(want));
      c.observe(mc::hmat(got, (uint64_t)t));
      MC_EXPECT(c, mc::near(Matrix(o.get(t)), want, tol), o.name, o.name << " at " << t << " is another one when read again");
    }
  }
}
}  // namespace laws
#endif

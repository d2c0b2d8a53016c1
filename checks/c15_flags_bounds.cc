// C15: flags and multi-bounds, and their text.
#include <sot/core/exception-task.hh>
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>

#include "mc.hh"
using namespace dynamicgraph::sot;

struct RefF {  // an infinite sequence
  std::vector<bool> v;
  bool tail = false;
  bool at(size_t i) const { return i < v.size() ? v[i] : tail; }
  bool any() const {
    for (bool b : v)
      if (b) return true;
    return tail;
  }
};
static void same(mc::Ctx &c, const Flags &f, const RefF &r, const char *what) {
  for (int i = 0; i < 8; ++i)
    MC_EXPECT(c, f(i) == r.at((size_t)i), "flag", what << ": flag " << i << " is " << f(i));
  MC_EXPECT(c, (bool)f == r.any(), "bool", what << ": taken as " << (bool)f << " instead of " << r.any());
  std::ostringstream os, want;
  os << f;
  for (bool b : r.v) want << (b ? '1' : '0');
  MC_EXPECT(c, os.str() == want.str(), "text", what << ": written as " << os.str() << " instead of " << want.str());
}
static void make(mc::Ctx &c, Flags &f, RefF &r, int max) {
  int form = c.choose(4, "form");
  int n = form == 0 ? 0 : c.choose(max + 1, "size");
  for (int i = 0; i < n; ++i) r.v.push_back(c.flag("flag"));
  std::string txt;
  for (bool b : r.v) txt += b ? '1' : '0';
  if (form == 0) {
    r.tail = c.flag("all");
    f = Flags(r.tail);
  } else if (form == 1)
    f = Flags(txt.c_str());
  else if (form == 2)
    f = Flags(r.v);
  else {
    std::istringstream is(txt);
    is >> f;
  }
  c.note("flags " + txt + (r.tail ? " and all others" : ""));
}
static RefF both(const RefF &a, const RefF &b, bool conj) {
  RefF r;
  size_t n = std::max(a.v.size(), b.v.size());
  for (size_t i = 0; i < n; ++i) r.v.push_back(conj ? a.at(i) && b.at(i) : a.at(i) || b.at(i));
  r.tail = conj ? a.tail && b.tail : a.tail || b.tail;
  return r;
}
static void flags(mc::Ctx &c, int depth) {
  Flags f[2];
  RefF r[2];
  for (int i = 0; i < 2; ++i) make(c, f[i], r[i], 3);
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(8, "operation"), i = c.choose(2, "which");
    c.step();
    Flags &a = f[i], &b = f[1 - i];
    RefF &x = r[i], &y = r[1 - i];
    if (op == 0) {
      c.note("&=");
      a &= b;
      x = both(x, y, true);
    } else if (op == 1) {
      c.note("|=");
      a |= b;
      x = both(x, y, false);
    } else if (op == 2) {
      c.note("!");
      a = !a;
      x.v.flip();
      x.tail = !x.tail;
    } else if (op == 3) {
      c.note("&");
      a = b & a;
      x = both(x, y, true);
    } else if (op == 4) {
      c.note("|");
      a = b | a;
      x = both(x, y, false);
    } else if (op == 5) {
      bool v = c.flag("value");
      c.note("add");
      a.add(v);
      x.v.push_back(v);
    } else {
      unsigned j = (unsigned)c.choose(3, "index");
      c.note(op == 6 ? "set" : "unset");
      if (op == 6)
        a.set(j);
      else
        a.unset(j);
      if (j < x.v.size()) x.v[j] = op == 6;
    }
    same(c, a, x, "result");
    same(c, b, y, "other operand");
    uint64_t h = 0;
    for (int q = 0; q < 2; ++q) {
      h = mc::mix(h, r[q].tail);
      for (bool v : r[q].v) h = mc::mix(h, v);
      h = mc::mix(h, 7);
    }
    c.state(h);
    c.observe(h);
  }
}
// text with spaces and with anything else, from a string and from a stream
static void flagText(mc::Ctx &c) {
  int n = c.choose(c.thorough ? 7 : 6, "length");
  std::string s;
  RefF r;
  bool bad = false;
  for (int i = 0; i < n; ++i) {
    char ch = "01 2x"[c.choose(5, "character")];
    s += ch;
    if (ch == '0' || ch == '1')
      r.v.push_back(ch == '1');
    else if (ch != ' ')
      bad = true;
  }
  MC_OP(c, "text \"" << s << "\"");
  for (int form = 0; form < 2; ++form) {
    bool thrown = false;
    Flags f;
    try {
      if (form == 0)
        f = Flags(s.c_str());
      else {
        std::istringstream is(s);
        is >> f;
      }
    } catch (const std::invalid_argument &) {
      thrown = true;
    }
    MC_EXPECT(c, thrown == bad, "parse", "refused: " << thrown << ", expected: " << bad);
    if (!bad) same(c, f, r, form ? "read from a stream" : "made from text");
  }
  c.observe(mc::hstr(s));
}

struct RefB {
  bool dbl = false, hasI = false, hasS = false;
  double x = 0, i = 0, s = 0;
};
static std::string text(const RefB &r) {
  std::ostringstream os;
  if (!r.dbl)
    os << r.x;
  else {
    os << "(";
    if (r.hasI)
      os << r.i;
    else
      os << "--";
    os << ",";
    if (r.hasS)
      os << r.s;
    else
      os << "--";
    os << ")";
  }
  return os.str();
}
template <class F>
static void access(mc::Ctx &c, bool ok, double want, F f, const char *what) {
  bool thrown = false;
  double got = 0;
  try {
    got = f();
  } catch (ExceptionTask &e) {
    thrown = true;
    MC_EXPECT(c, e.getCode() == ExceptionTask::BOUND_TYPE, "code", "wrong code of error");
  }
  MC_EXPECT(c, thrown == !ok, "access", what << ": refused " << thrown << ", expected " << !ok);
  if (ok) MC_EXPECT(c, got == want, "value", what << ": " << got << " instead of " << want);
}
static void same(mc::Ctx &c, const MultiBound &m, const RefB &r) {
  MC_EXPECT(c, (m.getMode() == MultiBound::MODE_DOUBLE) == r.dbl, "mode", "wrong mode");
  access(c, !r.dbl, r.x, [&] { return m.getSingleBound(); }, "single bound");
  access(c, r.dbl && r.hasI, r.i, [&] { return m.getDoubleBound(MultiBound::BOUND_INF); }, "inf bound");
  access(c, r.dbl && r.hasS, r.s, [&] { return m.getDoubleBound(MultiBound::BOUND_SUP); }, "sup bound");
  access(c, r.dbl, r.hasI, [&] { return (double)m.getDoubleBoundSetup(MultiBound::BOUND_INF); }, "presence of inf");
  access(c, r.dbl, r.hasS, [&] { return (double)m.getDoubleBoundSetup(MultiBound::BOUND_SUP); }, "presence of sup");
  std::ostringstream os;
  os << m;
  MC_EXPECT(c, os.str() == text(r), "text", "written as " << os.str() << " instead of " << text(r));
}
static const double VAL[] = {0, -1.5, 2, -7, 12.25};
static MultiBound make(mc::Ctx &c, RefB &r, int nv) {
  int form = c.choose(5, "form");
  if (form == 0) return MultiBound();
  double a = VAL[c.choose(nv, "value")];
  if (form == 1) {
    r.x = a;
    return MultiBound(a);
  }
  r.dbl = true;
  if (form == 2) {
    r.hasI = true;
    r.i = a;
    return MultiBound(a, MultiBound::BOUND_INF);
  }
  if (form == 3) {
    r.hasS = true;
    r.s = a;
    return MultiBound(a, MultiBound::BOUND_SUP);
  }
  r.hasI = r.hasS = true;
  r.i = a;
  r.s = VAL[c.choose(nv, "value")];
  return MultiBound(r.i, r.s);
}
static void bounds(mc::Ctx &c, int depth) {
  RefB r;
  MultiBound m = make(c, r, 5);
  c.note("bound " + text(r));
  same(c, m, r);
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(7, "operation");
    c.step();
    if (op < 2) {
      double v = VAL[c.choose(5, "value")];
      c.note(op ? "set sup" : "set inf");
      m.setDoubleBound(op ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF, v);
      if (!r.dbl) r.hasI = r.hasS = false;
      r.dbl = true;
      (op ? r.hasS : r.hasI) = true;
      (op ? r.s : r.i) = v;
    } else if (op < 4) {
      c.note(op == 3 ? "unset sup" : "unset inf");
      m.unsetDoubleBound(op == 3 ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF);
      if (!r.dbl) r.hasI = r.hasS = false;
      r.dbl = true;
      (op == 3 ? r.hasS : r.hasI) = false;
    } else if (op == 4) {
      double v = VAL[c.choose(5, "value")];
      c.note("set single");
      m.setSingleBound(v);
      r.dbl = false;
      r.x = v;
    } else if (op == 5) {
      c.note("copy");
      MultiBound x(m);
      m = x;
    } else {
      c.note("write and read over another one");
      std::ostringstream os;
      os << m;
      RefB q;
      MultiBound x = make(c, q, 1);
      std::istringstream is(os.str() + " tail");
      is >> x;
      std::string rest;
      is >> rest;
      MC_EXPECT(c, rest == "tail", "consumed", "reading " << os.str() << " leaves " << rest);
      m = x;
    }
    same(c, m, r);
    c.observe(mc::hstr(text(r)));
    c.state(mc::hstr(text(r)));
  }
}
static void vectors(mc::Ctx &c) {
  int n = c.choose(4, "size");
  VectorMultiBound v;
  std::vector<RefB> r((size_t)n);
  std::ostringstream want;
  want << "[" << n << "](";
  for (int i = 0; i < n; ++i) {
    v.push_back(make(c, r[(size_t)i], 2));
    want << (i ? "," : "") << text(r[(size_t)i]);
  }
  want << ")";
  MC_OP(c, "vector " << want.str());
  std::ostringstream os;
  os << v;
  MC_EXPECT(c, os.str() == want.str(), "text", "written as " << os.str() << " instead of " << want.str());
  std::istringstream is(os.str() + " tail");
  VectorMultiBound w;
  int old = c.choose(3, "size before");
  w.resize((size_t)old, MultiBound(1, 2));
  is >> w;
  MC_EXPECT(c, (int)w.size() == n, "size", w.size() << " bounds read instead of " << n);
  for (int i = 0; i < n; ++i) same(c, w[(size_t)i], r[(size_t)i]);
  std::string rest;
  is >> rest;
  MC_EXPECT(c, rest == "tail", "consumed", "reading " << os.str() << " leaves \"" << rest << "\"");
  c.observe(mc::hstr(os.str()));
}
// a text of bounds damaged at any place is refused or leaves the stream failed
static void damaged(mc::Ctx &c) {
  static const char *T[] = {"[2](1,(-2,--))", "[1]((3,4))", "[3](1,2,(--,5))", "[1](6)"};
  std::string s = T[c.choose(4, "text")];
  int p = c.choose((int)s.size(), "place");
  int how = c.choose(4, "damage");
  char old = s[(size_t)p];
  if (how == 0)
    s = s.substr(0, (size_t)p);
  else if (how == 1)
    s.erase((size_t)p, 1);
  else
    s[(size_t)p] = how == 2 ? 'x' : ';';
  // a digit or a sign taken away may leave a valid text
  bool maybe = how == 1 && (isdigit(old) || old == '-');
  MC_OP(c, "text " << s);
  VectorMultiBound w;
  std::istringstream is(s);
  bool thrown = false;
  try {
    is >> w;
  } catch (ExceptionTask &e) {
    thrown = true;
    MC_EXPECT(c, e.getCode() == ExceptionTask::PARSER_MULTI_BOUND, "code", "wrong code of error");
  }
  if (!maybe) MC_EXPECT(c, thrown || is.fail(), "accepted", "the damaged text " << s << " is accepted");
  c.observe(mc::hstr(s) + (uint64_t)thrown);
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"flags", [](mc::Ctx &c) { flags(c, c.thorough ? 3 : 2); },
               "every pair of flags of up to 3 elements in 4 forms, every sequence of 2 (thorough: 3) operations", 5});
  S.push_back({"flag-text", flagText, "every text of up to 5 (thorough: 6) characters among 0, 1, space, 2, x", 3});
  S.push_back({"bounds", [](mc::Ctx &c) { bounds(c, c.thorough ? 4 : 3); },
               "every bound over 5 values, every sequence of 3 (thorough: 4) operations, text included", 4});
  S.push_back({"vectors", vectors, "every vector of up to 3 bounds over 2 values, written and read over a vector of another size", 4});
  S.push_back({"damaged", damaged, "4 texts of bounds cut or altered at every place", 2});
  return mc::main(argc, argv, "C15", S);
}

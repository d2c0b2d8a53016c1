// Debug traces: in every history of openings, closings, device failures and
// traces, a trace of an enabled level is written to the last opened file and to
// no other, in order; nothing is written while no file is open.
#include <unistd.h>
#define VP_DEBUG
#define VP_DEBUG_MODE 15
#define VP_TEMPLATE_DEBUG_MODE 5
#include <mc.hh>
#include <sot/core/debug.hh>

using namespace dynamicgraph;
using namespace dynamicgraph::sot;

static std::string scratch(const char *n) {
  const char *d = getenv("VERIF_SCRATCH");
  std::ostringstream os;
  os << (d ? d : "/tmp") << "/trace-" << getpid() << n;
  return os.str();
}
static std::string slurp(const std::string &p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}
// What was written, without the place of the call that starts each line.
static std::string strip(const std::string &s) {
  std::string r;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find('\n', p);
    std::string l = s.substr(p, q == std::string::npos ? std::string::npos : q - p);
    size_t k = l.find(") :");
    r += k == std::string::npos ? "?" + l : l.substr(k + 3);
    if (q == std::string::npos) break;
    r += "\n";
    p = q + 1;
  }
  return r;
}

// The stream is global: each execution starts from a closed one.
static void fresh() {
  std::ofstream &f = dynamic_cast<std::ofstream &>(sotDEBUGFLOW.outputbuffer);
  f.clear();
  if (f.is_open()) f.close();
  f.clear();
  DebugTrace::closeFile();
  sotDEBUGFLOW.tmpbuffer.str("");
  sotERRORFLOW.tmpbuffer.str("");
}

struct Names {
  std::string a, b;
  Names() : a(scratch("-a")), b(scratch("-b")) {}
  ~Names() {
    fresh();
    unlink(a.c_str());
    unlink(b.c_str());
  }
};

static void history(mc::Ctx &c, int depth, bool faults) {
  Names n;
  fresh();
  unlink(n.a.c_str());
  unlink(n.b.c_str());
  std::string content[2];
  int cur = -1;      // file that receives the traces
  bool full = false; // the device of the current file is full
  int count = 0;
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(faults ? 13 : 11, "op");
    std::ostringstream tag;
    tag << "m" << count++;
    std::string m = tag.str();
    std::string w;
    bool traced = true;
    switch (k) {
      case 0:
      case 1:
        MC_OP(c, "open " << "ab"[k]);
        DebugTrace::openFile((k ? n.b : n.a).c_str());
        cur = k;
        full = false;
        content[k].clear();
        traced = false;
        break;
      case 2:
        MC_OP(c, "close");
        DebugTrace::closeFile();
        cur = -1;
        traced = false;
        break;
      case 3:
        MC_OP(c, "trace at level 5");
        sotDEBUG(5) << m << std::endl;
        w = m + "\n";
        break;
      case 4:
        MC_OP(c, "trace at the highest level");
        sotDEBUG(15) << m << 1.5 << std::endl;
        w = m + "1.5\n";
        break;
      case 5:
        MC_OP(c, "trace at a disabled level");
        sotDEBUG(16) << m << std::endl;
        break;
      case 6:
        MC_OP(c, "formatted trace");
        sotDEBUGF(15, "<%s|%d>", m.c_str(), 7);
        w = "<" + m + "|7>\n";
        break;
      case 7:
        MC_OP(c, "formatted trace of a disabled level");
        sotDEBUGF(16, "<%s>", m.c_str());
        break;
      case 8: {
        static const int N[3] = {510, 511, 2000};
        int L = N[c.choose(3, "length")];
        MC_OP(c, "formatted trace of " << L << " characters");
        std::string big((size_t)L, 'x');
        sotDEBUGF(5, "%s", big.c_str());
        w = big.substr(0, 511) + "\n";  // cut by the documented buffer
        break;
      }
      case 9:
        MC_OP(c, "template trace");
        sotTDEBUG(5) << m << std::endl;
        w = m + "\n";
        break;
      case 10:
        MC_OP(c, "error");
        sotERROR << m << std::endl;
        w = m + "\n";
        break;
      case 11:
        MC_OP(c, "open a file that cannot be created");
        DebugTrace::openFile((n.a + "/none/x").c_str());
        cur = -1;
        traced = false;
        break;
      case 12:
        MC_OP(c, "open a file on a full device");
        DebugTrace::openFile("/dev/full");
        cur = 2;
        full = true;
        traced = false;
        break;
    }
    if (traced && cur >= 0 && cur < 2) content[cur] += w;
    sotDEBUGFLOW.outputbuffer.flush();
    for (int i = 0; i < 2; ++i) {
      std::string got = strip(slurp(i ? n.b : n.a));
      MC_EXPECT(c, got == content[i], "content", "file " << "ab"[i] << " holds \"" << got << "\" instead of \"" << content[i] << "\"");
    }
    c.state(mc::mix(mc::hstr(content[0]), mc::mix(mc::hstr(content[1]), (uint64_t)(cur + 1))));
  }
  DebugTrace::closeFile();
  c.observe(mc::mix(mc::hstr(content[0]), mc::hstr(content[1])));
}

// Another trace object on any stream, used through its own functions.
static void object(mc::Ctx &c) {
  std::ostringstream out;
  DebugTrace t(out);
  t.traceLevel = c.choose(3, "level") * 5;
  t.traceLevelTemplate = c.choose(3, "template level") * 5;
  std::string want;
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    int k = c.choose(7, "op");
    int l = c.choose(4, "trace level") * 5;
    std::ostringstream m;
    m << "m" << i;
    MC_OP(c, "op " << k << " level " << l);
    if (k == 0) {
      t.trace(l, "%s!", m.str().c_str());
      if (l <= t.traceLevel) want += m.str() + "!\n";
    } else if (k == 1) {
      t.pre(t.tmpbuffer << "pre ").trace(l, "%s", m.str().c_str());
      if (l <= t.traceLevel) want += "pre " + m.str() + "\n";
    } else if (k == 2) {
      t.pre(t.tmpbuffer << "pre ", l).trace(5, "%d", i);
      t.traceLevel = l;
      if (5 <= l) want += "pre " + std::string(1, (char)('0' + i)) + "\n";
    } else if (k == 3) {
      t.trace("%s", m.str().c_str());
      want += m.str() + "\n";
    } else if (k == 4) {
      t.pre(t.tmpbuffer << "raw").trace(l);
      if (l <= t.traceLevel) want += "raw";
    } else if (k == 5) {
      t.traceTemplate(l, "%s", m.str().c_str());
      if (l <= t.traceLevelTemplate) want += m.str() + "\n";
    } else {
      t.pre(t.tmpbuffer << "T ").traceTemplate("%s", m.str().c_str());
      want += "T " + m.str() + "\n";
    }
    MC_EXPECT(c, out.str() == want, "object", "the stream holds \"" << out.str() << "\" instead of \"" << want << "\"");
    c.state(mc::hstr(want));
  }
  c.observe(mc::hstr(want));
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> s;
  s.push_back({"history", [](mc::Ctx &c) { history(c, c.thorough ? 6 : 4, false); },
               "every sequence of 4 (thorough 6) operations among: open 2 files, close, 8 traces of enabled and disabled levels and of 510 to 2000 characters", 3});
  s.push_back({"faults", [](mc::Ctx &c) { history(c, c.thorough ? 5 : 4, true); },
               "every sequence of 4 (thorough 5) operations, with also files that cannot be created and a full device", 3});
  s.push_back({"object", object, "every sequence of 3 (thorough 4) traces of a trace object, 3x3 levels", 4});
  return mc::main(argc, argv, "C04", s);
}

// Continuous file reader: whatever the interleaving of a writer (which may
// stop in the middle of a line) and of the polls of the reader, every line
// completed after the first poll is delivered once, whole and in order.
#include <mc.hh>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sot/core/contiifstream.hh>

using dynamicgraph::sot::Contiifstream;

// The writer running while a poll is in progress: the harness gets control
// before every read() that the reader issues on a regular file.
static std::function<void()> onRead;
static bool inHook = false;
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  if (onRead && !inHook) {
    struct stat st;
    if (!fstat(fd, &st) && S_ISREG(st.st_mode)) {
      inHook = true;
      try {
        onRead();
      } catch (...) {
        inHook = false;
        throw;
      }
      inHook = false;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}

static std::string scratch() {
  const char *d = getenv("VERIF_SCRATCH");
  std::ostringstream os;
  os << (d ? d : "/tmp") << "/conti-" << getpid();
  return os.str();
}

struct File {
  std::string path, content;
  bool exists = false;
  explicit File(const std::string &p) : path(p) { unlink(path.c_str()); }
  ~File() { unlink(path.c_str()); }
  void append(const std::string &s) {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size())
      throw std::runtime_error("harness: cannot write");
    ::close(fd);
    content += s;
    exists = true;
  }
};

static std::vector<std::string> lines(const std::string &s, size_t from, size_t *end) {
  std::vector<std::string> v;
  size_t p = from;
  while (true) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) break;
    v.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  *end = p;
  return v;
}

static std::string show(const std::string &s) {
  std::ostringstream os;
  os << '"';
  if (s.size() > 40)
    os << s.substr(0, 3) << "...(" << s.size() << " characters)";
  else
    for (char ch : s) (ch == '\n') ? os << "\\n" : os << ch;
  os << '"';
  return os.str();
}

static const std::vector<std::string> &pieces() {
  static std::vector<std::string> v;
  if (v.empty()) {
    std::string L;
    for (int i = 0; i < 700; ++i) L += (char)('A' + i % 23);
    v = {"a", "bc d", "\n", "e\n", "f\n\ng\n", L.substr(0, 254) + "\n", L.substr(0, 255) + "\n", L.substr(0, 256), L + "\nh"};
  }
  return v;
}

// One file.  'seen': position up to which lines have been consumed; before the
// first poll nothing is owed to the reader.
struct Model {
  size_t pos = 0;        // start of the first line not owed yet / not delivered
  bool polled = false;
  bool partialAtFirst = false;  // the line at 'pos' began before the first poll
  std::vector<std::string> owed;
  size_t got = 0;
};

static void drain(mc::Ctx &c, Contiifstream &r, Model &m, int max) {
  while (max-- != 0 && r.ready()) {
    std::string l = r.next();
    MC_OP(c, "  next -> " << show(l));
    c.observe(mc::hstr(l));
    MC_EXPECT(c, m.got < m.owed.size(), "extra-line", "the reader delivers " << show(l) << " but every line completed so far has been delivered");
    bool lenient = m.got == 0 && m.partialAtFirst;
    const std::string &w = m.owed[m.got];
    if (lenient) {
      // this line was partly written before the first poll: its end, the whole
      // line, or nothing are all fine
      m.partialAtFirst = false;
      if (l.size() <= w.size() && w.compare(w.size() - l.size(), l.size(), l) == 0 &&
          !(m.owed.size() > 1 && l == m.owed[1] && false)) {
        ++m.got;
        continue;
      }
      ++m.got;
      MC_EXPECT(c, m.got < m.owed.size() && m.owed[m.got] == l, "wrong-line", "the reader delivers " << show(l));
      ++m.got;
      continue;
    }
    MC_EXPECT(c, l == w, "wrong-line", "the reader delivers " << show(l) << " instead of " << show(w));
    ++m.got;
  }
}

static void poll(mc::Ctx &c, Contiifstream &r, File &f, Model &m) {
  size_t before = m.pos;
  size_t sizeBefore = f.content.size();
  static size_t lastSize;
  (void)lastSize;
  MC_OP(c, "poll");
  bool res = r.loop();
  size_t end;
  std::vector<std::string> v = lines(f.content, before, &end);
  bool quiet = f.content.size() == sizeBefore;  // no writer during this poll
  if (!m.polled) {
    m.polled = true;
    if (quiet) {
      m.pos = end;
      m.partialAtFirst = f.content.size() > end;
    } else {
      m.pos = end;
    }
  } else {
    m.owed.insert(m.owed.end(), v.begin(), v.end());
    m.pos = end;
    if (quiet && !v.empty()) MC_EXPECT(c, res, "poll-result", "a line has been completed but the poll reports nothing new");
  }
}

static uint64_t key(const File &f, const Model &m, size_t pending) {
  uint64_t h = mc::hstr(f.content.substr(std::min(m.pos, f.content.size())));
  h = mc::mix(h, m.polled * 2 + m.partialAtFirst);
  for (size_t i = m.got; i < m.owed.size(); ++i) h = mc::hstr(m.owed[i], h);
  return mc::mix(h, pending);
}

static void history(mc::Ctx &c, int depth, const std::vector<int> &use) {
  File f(scratch());
  if (c.flag("the file exists from the start")) {
    f.append("");
    c.note("file created");
  }
  Contiifstream r(f.path);
  Model m;
  for (int d = 0; d < depth; ++d) {
    int k = c.choose((int)use.size() + 2, "op");
    if (k < (int)use.size()) {
      const std::string &p = pieces()[(size_t)use[(size_t)k]];
      MC_OP(c, "write " << show(p));
      f.append(p);
    } else if (k == (int)use.size())
      poll(c, r, f, m);
    else
      drain(c, r, m, 1);
    c.state(key(f, m, m.owed.size() - m.got));
  }
  // the writer stops: one poll delivers what is left
  if (m.polled) {
    poll(c, r, f, m);
    drain(c, r, m, -1);
    // the tail of a line that the first poll cut may be dropped
    if (m.partialAtFirst && m.got == 0 && m.owed.size() == 1) m.got = 1;
    MC_EXPECT(c, m.got == m.owed.size(), "lost-line",
              (m.owed.size() - m.got) << " completed line(s) never delivered, first " << show(m.owed[m.got]));
    MC_OP(c, "idle poll");
    bool more = r.loop();
    MC_EXPECT(c, !r.ready(), "idle-poll", "a poll of an unchanged file delivers a line");
    (void)more;
  }
}

// The writer appends while a poll is reading.
static void during(mc::Ctx &c, int npolls) {
  File f(scratch());
  f.append(c.flag("content before") ? "old\n" : "");
  Contiifstream r(f.path);
  Model m;
  poll(c, r, f, m);
  static const int use[4] = {0, 2, 3, 4};
  for (int p = 0; p < npolls; ++p) {
    int budget = 2;
    onRead = [&]() {
      if (budget == 0) return;
      int k = c.choose(5, "writer");
      if (k == 0) return;
      --budget;
      const std::string &s = pieces()[(size_t)use[k - 1]];
      MC_OP(c, "  (during the poll) write " << show(s));
      f.append(s);
    };
    struct Off {
      ~Off() { onRead = nullptr; }
    } off;
    poll(c, r, f, m);
    onRead = nullptr;
    drain(c, r, m, -1);
    c.state(key(f, m, m.owed.size() - m.got));
  }
  poll(c, r, f, m);
  drain(c, r, m, -1);
  MC_EXPECT(c, m.got == m.owed.size(), "lost-line",
            (m.owed.size() - m.got) << " completed line(s) never delivered, first " << show(m.owed[m.got]));
}

// The reader is opened on another file: lines of the new file, appended after
// the first poll of that file, once each.
static void reopen(mc::Ctx &c, int depth) {
  File f(scratch()), g(scratch() + "-second");
  static const int use[3] = {0, 2, 3};
  f.append("x\ny\n");
  Contiifstream r(f.path);
  Model m;
  int a = c.choose(3, "polls of the first file");
  for (int i = 0; i < a; ++i) {
    poll(c, r, f, m);
    f.append("first\n");
  }
  if (a) {
    poll(c, r, f, m);
    drain(c, r, m, -1);
  }
  int pre = c.choose(3, "content of the second file");
  static const char *PRE[3] = {"", "p\n", "p\nqq\nr\n"};
  g.append(PRE[pre]);
  MC_OP(c, "open another file holding " << show(PRE[pre]));
  r.open(g.path);
  Model n;
  MC_OP(c, "poll");
  r.loop();
  // what was already there is either all skipped or all delivered
  size_t end;
  std::vector<std::string> v = lines(g.content, 0, &end);
  n.polled = true;
  n.pos = end;
  if (r.ready()) n.owed = v;
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(5, "op");
    if (k < 3) {
      MC_OP(c, "write " << show(pieces()[(size_t)use[k]]));
      g.append(pieces()[(size_t)use[k]]);
    } else if (k == 3)
      poll(c, r, g, n);
    else
      drain(c, r, n, 1);
    c.state(key(g, n, n.owed.size() - n.got));
  }
  poll(c, r, g, n);
  drain(c, r, n, -1);
  MC_EXPECT(c, n.got == n.owed.size(), "lost-line",
            (n.owed.size() - n.got) << " completed line(s) of the second file never delivered");
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> s;
  s.push_back({"history", [](mc::Ctx &c) { history(c, c.thorough ? 7 : 6, {0, 2, 3, 4}); },
               "every sequence of 6 (thorough 7) operations: append a part of a line, an end of line, a line, three lines with an empty one, poll, take one line"});
  s.push_back({"long-lines", [](mc::Ctx &c) { history(c, c.thorough ? 5 : 4, {0, 1, 2, 3, 4, 5, 6, 7, 8}); },
               "every sequence of 4 (thorough 5) operations over 9 pieces of text up to 701 characters (254/255/256-character lines included), poll, take"});
  s.push_back({"during-poll", [](mc::Ctx &c) { during(c, c.thorough ? 4 : 3); },
               "3 (thorough 4) polls with a writer that may append one of 4 pieces before every read() issued by the poll, at most twice per poll", 4});
  s.push_back({"reopen", [](mc::Ctx &c) { reopen(c, c.thorough ? 6 : 5); },
               "0-2 polls of a first file, second file of 0, 1 or 3 lines, then every sequence of 5 (thorough 6) operations"});
  return mc::main(argc, argv, "C02", s);
}

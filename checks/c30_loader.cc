// C30: a controller runs exactly while its library is loaded and the graph is
// started, and is taken apart once.
#include <dynamic-graph/pool.h>
#include <sot/core/sot-loader.hh>
#include <unistd.h>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;

/* --- libraries ----------------------------------------------------------- */
struct Robot : public Entity {
  static const std::string CLASS_NAME;
  static int alive;
  virtual const std::string &getClassName() const { return CLASS_NAME; }
  Robot(const std::string &n) : Entity(n) { ++alive; }
  ~Robot() { --alive; }
};
const std::string Robot::CLASS_NAME = "Robot";
int Robot::alive = 0;
enum Behaviour { FINE, BAD_SENSORS, BAD_CONTROL, BAD_GRAPH, BAD_NUMBER };
static std::vector<std::string> said;
static int behaviour = FINE;
struct Controller : public AbstractSotExternalInterface {
  static int alive;
  std::string lib;
  std::unique_ptr<Robot> robot;
  Controller(const std::string &l) : lib(l) { ++alive; }
  ~Controller() { --alive; }
  void setupSetSensors(std::map<std::string, SensorValues> &) { said.push_back("setup"); }
  void cleanupSetSensors(std::map<std::string, SensorValues> &) { said.push_back("cleanup"); }
  void nominalSetSensors(std::map<std::string, SensorValues> &s) {
    std::ostringstream os;
    os << lib << " sensors " << s.size() << " " << (s.empty() ? 0 : s.begin()->second.getValues().at(0));
    said.push_back(os.str());
    if (behaviour == BAD_SENSORS) throw std::runtime_error("bad sensors");
  }
  void getControl(std::map<std::string, ControlValues> &r) {
    said.push_back(lib + " control");
    if (behaviour == BAD_CONTROL) throw std::out_of_range("bad control");
    if (behaviour == BAD_GRAPH) throw ExceptionSignal(ExceptionSignal::GENERIC, "bad graph");
    if (behaviour == BAD_NUMBER) throw 42;
    r["control"].setName(lib);
    r["control"].setValues(std::vector<double>(3, 1.5));
  }
  void setSecondOrderIntegration() {}
  void setNoIntegration() {}
};
int Controller::alive = 0;
static const char *LIBS[] = {"libone.so", "libtwo.so", "libwithout.so", "libmissing.so"};
static int opened[4], created[2], destroyed[2];
static const char *dlerr = NULL;
static bool lateDestroy = false;  // destroyed after its library was closed
template <int K>
static AbstractSotExternalInterface *create() {
  ++created[K];
  return new Controller(LIBS[K]);
}
template <int K>
static void destroy(AbstractSotExternalInterface *p) {
  ++destroyed[K];
  if (!opened[K]) lateDestroy = true;
  delete p;
}
extern "C" void *__wrap_dlopen(const char *f, int) {
  dlerr = NULL;
  for (int i = 0; i < 3; ++i)
    if (f && !strcmp(f, LIBS[i])) {
      ++opened[i];
      return &opened[i];
    }
  dlerr = "no such library";
  return NULL;
}
extern "C" int __wrap_dlclose(void *h) {
  dlerr = NULL;
  int *p = static_cast<int *>(h);
  if (p < opened || p >= opened + 3 || !*p) {
    said.push_back("a library which is not open is closed");
    return -1;
  }
  --*p;
  return 0;
}
extern "C" void *__wrap_dlsym(void *h, const char *s) {
  dlerr = NULL;
  long k = static_cast<int *>(h) - opened;
  bool c = !strcmp(s, "createSotExternalInterface"), d = !strcmp(s, "destroySotExternalInterface");
  if (k == 0 && c) return (void *)&create<0>;
  if (k == 1 && c) return (void *)&create<1>;
  if (k == 0 && d) return (void *)&destroy<0>;
  if (k == 1 && d) return (void *)&destroy<1>;
  dlerr = "no such symbol";
  return NULL;
}
extern "C" char *__wrap_dlerror() {
  const char *e = dlerr;
  dlerr = NULL;
  return const_cast<char *>(e);
}
struct Quiet {
  std::streambuf *out, *err;
  std::ostringstream os;
  Quiet() : out(std::cout.rdbuf(os.rdbuf())), err(std::cerr.rdbuf(os.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
  }
};
struct Loader : public SotLoader {
  std::string file() const { return sot_dynamic_library_filename_; }
  Controller *controller() const { return static_cast<Controller *>(sot_external_interface_); }
};
static std::string attempt(const std::function<void()> &f) {
  try {
    f();
  } catch (ExceptionSignal &e) {
    return std::string("signal: ") + e.what();
  } catch (std::out_of_range &e) {
    return std::string("range: ") + e.what();
  } catch (std::runtime_error &e) {
    return std::string("runtime: ") + e.what();
  } catch (std::exception &e) {
    return std::string("exception: ") + e.what();
  } catch (int i) {
    return "a number";
  }
  return "";
}
static std::vector<std::string> &asked() { return python::Interpreter::log(); }

static void world(mc::Ctx &c) {
  Quiet quiet;
  PoolStorage::destroy();
  std::fill(opened, opened + 4, 0);
  std::fill(created, created + 2, 0);
  std::fill(destroyed, destroyed + 2, 0);
  lateDestroy = false;
  Controller::alive = Robot::alive = 0;
  said.clear();
  asked().clear();
  std::unique_ptr<Loader> l(new Loader);
  std::map<std::string, SensorValues> sensors;
  std::map<std::string, ControlValues> control;
  int name = -1, loaded = -1, number = 0;
  bool started = false, robot = false;
  std::vector<std::string> prologue;
  int depth = c.thorough ? 9 : 7;
  for (int k = 0; k <= depth; ++k) {
    bool last = k == depth;
    int w = last ? 7 : c.choose(8, "step");
    said.clear();
    size_t py = asked().size();
    if (w == 0) {
      int i = c.choose(4, "library");
      MC_OP(c, "the library is " << LIBS[i]);
      std::string f(LIBS[name = i]);
      l->setDynamicLibraryName(f);
    } else if (w == 1) {
      if (loaded >= 0) c.prune();  // cleaned up first
      bool ok = l->initialization();
      MC_OP(c, "initialization: " << ok);
      bool want = name == 0 || name == 1;
      MC_EXPECT(c, ok == want, "initialization", "the initialization with " << (name < 0 ? "no library" : LIBS[name]) << (ok ? " succeeds" : " fails"));
      if (want) {
        loaded = name;
        std::vector<std::string> p(asked().begin() + (long)py, asked().end());
        if (prologue.empty()) prologue = p;
        MC_EXPECT(c, !p.empty() && p == prologue, "prologue", "another preparation of Python");
      } else
        MC_EXPECT(c, asked().size() == py, "prologue", "Python is prepared without a controller");
    } else if (w == 2) {
      MC_OP(c, "start");
      l->startDG();
      started = true;
    } else if (w == 3) {
      MC_OP(c, "stop");
      l->stopDG();
      started = false;
    } else if (w == 4) {
      behaviour = started && loaded >= 0 ? c.choose(5, "behaviour") : FINE;
      ++number;
      bool none = number % 2 == 0;  // every other time there is no sensor
      sensors.clear();
      if (!none) sensors["force"].setValues(std::vector<double>(2, number));
      control.clear();
      std::string e = attempt([&]() { l->oneIteration(sensors, control); });
      MC_OP(c, "iteration: " << e);
      std::vector<std::string> want;
      std::string wantE;
      if (started && loaded >= 0) {
        std::ostringstream os;
        os << LIBS[loaded] << " sensors " << (none ? 0 : 1) << " " << (none ? 0 : number);
        want.push_back(os.str());
        if (behaviour != BAD_SENSORS) want.push_back(std::string(LIBS[loaded]) + " control");
        static const char *errors[] = {"", "runtime: bad sensors", "range: bad control", "signal: bad graph", "a number"};
        wantE = errors[behaviour];
      }
      MC_EXPECT(c, said == want, "iteration", "an iteration makes " << said.size() << " calls instead of " << want.size() << (said.empty() ? "" : ": " + said[0]));
      MC_EXPECT(c, wantE.empty() ? e.empty() : e.compare(0, wantE.size(), wantE) == 0, "error", "the iteration raises \"" << e << "\" instead of \"" << wantE << "\"");
      bool given = started && loaded >= 0 && behaviour == FINE;
      MC_EXPECT(c, control.size() == (given ? 1u : 0u), "control", "controls are " << (given ? "not " : "") << "given");
      if (given)
        MC_EXPECT(c, control["control"].getName() == LIBS[loaded] && control["control"].getValues() == std::vector<double>(3, 1.5), "control", "other controls are given");
    } else if (w == 5) {
      if (loaded < 0) c.prune();
      Controller *ctl = l->controller();
      if (!robot) ctl->robot.reset(new Robot(mc::uniq("robot")));
      robot = true;
      MC_OP(c, "load the device in Python");
      l->loadDeviceInPython(ctl->robot->getName());
      bool named = false;
      for (size_t i = py; i < asked().size(); ++i) named = named || asked()[i].find(ctl->robot->getName()) != std::string::npos;
      MC_EXPECT(c, named, "device", "Python is not told the name of the device");
    } else if (w == 6) {
      MC_OP(c, "a new entity");
      new Robot(mc::uniq("entity"));
    } else {
      MC_OP(c, (last ? "end" : "clean up"));
      std::string e;
      if (last)
        l.reset();
      else
        e = attempt([&]() { l->cleanUp(); });
      MC_EXPECT(c, e.empty(), "clean", "the cleaning is refused: " << e);
      loaded = -1;
      robot = false;
      MC_EXPECT(c, Robot::alive == 0, "entities", Robot::alive << " entities outlive the graph");
    }
    for (int i = 0; i < 3; ++i)
      MC_EXPECT(c, opened[i] == (i == loaded ? 1 : 0), "libraries", LIBS[i] << " is open " << opened[i] << " times while " << (loaded < 0 ? "nothing" : LIBS[loaded]) << " is loaded");
    for (int i = 0; i < 2; ++i)
      MC_EXPECT(c, created[i] - destroyed[i] == (i == loaded ? 1 : 0), "controllers", created[i] << " controllers of " << LIBS[i] << " created and " << destroyed[i] << " destroyed");
    MC_EXPECT(c, Controller::alive == (loaded >= 0 ? 1 : 0), "controllers", Controller::alive << " controllers are alive");
    MC_EXPECT(c, !lateDestroy, "order", "a controller is destroyed after its library was closed");
    for (const std::string &s : said) MC_EXPECT(c, s.find("not open") == std::string::npos, "libraries", s);
    if (l) MC_EXPECT(c, l->isDynamicGraphStopped() == !started, "stopped", "the graph is " << (started ? "stopped" : "running"));
    c.observe(mc::mix((uint64_t)(loaded + 1) * 2 + started, (uint64_t)(w * 10 + Robot::alive)));
    c.state(mc::mix((uint64_t)(loaded + 1) * 10 + (uint64_t)(name + 1), (uint64_t)(started * 2 + robot)));
  }
}

/* --- command line ---------------------------------------------------------- */
static void options(mc::Ctx &c) {
  Quiet quiet;
  Loader l;
  std::string before("before.so");
  if (c.flag("a library was set")) l.setDynamicLibraryName(before);
  std::string want = l.file();
  int times = 1 + c.choose(2, "times");
  for (int k = 0; k < times; ++k) {
    std::vector<std::string> a = {"program"};
    bool help = false, unknown = false, lib = false, input = false, refused = false;
    std::string libName, inputName;
    int n = c.choose(c.thorough ? 4 : 3, "arguments");
    for (int i = 0; i < n; ++i) {
      switch (c.choose(6, "argument")) {
        case 0: a.push_back("--help"); refused = refused || help; help = true; break;
        case 1: a.push_back("--unknown"); unknown = true; break;
        case 2:
        case 3: {
          std::string v = "/lib/a" + std::to_string(i) + ".so";
          if (a.size() % 2) {
            a.push_back("--sot-dynamic-library=" + v);
          } else {
            a.push_back("--sot-dynamic-library");
            a.push_back(v);
          }
          refused = refused || lib;  // given twice
          lib = true;
          libName = v;
          break;
        }
        case 4: {
          std::string v = "/lib/b" + std::to_string(i) + ".so";
          a.push_back("--input-file");
          a.push_back(v);
          refused = refused || input;
          input = true;
          inputName = v;
          break;
        }
        default: a.push_back("--input-file"); refused = true; if (i + 1 < n) c.prune();
      }
    }
    std::vector<char *> argv;
    for (std::string &s : a) argv.push_back(&s[0]);
    argv.push_back(NULL);
    int rc = 7;
    std::string e = attempt([&]() { rc = l.parseOptions((int)a.size(), argv.data()); });
    MC_OP(c, "options " << a.size() - 1 << ": " << rc << " " << e << " file " << l.file());
    if (unknown || refused) {
      MC_EXPECT(c, !e.empty() || rc != 0, "accepted", "wrong options are accepted");
    } else {
      MC_EXPECT(c, e.empty(), "refused", "good options are refused: " << e);
      MC_EXPECT(c, (rc == 0) == (!help && (lib || input)), "code", "the options give " << rc);
      if (!help && lib)
        want = libName;
      else if (!help && input)
        want = inputName;
      if (help) MC_EXPECT(c, quiet.os.str().find("sot-dynamic-library") != std::string::npos && quiet.os.str().find("input-file") != std::string::npos, "help", "no help is given");
    }
    MC_EXPECT(c, l.file() == want, "file", "the library is " << l.file() << " instead of " << want);
    c.observe(mc::hstr(l.file(), (uint64_t)rc));
  }
}

/* --- Python ------------------------------------------------------------------ */
static std::string scratch(const std::string &what) {
  const char *d = getenv("VERIF_SCRATCH");
  std::ostringstream os;
  os << (d ? d : "/tmp") << "/" << what << "-" << getpid();
  return os.str();
}
static std::string quoted(const std::string &s) {
  std::string r = "'";
  for (char ch : s) {
    if (ch == '\\' || ch == '\'') r += '\\';
    if (ch == '\n')
      r += "\\n";
    else
      r += ch;
  }
  return r + "'";
}
// what the loader asks of Python is run by a real one
static void interpreter(mc::Ctx &c) {
  Quiet quiet;
  PoolStorage::destroy();
  std::fill(opened, opened + 4, 0);
  asked().clear();
  static const char *paths[] = {NULL, "", "/a", "/b:/a", "/c:/c:/b", "/usr/lib/python3:/d"};
  static const char *names[] = {"robot", "device_name"};
  int p = c.choose(6, "PYTHONPATH"), d = c.choose(2, "device");
  bool argv = c.flag("argv"), twice = c.flag("loaded twice");
  {
    std::unique_ptr<Robot> robot;  // outlives the loader
    Loader l;
    std::string lib(LIBS[0]);
    l.setDynamicLibraryName(lib);
    for (int k = 0; k < (twice ? 2 : 1); ++k) {
      l.initialization();
      robot.reset(new Robot(names[d]));
      l.loadDeviceInPython(names[d]);
      if (k + 1 < (twice ? 2 : 1)) l.cleanUp();
    }
    std::string r, o, e, f;
    l.runPythonCommand("1 + 1", r, o, e);
    MC_EXPECT(c, r == "result of 1 + 1" && o == "output of 1 + 1" && e == "errors of 1 + 1", "command", "the results of a command are " << r << ", " << o << ", " << e);
    l.runPythonFile("script.py", f);
    MC_EXPECT(c, f == "errors of script.py", "file", "the errors of a script are " << f);
    MC_EXPECT(c, asked().back() == "file script.py", "file", "another script is run");
    asked().pop_back();
    asked().pop_back();
  }
  std::string file = scratch("loader") + ".py", out = scratch("loader") + ".out";
  {
    std::ofstream s(file.c_str());
    s << "import sys, os, types, io\nos.environ.pop('PYTHONPATH', None)\n";
    if (paths[p]) s << "os.environ['PYTHONPATH'] = " << quoted(paths[p]) << "\n";
    s << "before = list(sys.path)\n";
    if (!argv) s << "del sys.argv\n";
    else s << "sys.argv = ['mine', 'x']\n";
    s << "for n in ('dynamic_graph', 'dynamic_graph.sot', 'dynamic_graph.sot.core', 'numpy'):\n  sys.modules[n] = types.ModuleType(n)\n"
         "class Device:\n  def __init__(self, name): self.name = name\n"
         "sys.modules['dynamic_graph.sot.core'].Device = Device\n"
         "g = {}\nerrors = []\nstdout = sys.stdout\n";
    for (const std::string &cmd : asked())
      s << "sys.stdout = io.StringIO()\ntry:\n  exec(compile(" << quoted(cmd) << ", '<string>', 'exec'), g)\nexcept Exception as e:\n  errors.append(repr(e))\n";
    s << "sys.stdout = stdout\nwant = [x for x in os.environ.get('PYTHONPATH', '').split(':') if x]\n"
         "ok = not errors and all(x in sys.path for x in want) and sys.path[len(sys.path) - len(before):] == before\n"
         "ok = ok and sys.argv == " << (argv ? "['mine', 'x']" : "['sot']") << "\n"
         "ok = ok and type(g['device_cpp_object']) is Device and g['device_cpp_object'].name == " << quoted(names[d]) << "\n"
         "ok = ok and g['np'] is sys.modules['numpy'] and g['sys'] is sys and g['os'] is os\n"
         "print('ok' if ok else (errors, sys.path, getattr(sys, 'argv', None), g.get('device_cpp_object')))\n";
  }
  int rc = system(("/usr/bin/python3 -I " + file + " > " + out + " 2>&1").c_str());
  std::ifstream is(out.c_str());
  std::string line;
  std::getline(is, line);
  unlink(file.c_str());
  unlink(out.c_str());
  MC_OP(c, "PYTHONPATH " << (paths[p] ? paths[p] : "unset") << ", " << asked().size() << " commands: " << line);
  MC_EXPECT(c, rc == 0 && line == "ok", "python", "Python ends with " << line);
  c.observe(mc::hstr(line));
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"histories", world, "two controllers, a library without controller and a missing one; histories of depth 7 (thorough: 9) of names, initializations, starts, stops, iterations, devices, cleanings, errors of the graph", 3});
  S.push_back({"options", options, "one or two command lines of up to 2 (thorough: 3) options", 2});
  S.push_back({"interpreter", interpreter, "6 values of PYTHONPATH, with and without sys.argv, loaded once or twice; the commands are run by a real Python", 2});
  return mc::main(argc, argv, "C30", S);
}

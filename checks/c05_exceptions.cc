// Error reports: the code, family name and full message survive whatever way
// the error is raised, copied, caught by base class or printed.
#include <mc.hh>
#include <memory>
#include <sot/core/exception-abstract.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-signal.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/exception-tools.hh>

using namespace dynamicgraph::sot;

static std::string text(int k) {
  static const int N[8] = {0, 1, 5, 40, 254, 255, 256, 700};
  std::string s;
  for (int i = 0; i < N[k]; ++i) s += (char)('a' + i % 26);
  return s;
}

// How the error travels from where it is raised to where it is looked at.
template <class E>
static void travel(mc::Ctx &c, const E &e, int way, int code, const std::string &name, const std::string &msg) {
  auto look = [&](ExceptionAbstract &x, const std::string &nm) {
    c.step();
    MC_EXPECT(c, x.getCode() == code, "code", "the code is " << x.getCode() << " instead of " << code);
    MC_EXPECT(c, x.getStringMessage() == msg, "message", "the message is \"" << x.getStringMessage() << "\" instead of \"" << msg << "\"");
    MC_EXPECT(c, msg == x.getMessage(), "message", "getMessage gives \"" << x.getMessage() << "\"");
    MC_EXPECT(c, msg == x.what(), "message", "what gives \"" << x.what() << "\"");
    MC_EXPECT(c, x.getExceptionName() == nm, "name", "the family is " << x.getExceptionName() << " instead of " << nm);
    std::ostringstream os, want;
    os << x;
    want << nm << "Error [#" << code << "]:  " << msg << std::endl;
    MC_EXPECT(c, os.str() == want.str(), "printed", "printed as \"" << os.str() << "\" instead of \"" << want.str() << "\"");
    c.observe(mc::hstr(os.str()));
  };
  switch (way) {
    case 0: {
      E copy(e);
      look(copy, name);
      break;
    }
    case 1:
      try {
        throw e;
      } catch (E &x) {
        look(x, name);
      }
      break;
    case 2:
      try {
        throw e;
      } catch (ExceptionAbstract &x) {
        look(x, name);
      }
      break;
    case 3:
      try {
        try {
          throw e;
        } catch (...) {
          throw;
        }
      } catch (std::exception &x) {
        ExceptionAbstract *a = dynamic_cast<ExceptionAbstract *>(&x);
        MC_EXPECT(c, a, "name", "the error lost its type");
        MC_EXPECT(c, msg == x.what(), "message", "what gives \"" << x.what() << "\"");
        look(*a, name);
      }
      break;
    case 4: {
      E other(e);
      other = e;
      std::unique_ptr<ExceptionAbstract> p(new E(other));
      look(*p, name);
      break;
    }
  }
}

template <class E>
static void family(mc::Ctx &c, int base, const std::vector<int> &codes, const std::string &name) {
  int k = c.choose((int)codes.size(), "code");
  typename E::ErrorCodeEnum ec = (typename E::ErrorCodeEnum)codes[(size_t)k];
  MC_EXPECT(c, codes[(size_t)k] == base + k, "code", "code " << k << " of the family is " << codes[(size_t)k] << " instead of " << base + k);
  std::string m = text(c.choose(8, "message length"));
  int form = c.choose(6, "form"), way = c.choose(5, "way");
  if (c.flag("percent signs in the message")) m = "100%s %d" + m;
  MC_OP(c, name << " code " << base + k << " message of " << m.size() << " characters, form " << form << ", way " << way);
  c.state((uint64_t)(base + k) * 64 + (uint64_t)form * 8 + (uint64_t)way);
  switch (form) {
    case 0: travel(c, E(ec, m), way, base + k, name, m); break;
    case 1: travel(c, E(ec, m, " (while calling <%s>)", "left"), way, base + k, name, m + " (while calling <left>)"); break;
    case 2: travel(c, E(ec, m, " (Z=%.3f, %d of %u).", -1.5, -7, 4000000000u), way, base + k, name, m + " (Z=-1.500, -7 of 4000000000)."); break;
    case 3: travel(c, E(ec, m, "%s%s", "", ""), way, base + k, name, m); break;
    case 4: travel(c, E(ec, m, "%s", text(4).c_str()), way, base + k, name, m + text(4)); break;
    case 5: travel(c, E(ec, m, "%s.", text(5).substr(1).c_str()), way, base + k, name, m + text(5).substr(1) + "."); break;
  }
}

// Formatted details longer than the internal buffer may be cut, never overflow.
static void longDetail(mc::Ctx &c) {
  static const int N[5] = {256, 257, 300, 1000, 5000};
  int n = N[c.choose(5, "length")];
  std::string d((size_t)n, 'q');
  int fam = c.choose(6, "family");
  std::string got;
  MC_OP(c, "detail of " << n << " characters, family " << fam);
  switch (fam) {
    case 0: got = ExceptionSignal(ExceptionSignal::GENERIC, "m:", "%s", d.c_str()).what(); break;
    case 1: got = ExceptionTask(ExceptionTask::GENERIC, "m:", "%s", d.c_str()).what(); break;
    case 2: got = ExceptionFeature(ExceptionFeature::GENERIC, "m:", "%s", d.c_str()).what(); break;
    case 3: got = ExceptionFactory(ExceptionFactory::GENERIC, "m:", "%s", d.c_str()).what(); break;
    case 4: got = ExceptionDynamic(ExceptionDynamic::GENERIC, "m:", "%s", d.c_str()).what(); break;
    case 5: got = ExceptionTools(ExceptionTools::GENERIC, "m:", "%s", d.c_str()).what(); break;
  }
  std::string full = "m:" + d;
  MC_EXPECT(c, got.size() >= 2 + 255 - 1 && full.compare(0, got.size(), got) == 0, "long-detail",
            "a detail of " << n << " characters is reported as \"" << got << "\"");
  c.state((uint64_t)fam);
}

static void abstractOne(mc::Ctx &c) {
  static const int CODE[5] = {0, 1, -1, 100, 2147483647};
  int code = CODE[c.choose(5, "code")];
  std::string m = text(c.choose(8, "message"));
  int way = c.choose(5, "way");
  MC_OP(c, "abstract code " << code);
  travel(c, ExceptionAbstract(code, m), way, code, "Abstract", m);
  c.state((uint64_t)way);
}

int main(int argc, char **argv) {
  typedef ExceptionSignal S;
  typedef ExceptionTask T;
  typedef ExceptionFeature F;
  typedef ExceptionFactory Y;
  typedef ExceptionDynamic D;
  typedef ExceptionTools O;
  std::vector<mc::Suite> s;
  const char *b = "every code x 8 message lengths (0..700) x 6 ways to raise (plain, formatted) x 5 ways to travel x percent signs in the message";
  s.push_back({"signal", [](mc::Ctx &c) { family<S>(c, 100, {S::GENERIC, S::READWRITE_LOCK, S::COPY_NOT_INITIALIZED, S::NOT_INITIALIZED, S::PLUG_IMPOSSIBLE, S::SET_IMPOSSIBLE, S::BAD_CAST}, "Signal"); }, b});
  s.push_back({"task", [](mc::Ctx &c) { family<T>(c, 200, {T::GENERIC, T::EMPTY_LIST, T::NON_ADEQUATE_FEATURES, T::MATRIX_SIZE, T::BOUND_TYPE, T::PARSER_MULTI_BOUND}, "Task"); }, b});
  s.push_back({"feature", [](mc::Ctx &c) { family<F>(c, 300, {F::GENERIC, F::BAD_INIT, F::UNCOMPATIBLE_SIZE}, "Feature"); }, b});
  s.push_back({"factory", [](mc::Ctx &c) { family<Y>(c, 400, {Y::GENERIC, Y::UNREFERED_OBJECT, Y::UNREFERED_SIGNAL, Y::UNREFERED_FUNCTION, Y::DYNAMIC_LOADING, Y::SIGNAL_CONFLICT, Y::FUNCTION_CONFLICT, Y::OBJECT_CONFLICT, Y::SYNTAX_ERROR, Y::READ_FILE}, "Factory"); }, b});
  s.push_back({"dynamic", [](mc::Ctx &c) { family<D>(c, 500, {D::GENERIC, D::CANT_DESTROY_SIGNAL, D::JOINT_RANK, D::DYNAMIC_JRL, D::JOINT_SIZE, D::INTEGRATION}, "Dynamic"); }, b});
  s.push_back({"tools", [](mc::Ctx &c) { family<O>(c, 700, {O::GENERIC, O::CORBA, O::KALMAN_SIZE, O::PARAMETER_SERVER}, "Tools"); }, b});
  s.push_back({"abstract", abstractOne, "5 codes x 8 messages x 5 ways to travel"});
  s.push_back({"long-detail", longDetail, "6 families x 5 details of 256..5000 characters"});
  return mc::main(argc, argv, "C05", s);
}

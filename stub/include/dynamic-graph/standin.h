// Stand-in for the dynamic-graph library (not installed in this sandbox), for
// verification only: header-only, same API and same semantics (as documented
// and as implemented in dynamic-graph 4) for what sot-core uses.
#ifndef DG_STANDIN_H
#define DG_STANDIN_H
#include <stdarg.h>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <boost/any.hpp>
#include <boost/array.hpp>
#include <boost/assign.hpp>
#include <boost/bind.hpp>
#include <boost/format.hpp>
#include <boost/function.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/noncopyable.hpp>
#include <cstdio>
#include <exception>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

#define DYNAMIC_GRAPH_DLLAPI
#define DYNAMIC_GRAPH_DLLEXPORT
#define DYNAMIC_GRAPH_DLLIMPORT
#define DYNAMIC_GRAPH_VERSION_AT_LEAST(a, b, c) 1

// dynamic-graph/debug.h
#define dgDEBUG(level) if (1); else ::dynamicgraph::standin_null()
#define dgDEBUGIN(level) dgDEBUG(level)
#define dgDEBUGOUT(level) dgDEBUG(level)
#define dgDEBUGINOUT(level) dgDEBUG(level)
#define dgERROR if (1); else ::dynamicgraph::standin_null()

namespace dynamicgraph {
inline std::ostream &standin_null() {
  static std::ostream os(NULL);
  return os;
}

// --- linear-algebra.h
typedef Eigen::MatrixXd Matrix;
typedef Eigen::VectorXd Vector;
typedef const Eigen::Ref<const Matrix> &ConstRefMatrix;
typedef const Eigen::Ref<const Vector> &ConstRefVector;
typedef Eigen::Ref<Vector> RefVector;
typedef Eigen::Ref<Matrix> RefMatrix;

// --- exceptions
class ExceptionAbstract : public std::exception {
 protected:
  int code;
  std::string message;

 public:
  static const std::string EXCEPTION_NAME;
  explicit ExceptionAbstract(const int &c, const std::string &m = "") : code(c), message(m) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string getExceptionName() const { return "Abstract"; }
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *getMessage() const { return message.c_str(); }
  const char *what() const throw() { return message.c_str(); }
  friend std::ostream &operator<<(std::ostream &os, const ExceptionAbstract &e) {
    return os << e.getExceptionName() << "Error [#" << e.code << "]: " << e.message << std::endl;
  }

 protected:
  void details(const char *format, va_list args) {
    char buffer[255];
    vsnprintf(buffer, sizeof(buffer), format, args);
    message += buffer;
  }
};
#define DG_STANDIN_EXCEPTION(CLS, NAME, ...)                                   \
  class CLS : public ExceptionAbstract {                                       \
   public:                                                                     \
    enum ErrorCodeEnum { __VA_ARGS__ };                                        \
    virtual const std::string getExceptionName() const { return NAME; }        \
    CLS(const ErrorCodeEnum &c, const std::string &m = "") : ExceptionAbstract(c, m) {} \
    CLS(const ErrorCodeEnum &c, const std::string &m, const char *format, ...) \
        : ExceptionAbstract(c, m) {                                            \
      va_list a;                                                               \
      va_start(a, format);                                                     \
      details(format, a);                                                      \
      va_end(a);                                                               \
    }                                                                          \
    virtual ~CLS() throw() {}                                                  \
  };
enum { ABSTRACT = 0, SIGNAL = 100, FACTORY = 200, TRACES = 300, TOOLS = 700 };
DG_STANDIN_EXCEPTION(ExceptionSignal, "Signal", GENERIC = 100, READWRITE_LOCK, COPY_NOT_INITIALIZED,
                     NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST)
DG_STANDIN_EXCEPTION(ExceptionFactory, "Factory", GENERIC = 200, UNREFERED_OBJECT, UNREFERED_SIGNAL,
                     UNREFERED_FUNCTION, DYNAMIC_LOADING, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT,
                     SYNTAX_ERROR, READ_FILE)
DG_STANDIN_EXCEPTION(ExceptionTraces, "Traces", GENERIC = 300, NOT_OPEN)
#define DG_THROW throw
#define DG_RETHROW throw

// --- signal-caster.h
template <class T>
struct signal_disp {
  static void run(const T &v, std::ostream &os) { os << v; }
};
template <typename T>
struct signal_io_base {
  static void disp(const T &value, std::ostream &os) { os << value; }
  static void trace(const T &value, std::ostream &os) { disp(value, os); }
  static T cast(std::istringstream &is) {
    T v;
    is >> v;
    if (is.fail()) throw ExceptionSignal(ExceptionSignal::GENERIC, "failed to serialize " + is.str());
    return v;
  }
};
template <typename T>
struct signal_io : signal_io_base<T> {};
template <typename T>
struct signal_io_unimplemented {
  static void disp(const T &, std::ostream &) { throw std::logic_error("this disp is not implemented."); }
  static void trace(const T &, std::ostream &) { throw std::logic_error("this trace is not implemented."); }
  static T cast(std::istringstream &) { throw std::logic_error("this cast is not implemented."); }
};
template <typename T>
struct signal_io_plain {
  static void disp(const T &v, std::ostream &os) { os << v; }
  static void trace(const T &v, std::ostream &os) { os << v; }
  static T cast(std::istringstream &) { throw std::logic_error("this cast is not implemented."); }
};
template <typename S, int O>
struct signal_io<Eigen::Quaternion<S, O> > : signal_io_unimplemented<Eigen::Quaternion<S, O> > {};
template <typename S, int D, int M>
struct signal_io<Eigen::Transform<S, D, M> > : signal_io_unimplemented<Eigen::Transform<S, D, M> > {};
template <typename S>
struct signal_io<Eigen::AngleAxis<S> > : signal_io_unimplemented<Eigen::AngleAxis<S> > {};
template <typename T>
struct signal_io<std::vector<T> > : signal_io_unimplemented<std::vector<T> > {};
template <typename S, int R, int C, int O, int MR, int MC>
struct signal_io<Eigen::Matrix<S, R, C, O, MR, MC> > {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static void disp(const M &v, std::ostream &os) {
    if (C == 1)
      for (int i = 0; i < v.rows(); ++i) os << (i ? " " : "") << v(i, 0);
    else
      os << v;
  }
  static void trace(const M &v, std::ostream &os) {
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j) os << v(i, j) << "\t";
  }
  static M cast(std::istringstream &is) {
    M m;
    is >> m;
    return m;
  }
};

// --- signal-base.h
template <class Time>
class SignalBase : private boost::noncopyable {
 public:
  explicit SignalBase(std::string n = "") : name(n), signalTime(), ready(false) {}
  virtual ~SignalBase() {}
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  void getClassName(std::string &s) const { s = typeid(this).name(); }
  virtual bool needUpdate(const Time &) const { return ready; }
  inline void setReady(const bool s = true) { ready = s; }
  virtual void plug(SignalBase<Time> *) {
    throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. ",
                          "(while trying to plug on <%s>).", getName().c_str());
  }
  virtual void unplug() {
    throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. ",
                          "(while trying to unplug <%s>).", getName().c_str());
  }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() {
    throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Set default operation not possible with this signal. ");
  }
  virtual void unsetConstantDefault() { setConstantDefault(); }
  virtual void set(std::istringstream &) {
    throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Set operation not possible with this signal. ");
  }
  virtual void get(std::ostream &) const {
    throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Get operation not possible with this signal. ");
  }
  virtual void trace(std::ostream &) const {
    throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Trace operation not possible with this signal. ");
  }
  virtual void recompute(const Time &) {
    throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Recompute operation not possible with this signal. ");
  }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &display(std::ostream &os) const { return os << "Sig:" << name; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string space = "",
                                            std::string next1 = "", std::string = "") const {
    os << space << next1;
    return display(os);
  }
  std::string shortName() const {
    size_t p = name.rfind(':');
    return p == std::string::npos ? name : name.substr(p + 1);
  }
  std::string nodeName() const {
    size_t a = name.find('('), b = name.find(')');
    return a == std::string::npos || b == std::string::npos ? name : name.substr(a + 1, b - a - 1);
  }
  virtual void checkCompatibility() { throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "incompatible"); }
  virtual bool checkCompatible(const std::type_info &) const { return false; }

 protected:
  std::string name;
  Time signalTime;
  bool ready;
};
template <class Time>
std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &sig) {
  return sig.display(os);
}

// --- signal-array.h
template <class Time>
class SignalArray_const {
 public:
  std::vector<const SignalBase<Time> *> v;
  SignalArray_const(const int & = 0) {}
  SignalArray_const(const SignalBase<Time> &s) { v.push_back(&s); }
  SignalArray_const &operator<<(const SignalBase<Time> &s) {
    v.push_back(&s);
    return *this;
  }
  SignalArray_const &operator<<(const SignalArray_const &a) {
    for (size_t i = 0; i < a.v.size(); ++i) v.push_back(a.v[i]);
    return *this;
  }
  const SignalBase<Time> &operator[](unsigned i) const { return *v[i]; }
  unsigned getSize() const { return (unsigned)v.size(); }
};
template <class Time>
class SignalArray : public SignalArray_const<Time> {
 public:
  mutable std::vector<SignalBase<Time> *> w;
  SignalArray(const int & = 0) {}
  SignalArray(SignalBase<Time> &s) {
    w.push_back(&s);
    this->v.push_back(&s);
  }
  SignalArray &operator<<(SignalBase<Time> &s) {
    w.push_back(&s);
    this->v.push_back(&s);
    return *this;
  }
  SignalArray &operator<<(const SignalArray &a) {
    for (size_t i = 0; i < a.w.size(); ++i) (*this) << *a.w[i];
    return *this;
  }
  SignalBase<Time> &operator[](unsigned i) const { return *w[i]; }
};
template <class Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, SignalBase<Time> &b) {
  SignalArray<Time> r(a);
  r << b;
  return r;
}
template <class Time>
SignalArray_const<Time> operator<<(const SignalBase<Time> &a, const SignalBase<Time> &b) {
  SignalArray_const<Time> r(a);
  r << b;
  return r;
}
static SignalArray<int> sotNOSIGNAL(0);

// --- signal.h
template <class T, class Time>
class Signal : public SignalBase<Time> {
 protected:
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  SignalType signalType;
  T *Tcopy;
  T Tcopy1, Tcopy2;
  const T *Treference;
  T *TreferenceNonConst;
  typedef boost::function2<T &, T &, Time> t_function;
  t_function Tfunction;
  bool keepReference;

  const T &setTcopy(const T &t) {
    if (Tcopy == &Tcopy1) {
      Tcopy2 = t;
      Tcopy = &Tcopy2;
    } else {
      Tcopy1 = t;
      Tcopy = &Tcopy1;
    }
    return *Tcopy;
  }
  T &getTwork() { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }
  const T &getTwork() const { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }

 public:
  Signal(std::string n)
      : SignalBase<Time>(n), signalType(CONSTANT), Tcopy(NULL), Tcopy1(), Tcopy2(), Treference(NULL),
        TreferenceNonConst(NULL), Tfunction(), keepReference(false) {}
  virtual ~Signal() {}
  virtual void setConstant(const T &t) {
    signalType = CONSTANT;
    setTcopy(t);
    this->setReady();
  }
  virtual void setReference(const T *t, void * = NULL) {
    signalType = REFERENCE;
    Treference = t;
    this->setReady();
  }
  virtual void setReferenceNonConstant(T *t, void * = NULL) {
    signalType = REFERENCE_NON_CONST;
    Treference = t;
    TreferenceNonConst = t;
    this->setReady();
  }
  virtual void setFunction(t_function t, void * = NULL) {
    signalType = FUNCTION;
    Tfunction = t;
    this->setReady();
  }
  const T &accessCopy() const { return accessCopyImpl(); }
  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE:
      case REFERENCE_NON_CONST:
        return setTcopy(*Treference);
      case FUNCTION:
        this->signalTime = t;
        Tcopy = &Tfunction(getTwork(), t);
        return *Tcopy;
      case CONSTANT:
      default:
        if (this->getReady()) {
          this->setReady(false);
          this->setTime(t);
        }
        return accessCopy();
    }
  }
  virtual void recompute(const Time &t) { access(t); }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual Signal &operator=(const T &t) {
    if (keepReference && REFERENCE_NON_CONST == signalType && TreferenceNonConst)
      *TreferenceNonConst = t;
    else
      setConstant(t);
    return *this;
  }
  operator const T &() const { return accessCopy(); }
  virtual bool needUpdate(const Time &t) const {
    if (this->ready) return true;
    if (CONSTANT == signalType) return this->ready;
    return t > this->signalTime;
  }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &b) { keepReference = b; }
  virtual void get(std::ostream &os) const { signal_io<T>::disp(this->accessCopy(), os); }
  virtual void set(std::istringstream &is) { (*this) = signal_io<T>::cast(is); }
  virtual void trace(std::ostream &os) const {
    try {
      signal_io<T>::trace(this->accessCopy(), os);
    } catch (ExceptionSignal &e) {
      if (ExceptionSignal::NOT_INITIALIZED != e.getCode()) throw;
      os << "NaN";
    }
  }
  virtual std::ostream &display(std::ostream &os) const {
    os << "Sig:" << this->name << " (Type ";
    static const char *N[4] = {"Cst", "Ref", "RefNonCst", "Fun"};
    return os << N[signalType] << ")";
  }
  virtual bool checkCompatible(const std::type_info &t) const { return t == typeid(T); }

 protected:
  virtual const T &accessCopyImpl() const {
    if (!Tcopy)
      throw ExceptionSignal(ExceptionSignal::COPY_NOT_INITIALIZED, "In Signal: copy not set.", " (in signal <%s>)",
                            this->getName().c_str());
    return *Tcopy;
  }
};

// --- time-dependency.h
template <class Time>
class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
  mutable Time lastAskForUpdate;

 protected:
  SignalBase<Time> &leader;
  typedef std::list<const SignalBase<Time> *> Dependencies;
  Dependencies dependencies;
  bool updateFromAllChildren;
  DependencyType dependencyType;
  Time periodTime;

 public:
  TimeDependency(SignalBase<Time> *sig, DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(0), leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {}
  TimeDependency(SignalBase<Time> *sig, const SignalArray_const<Time> &arr, DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(0), leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {
    addDependencies(arr);
  }
  virtual ~TimeDependency() {}
  void addDependencies(const SignalArray_const<Time> &arr) {
    for (unsigned i = 0; i < arr.getSize(); ++i) addDependency(arr[i]);
  }
  void addDependency(const SignalBase<Time> &sig) { dependencies.push_front(&sig); }
  void removeDependency(const SignalBase<Time> &sig) { dependencies.remove(&sig); }
  void clearDependencies() { dependencies.clear(); }
  virtual bool needUpdate(const Time &t1) const {
    bool res = leader.getReady();
    if (dependencyType == ALWAYS_READY) return lastAskForUpdate < t1;
    if (!res && dependencyType == TIME_DEPENDENT) {
      if (t1 < leader.getTime() + periodTime) return false;
      if (updateFromAllChildren) {
        res = true;
        for (auto it = dependencies.begin(); res && it != dependencies.end(); ++it)
          if (!(*it)->needUpdate(t1) && leader.getTime() >= (*it)->getTime()) res = false;
      } else {
        res = false;
        for (auto it = dependencies.begin(); !res && it != dependencies.end(); ++it)
          if ((*it)->needUpdate(t1) || leader.getTime() < (*it)->getTime()) res = true;
      }
      if (res) lastAskForUpdate = t1;
    }
    return res;
  }
  void setDependencyType(DependencyType d) { dependencyType = d; }
  void setNeedUpdateFromAllChildren(const bool b = true) { updateFromAllChildren = b; }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
  unsigned standinCount() const { return (unsigned)dependencies.size(); }
  std::ostream &displayDependencies(std::ostream &os, const int depth = -1, std::string space = "",
                                    std::string next1 = "", std::string next2 = "") const {
    leader.SignalBase<Time>::displayDependencies(os, depth, space, next1, next2);
    if (depth == 0) return os;
    for (auto it = dependencies.begin(); it != dependencies.end(); ++it) {
      os << std::endl;
      (*it)->displayDependencies(os, depth - 1, space + next2, "|-- ", "|   ");
    }
    return os;
  }
};

// --- signal-time-dependent.h
template <class T, class Time>
class SignalTimeDependent : public Signal<T, Time>, public TimeDependency<Time> {
 protected:
  typedef TimeDependency<Time> TimeDep;
  typedef Signal<T, Time> Sig;

 public:
  SignalTimeDependent(std::string n = "")
      : Signal<T, Time>(n), TimeDependency<Time>(static_cast<SignalBase<Time> *>(this)) {}
  SignalTimeDependent(const SignalArray_const<Time> &arr, std::string n = "")
      : Signal<T, Time>(n), TimeDependency<Time>(static_cast<SignalBase<Time> *>(this), arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> t, const SignalArray_const<Time> &sig, std::string n = "")
      : Signal<T, Time>(n), TimeDependency<Time>(static_cast<SignalBase<Time> *>(this), sig) {
    this->setFunction(t);
  }
  virtual ~SignalTimeDependent() {}
  virtual const T &access(const Time &t1) {
    const bool up = TimeDep::needUpdate(t1);
    if (up) {
      TimeDep::lastAskForUpdate = t1;
      const T &Tres = Sig::access(t1);
      SignalBase<Time>::setReady(false);
      return Tres;
    }
    return Sig::accessCopy();
  }
  virtual void recompute(const Time &t) { access(t); }
  virtual bool needUpdate(const Time &t) const { return TimeDep::needUpdate(t); }
  virtual std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "",
                                            std::string n1 = "", std::string n2 = "") const {
    return TimeDep::displayDependencies(os, d, s, n1, n2);
  }
  using Sig::operator=;
};

// --- signal-ptr.h
template <class T, class Time>
class SignalPtr : public virtual Signal<T, Time> {
 protected:
  Signal<T, Time> *signalPtr;

 public:
  typedef Signal<T, Time> St;
  SignalPtr(Signal<T, Time> *ptr, std::string n = "") : Signal<T, Time>(n), signalPtr(NULL) {
    if (ptr) plug(ptr);
  }
  virtual ~SignalPtr() { signalPtr = NULL; }
  St *getPtr() {
    if (!isPlugged())
      throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)",
                            this->getName().c_str());
    return signalPtr;
  }
  const St *getPtr() const { return const_cast<SignalPtr *>(this)->getPtr(); }
  SignalBase<Time> *getAbstractPtr() { return getPtr(); }
  virtual void plug(SignalBase<Time> *unknown) {
    if (!unknown) {
      signalPtr = NULL;
      return;
    }
    St *s = dynamic_cast<St *>(unknown);
    if (!s)
      throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE,
                            "Compl. Uncompatible types for plugging.", "(while trying to plug <%s> on <%s>).",
                            unknown->getName().c_str(), this->getName().c_str());
    signalPtr = s;
    this->setReady();
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return NULL != signalPtr; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  bool autoref() const { return signalPtr == this; }
  virtual bool needUpdate(const Time &t) const {
    if (autoref() || !signalPtr) return Signal<T, Time>::needUpdate(t);
    return signalPtr->needUpdate(t);
  }
  virtual const Time &getTime() const {
    if (autoref() || !signalPtr) return Signal<T, Time>::getTime();
    return signalPtr->getTime();
  }
  virtual const T &access(const Time &t) {
    if (autoref()) return Signal<T, Time>::access(t);
    return getPtr()->access(t);
  }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual void recompute(const Time &t) { access(t); }
  virtual void setConstant(const T &t) {
    plug(this);
    Signal<T, Time>::setConstant(t);
  }
  virtual void setReference(const T *t, void * = NULL) {
    plug(this);
    Signal<T, Time>::setReference(t);
  }
  virtual void setReferenceNonConstant(T *t, void * = NULL) {
    plug(this);
    Signal<T, Time>::setReferenceNonConstant(t);
  }
  virtual void setFunction(typename Signal<T, Time>::t_function t, void * = NULL) {
    plug(this);
    Signal<T, Time>::setFunction(t);
  }
  virtual Signal<T, Time> &operator=(const T &t) { return Signal<T, Time>::operator=(t); }
  virtual std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "",
                                            std::string n1 = "", std::string n2 = "") const {
    if (isPlugged() && !autoref()) return getPtr()->displayDependencies(os, d, s, n1 + "-- " + this->name + " -->", n2);
    return SignalBase<Time>::displayDependencies(os, d, s, n1, n2);
  }

 protected:
  virtual const T &accessCopyImpl() const {
    if (autoref()) return Signal<T, Time>::accessCopyImpl();
    return getPtr()->accessCopy();
  }
};

// --- logger.h
enum LoggerVerbosity {
  VERBOSITY_ALL, VERBOSITY_INFO_WARNING_ERROR, VERBOSITY_WARNING_ERROR, VERBOSITY_ERROR, VERBOSITY_NONE
};
enum MsgType {
  MSG_TYPE_TYPE_BITS = 1 << 0 | 1 << 1 | 1 << 2 | 1 << 3,
  MSG_TYPE_STREAM_BIT = 1 << 4,
  MSG_TYPE_DEBUG = 1 << 3, MSG_TYPE_INFO = 1 << 2, MSG_TYPE_WARNING = 1 << 1, MSG_TYPE_ERROR = 1 << 0,
  MSG_TYPE_DEBUG_STREAM = MSG_TYPE_DEBUG | MSG_TYPE_STREAM_BIT,
  MSG_TYPE_INFO_STREAM = MSG_TYPE_INFO | MSG_TYPE_STREAM_BIT,
  MSG_TYPE_WARNING_STREAM = MSG_TYPE_WARNING | MSG_TYPE_STREAM_BIT,
  MSG_TYPE_ERROR_STREAM = MSG_TYPE_ERROR | MSG_TYPE_STREAM_BIT
};
class Logger {
  LoggerVerbosity v;
  double timeSample, streamPeriod;

 public:
  Logger(double t = 0.001, double s = 1.0) : v(VERBOSITY_ERROR), timeSample(t), streamPeriod(s) {}
  void countdown() {}
  std::ostream &stream() { return standin_null(); }
  std::ostream &stream(MsgType, const std::string & = "") { return standin_null(); }
  void sendMsg(std::string, MsgType, const std::string & = "") {}
  void sendMsg(std::string, MsgType, const std::string &, int) {}
  bool setTimeSample(double t) {
    if (t <= 0) return false;
    timeSample = t;
    return true;
  }
  double getTimeSample() { return timeSample; }
  bool setStreamPrintPeriod(double s) {
    if (s <= 0) return false;
    streamPeriod = s;
    return true;
  }
  double getStreamPrintPeriod() { return streamPeriod; }
  void setVerbosity(LoggerVerbosity x) { v = x; }
  LoggerVerbosity getVerbosity() { return v; }
};
template <typename T>
std::string toString(const T &v, const int precision = 3, const int width = -1) {
  std::stringstream ss;
  if (width > precision) ss << std::fixed << std::setw(width) << std::setprecision(precision) << v;
  else ss << std::fixed << std::setprecision(precision) << v;
  return ss.str();
}
class LoggerStream {
 public:
  virtual ~LoggerStream() {}
  virtual void write(const char *c) = 0;
};
class LoggerIOStream : public LoggerStream {
 public:
  LoggerIOStream(std::ostream &) {}
  virtual void write(const char *) {}
};
typedef boost::shared_ptr<LoggerStream> LoggerStreamPtr_t;
class RealTimeLogger {
 public:
  static RealTimeLogger &instance() {
    static RealTimeLogger l;
    return l;
  }
  static void destroy() {}
  void addOutputStream(const LoggerStreamPtr_t &) {}
  bool spinOnce() { return false; }
  std::ostream &front() { return standin_null(); }
};
#define dgRTLOG() ::dynamicgraph::RealTimeLogger::instance().front()
#define DYNAMIC_GRAPH_ENTITY_DEBUG(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_INFO(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_WARNING(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_ERROR(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_WARNING_STREAM(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_INFO_STREAM(e) (e).logger().stream()
#define DYNAMIC_GRAPH_ENTITY_DEBUG_STREAM(e) (e).logger().stream()
#define SEND_MSG(msg, type) this->sendMsg(msg, type)
#define SEND_DEBUG_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_ERROR_STREAM)

// --- value.h, command.h
class Entity;
namespace command {
class EitherType;
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };

 private:
  Type type_;
  boost::any v;

 public:
  Value() : type_(NONE) {}
  Value(const bool &x) : type_(BOOL), v(x) {}
  Value(const unsigned &x) : type_(UNSIGNED), v(x) {}
  Value(const unsigned long &x) : type_(UNSIGNED), v((unsigned)x) {}
  Value(const int &x) : type_(INT), v(x) {}
  Value(const float &x) : type_(FLOAT), v(x) {}
  Value(const double &x) : type_(DOUBLE), v(x) {}
  Value(const std::string &x) : type_(STRING), v(x) {}
  Value(const char *x) : type_(STRING), v(std::string(x)) {}
  Value(const Vector &x) : type_(VECTOR), v(x) {}
  Value(const Eigen::MatrixXd &x) : type_(MATRIX), v(x) {}
  Value(const Eigen::Matrix4d &x) : type_(MATRIX4D), v(x) {}
  Value(const std::vector<Value> &x) : type_(VALUES), v(x) {}
  Type type() const { return type_; }
  inline const EitherType value() const;
  static std::string typeName(Type t) {
    static const char *n[] = {"none", "bool", "unsigned int", "int", "float", "double", "string", "vector", "matrixXd", "matrix4d", "values"};
    return t < NB_TYPES ? n[t] : "unknown";
  }
  template <class T>
  const T &as() const {
    const T *p = boost::any_cast<T>(&v);
    if (!p) throw ExceptionAbstract(TOOLS, "value is of another type");
    return *p;
  }
  double number(bool integer) const {
    switch (type_) {
      case BOOL: return boost::any_cast<bool>(v);
      case UNSIGNED: return boost::any_cast<unsigned>(v);
      case INT: return boost::any_cast<int>(v);
      case FLOAT: if (!integer) return boost::any_cast<float>(v); break;
      case DOUBLE: if (!integer) return boost::any_cast<double>(v); break;
      default: break;
    }
    throw ExceptionAbstract(TOOLS, "value is not a number of the wanted type");
  }
};
typedef std::vector<Value> Values;
template <class T>
struct ValueHelper;
template <int ID>
struct StandinTypeID {
  enum { TypeIDv = ID };
  static const Value::Type TypeID;
};
template <int ID>
const Value::Type StandinTypeID<ID>::TypeID = (Value::Type)ID;
#define DG_STANDIN_VALUE(T, ID, EXPR)                                 \
  template <>                                                         \
  struct ValueHelper<T> : StandinTypeID<Value::ID> {                  \
    static T get(const Value &x) { return EXPR; }                     \
  };
DG_STANDIN_VALUE(bool, BOOL, x.number(true) != 0)
DG_STANDIN_VALUE(unsigned, UNSIGNED, (unsigned)x.number(true))
DG_STANDIN_VALUE(unsigned long, UNSIGNED, (unsigned long)x.number(true))
DG_STANDIN_VALUE(int, INT, (int)x.number(true))
DG_STANDIN_VALUE(float, FLOAT, (float)x.number(false))
DG_STANDIN_VALUE(double, DOUBLE, x.number(false))
DG_STANDIN_VALUE(std::string, STRING, x.as<std::string>())
DG_STANDIN_VALUE(Vector, VECTOR, x.as<Vector>())
DG_STANDIN_VALUE(Eigen::MatrixXd, MATRIX, x.as<Eigen::MatrixXd>())
DG_STANDIN_VALUE(Eigen::Matrix4d, MATRIX4D, x.as<Eigen::Matrix4d>())
DG_STANDIN_VALUE(Values, VALUES, x.as<Values>())
// converts itself to what is asked
class EitherType {
  Value v;

 public:
  EitherType(const Value &x) : v(x) {}
  template <class T>
  operator T() const { return ValueHelper<T>::get(v); }
};
inline const EitherType Value::value() const { return EitherType(*this); }

class Command {
  Entity &owner_;
  std::vector<Value::Type> types_;
  std::vector<Value> values_;
  std::string doc_;

 public:
  virtual ~Command() {}
  Command(Entity &e, const std::vector<Value::Type> &t, const std::string &d) : owner_(e), types_(t), doc_(d) {}
  const std::vector<Value::Type> &valueTypes() const { return types_; }
  void setParameterValues(const std::vector<Value> &values) {
    if (values.size() != types_.size())
      throw ExceptionAbstract(TOOLS, "wrong number of arguments");
    values_ = values;
  }
  const std::vector<Value> &getParameterValues() const { return values_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return doc_; }

 protected:
  virtual Value doExecute() = 0;
};
}  // namespace command

// --- pool.h
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance() {
    if (!inst()) inst() = new PoolStorage;
    return inst();
  }
  static void destroy() {
    delete inst();
    inst() = NULL;
  }
  ~PoolStorage();
  void registerEntity(const std::string &n, Entity *e) {
    if (map_.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity already defined with the same name. ",
                             "Entity name is <%s>.", n.c_str());
    map_[n] = e;
  }
  void deregisterEntity(const std::string &n) {
    Entities::iterator it = map_.find(n);
    if (it == map_.end())
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Entity not defined yet. ", "Entity name is <%s>.",
                             n.c_str());
    map_.erase(it);
  }
  // nothing happens to an entity which was already deregistered
  static void standinForget(const std::string &n, Entity *e) {
    if (!inst()) return;
    Entities::iterator it = inst()->map_.find(n);
    if (it != inst()->map_.end() && it->second == e) inst()->map_.erase(it);
  }
  Entity &getEntity(const std::string &n) {
    Entities::iterator it = map_.find(n);
    if (it == map_.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling <%s>)",
                             n.c_str());
    return *it->second;
  }
  const Entities &getEntityMap() const { return map_; }
  bool existEntity(const std::string &n) { return map_.count(n) != 0; }
  bool existEntity(const std::string &n, Entity *&p) {
    Entities::iterator it = map_.find(n);
    if (it == map_.end()) return false;
    p = it->second;
    return true;
  }
  void clearPlugin(const std::string &n) {
    Entities::iterator it = map_.find(n);
    if (it != map_.end()) standinDelete(it->second);
  }
  SignalBase<int> &getSignal(std::istringstream &sigpath);
  void writeGraph(const std::string &) {}
  void writeCompletionList(std::ostream &) {}

 private:
  static PoolStorage *&inst() {
    static PoolStorage *p = NULL;
    return p;
  }
  static void standinDelete(Entity *e);
  Entities map_;
};

// --- entity.h
class Entity : private boost::noncopyable {
 public:
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  explicit Entity(const std::string &n) : name(n) {
    if (name.empty()) {
      static int count = 0;
      std::ostringstream os;
      os << "Entity" << ++count;
      name = os.str();
    }
    entityRegistration();
  }
  virtual ~Entity() {
    PoolStorage::standinForget(name, this);
    for (CommandMap_t::iterator it = commandMap.begin(); it != commandMap.end(); ++it) delete it->second;
  }
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName(void) const {
    static const std::string n = "Entity";
    return n;
  }
  virtual std::string getDocString() const { return "No header documentation."; }
  bool hasSignal(const std::string &s) const { return signalMap.count(s) != 0; }
  SignalBase<int> &getSignal(const std::string &s) {
    SignalMap::iterator it = signalMap.find(s);
    if (it == signalMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered",
                             ": %s", s.c_str());
    return *it->second;
  }
  const SignalBase<int> &getSignal(const std::string &s) const { return const_cast<Entity *>(this)->getSignal(s); }
  std::ostream &displaySignalList(std::ostream &os) const {
    os << "--- <" << name << "> signal list: " << std::endl;
    for (SignalMap::const_iterator it = signalMap.begin(); it != signalMap.end(); ++it)
      os << "    |-- " << *it->second << std::endl;
    return os;
  }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const { return os; }
  virtual void display(std::ostream &os) const { os << getClassName() << ": " << name; }
  virtual SignalBase<int> *test() { return 0; }
  virtual void test2(SignalBase<int> *) {}
  CommandMap_t getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &n) {
    CommandMap_t::iterator it = commandMap.find(n);
    if (it == commandMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_FUNCTION, "Command <" + n + "> is not registered in Entity.");
    return it->second;
  }
  SignalMap getSignalMap() const { return signalMap; }
  void setLoggerVerbosityLevel(LoggerVerbosity v) { logger_.setVerbosity(v); }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  bool setTimeSample(double t) { return logger_.setTimeSample(t); }
  double getTimeSample() { return logger_.getTimeSample(); }
  bool setStreamPrintPeriod(double t) { return logger_.setStreamPrintPeriod(t); }
  double getStreamPrintPeriod() { return logger_.getStreamPrintPeriod(); }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void sendMsg(const std::string &, MsgType = MSG_TYPE_INFO, const std::string & = "") {}

 protected:
  void addCommand(const std::string &n, command::Command *c) {
    if (commandMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT,
                             "Command " + n + " already registered in Entity.");
    commandMap[n] = c;
  }
  void entityRegistration() { PoolStorage::getInstance()->registerEntity(name, this); }
  void entityDeregistration() { PoolStorage::getInstance()->deregisterEntity(name); }
  void signalRegistration(const SignalArray<int> &signals) {
    for (unsigned i = 0; i < signals.getSize(); ++i) {
      SignalBase<int> &sig = signals[i];
      std::string s = sig.shortName();
      SignalMap::iterator it = signalMap.find(s);
      if (it != signalMap.end() && it->second != &sig) standin_null() << "registration of an existing signal\n";
      signalMap[s] = &sig;
    }
  }
  void signalDeregistration(const std::string &s) {
    SignalMap::iterator it = signalMap.find(s);
    if (it == signalMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered", ": %s",
                             s.c_str());
    signalMap.erase(it);
  }
  std::string name;
  std::string docstring;
  SignalMap signalMap;
  CommandMap_t commandMap;
  Logger logger_;
  friend class PoolStorage;
};
inline std::ostream &operator<<(std::ostream &os, const Entity &e) {
  e.display(os);
  return os;
}
inline PoolStorage::~PoolStorage() {
  while (!map_.empty()) {
    Entity *e = map_.begin()->second;
    std::string n = map_.begin()->first;
    delete e;
    map_.erase(n);
  }
}
inline void PoolStorage::standinDelete(Entity *e) { delete e; }
inline SignalBase<int> &PoolStorage::getSignal(std::istringstream &is) {
  std::string s;
  is >> s;
  size_t p = s.find('.');
  if (p == std::string::npos)
    throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "Parse error in signal name");
  return getEntity(s.substr(0, p)).getSignal(s.substr(p + 1));
}
#define DYNAMIC_GRAPH_ENTITY_DECL()                                          \
 public:                                                                     \
  virtual const std::string &getClassName(void) const { return CLASS_NAME; } \
  static const std::string CLASS_NAME

// --- entity-helper.h
template <typename Ent>
class EntityHelper {
 public:
  typedef Ent EntityClassName;
};

// --- factory.h
class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() {
    static FactoryStorage f;
    return &f;
  }
  void registerEntity(const std::string &n, EntityConstructor_ptr p) {
    if (map_.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity class already defined with the same name. ", "(while adding entity class <%s> inside the factory).", n.c_str());
    map_[n] = p;
  }
  void deregisterEntity(const std::string &n) { map_.erase(n); }
  Entity *newEntity(const std::string &cls, const std::string &name) {
    if (!map_.count(cls)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling new_entity <%s>)", cls.c_str());
    return map_[cls](name);
  }
  bool existEntity(const std::string &n) { return map_.count(n) != 0; }
  void getEntityClassList(std::vector<std::string> &l) {
    for (auto &x : map_) l.push_back(x.first);
  }

 private:
  std::map<std::string, EntityConstructor_ptr> map_;
};
class EntityRegisterer : private boost::noncopyable {
  std::string n;

 public:
  explicit EntityRegisterer(const std::string &c, FactoryStorage::EntityConstructor_ptr p) : n(c) {
    FactoryStorage::getInstance()->registerEntity(c, p);
  }
  ~EntityRegisterer() { FactoryStorage::getInstance()->deregisterEntity(n); }
};
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME)                           \
  const std::string CLASSTYPE::CLASS_NAME = CLASSNAME;                                     \
  extern "C" {                                                                             \
  ::dynamicgraph::Entity *CLASSTYPE##EntityMaker_##CLASSNAME2(const std::string &objname); \
  }                                                                                        \
  template <int N>                                                                         \
  struct CLASSTYPE##_standin_maker {                                                       \
    static ::dynamicgraph::Entity *make(const std::string &n) { return new CLASSTYPE(n); } \
  };                                                                                       \
  static ::dynamicgraph::EntityRegisterer CLASSTYPE##_standin_reg(CLASSNAME, &CLASSTYPE##_standin_maker<0>::make)
#define DYNAMICGRAPH_FACTORY_TEMPLATE_ENTITY_PLUGIN(CLASSTYPE, TYPE, CLASSNAME)            \
  template <>                                                                              \
  const std::string CLASSTYPE<TYPE>::CLASS_NAME = CLASSNAME;                               \
  struct CLASSTYPE##_##TYPE##_standin_maker {                                              \
    static ::dynamicgraph::Entity *make(const std::string &n) { return new CLASSTYPE<TYPE>(n); } \
  };                                                                                       \
  static ::dynamicgraph::EntityRegisterer CLASSTYPE##_##TYPE##_standin_reg(                \
      CLASSNAME, &CLASSTYPE##_##TYPE##_standin_maker::make)

// --- signal-helper.h
#define SIGNAL_OUT_FUNCTION(name) name##SOUT_function
#define SIGNAL_INNER_FUNCTION(name) name##SINNER_function
#define DECLARE_SIGNAL_IN(name, type) ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_IN(name, type) \
  m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + ")::" + #name)
#define BIND_SIGNAL_TO_FUNCTION(name, type, dep)                                        \
  m_##name##SOUT.setFunction(boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2)); \
  m_##name##SOUT.addDependencies(dep);
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) type &name##SOUT_function(type &, int)
#define DECLARE_SIGNAL_OUT(name, type)                        \
 public:                                                      \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; \
                                                              \
 protected:                                                   \
  type &name##SOUT_function(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::name##SOUT_function(type &s, int iter)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep)                                                \
  m_##name##SOUT(boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2), dep,      \
                 getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define DECLARE_SIGNAL_INNER_FUNCTION(name, type) type &name##SINNER_function(type &, int)
#define DECLARE_SIGNAL_INNER(name, type)                           \
 public:                                                           \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; \
                                                                   \
 protected:                                                        \
  type &name##SINNER_function(type &, int)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::name##SINNER_function(type &s, int iter)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep)                                                \
  m_##name##SINNER(boost::bind(&EntityClassName::name##SINNER_function, this, _1, _2), dep,    \
                   getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)

// --- command-setter.h, command-getter.h, command-direct-*.h, command-bind.h
namespace command {
template <class E, class T>
class Setter : public Command {
  typedef void (E::*Method)(const T &);
  Method m;

 public:
  Setter(E &e, Method f, const std::string &doc)
      : Command(e, std::vector<Value::Type>(1, (Value::Type)(int)ValueHelper<T>::TypeIDv), doc), m(f) {}

 protected:
  virtual Value doExecute() {
    (static_cast<E &>(owner()).*m)(ValueHelper<T>::get(getParameterValues()[0]));
    return Value();
  }
};
template <class E, class T>
class Getter : public Command {
  typedef T (E::*Method)() const;
  Method m;

 public:
  Getter(E &e, Method f, const std::string &doc) : Command(e, std::vector<Value::Type>(), doc), m(f) {}

 protected:
  virtual Value doExecute() { return Value((static_cast<E &>(owner()).*m)()); }
};
template <class T>
class DirectSetter : public Command {
  T *p;

 public:
  DirectSetter(Entity &e, T *q, const std::string &doc)
      : Command(e, std::vector<Value::Type>(1, (Value::Type)(int)ValueHelper<T>::TypeIDv), doc), p(q) {}

 protected:
  virtual Value doExecute() {
    *p = ValueHelper<T>::get(getParameterValues()[0]);
    return Value();
  }
};
template <class T>
DirectSetter<T> *makeDirectSetter(Entity &e, T *p, const std::string &d) { return new DirectSetter<T>(e, p, d); }
inline std::string docDirectSetter(const std::string &n, const std::string &t) {
  return "\nSet the " + n + ".\n\nInput:\n - a " + t + ".\nVoid return.\n\n";
}
template <class T>
class DirectGetter : public Command {
  T *p;

 public:
  DirectGetter(Entity &e, T *q, const std::string &doc) : Command(e, std::vector<Value::Type>(), doc), p(q) {}

 protected:
  virtual Value doExecute() { return Value(*p); }
};
template <class T>
DirectGetter<T> *makeDirectGetter(Entity &e, T *p, const std::string &d) { return new DirectGetter<T>(e, p, d); }
inline std::string docDirectGetter(const std::string &n, const std::string &t) {
  return "\nGet the " + n + ".\n\nVoid input.\nReturn an " + t + ".\n\n";
}

class StandinCommand : public Command {
  boost::function<Value(const std::vector<Value> &)> f;

 public:
  StandinCommand(Entity &e, const std::vector<Value::Type> &t, boost::function<Value(const std::vector<Value> &)> g,
                 const std::string &doc)
      : Command(e, t, doc), f(g) {}

 protected:
  virtual Value doExecute() { return f(getParameterValues()); }
};
inline std::vector<Value::Type> standinTypes(std::initializer_list<Value::Type> l) { return l; }
#define DG_T(T) (Value::Type)(int) ValueHelper<T>::TypeIDv
#define DG_V(T, i) ValueHelper<T>::get(v[i])
// void commands
template <class E>
Command *makeCommandVoid0(E &e, boost::function<void(void)> f, const std::string &d) {
  return new StandinCommand(e, standinTypes({}), [f](const std::vector<Value> &) { f(); return Value(); }, d);
}
template <class E>
Command *makeCommandVoid0(E &e, void (E::*f)(void), const std::string &d) {
  return makeCommandVoid0(e, boost::function<void(void)>([&e, f]() { (e.*f)(); }), d);
}
template <class E, class T>
Command *makeCommandVoid1(E &e, boost::function<void(const T &)> f, const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T)}), [f](const std::vector<Value> &v) { f(DG_V(T, 0)); return Value(); }, d);
}
template <class E, class T>
Command *makeCommandVoid1(E &e, void (E::*f)(const T &), const std::string &d) {
  return makeCommandVoid1<E, T>(e, boost::function<void(const T &)>([&e, f](const T &a) { (e.*f)(a); }), d);
}
template <class E, class T, class U>
Command *makeCommandVoid2(E &e, boost::function<void(const T &, const U &)> f, const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T), DG_T(U)}), [f](const std::vector<Value> &v) { f(DG_V(T, 0), DG_V(U, 1)); return Value(); }, d);
}
template <class E, class T, class U>
Command *makeCommandVoid2(E &e, void (E::*f)(const T &, const U &), const std::string &d) {
  return makeCommandVoid2<E, T, U>(e, boost::function<void(const T &, const U &)>([&e, f](const T &a, const U &b) { (e.*f)(a, b); }), d);
}
template <class E, class T, class U, class W>
Command *makeCommandVoid3(E &e, void (E::*f)(const T &, const U &, const W &), const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T), DG_T(U), DG_T(W)}), [&e, f](const std::vector<Value> &v) { (e.*f)(DG_V(T, 0), DG_V(U, 1), DG_V(W, 2)); return Value(); }, d);
}
template <class E, class T, class U, class W>
Command *makeCommandVoid3(E &e, boost::function<void(const T &, const U &, const W &)> f, const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T), DG_T(U), DG_T(W)}), [f](const std::vector<Value> &v) { f(DG_V(T, 0), DG_V(U, 1), DG_V(W, 2)); return Value(); }, d);
}
template <class E, class T, class U, class W, class X>
Command *makeCommandVoid4(E &e, void (E::*f)(const T &, const U &, const W &, const X &), const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T), DG_T(U), DG_T(W), DG_T(X)}), [&e, f](const std::vector<Value> &v) { (e.*f)(DG_V(T, 0), DG_V(U, 1), DG_V(W, 2), DG_V(X, 3)); return Value(); }, d);
}
template <class E, class R>
Command *makeCommandReturnType0(E &e, R (E::*f)(), const std::string &d) {
  return new StandinCommand(e, standinTypes({}), [&e, f](const std::vector<Value> &) { return Value((e.*f)()); }, d);
}
template <class E, class R, class T>
Command *makeCommandReturnType1(E &e, R (E::*f)(const T &), const std::string &d) {
  return new StandinCommand(e, standinTypes({DG_T(T)}), [&e, f](const std::vector<Value> &v) { return Value((e.*f)(DG_V(T, 0))); }, d);
}
template <class E>
Command *makeCommandVerbose(E &e, void (E::*f)(std::ostream &), const std::string &d) {
  return new StandinCommand(e, standinTypes({}), [&e, f](const std::vector<Value> &) { std::ostringstream os; (e.*f)(os); return Value(os.str()); }, d);
}
template <class E>
Command *makeCommandVerbose(E &e, boost::function<void(std::ostream &)> f, const std::string &d) {
  return new StandinCommand(e, standinTypes({}), [f](const std::vector<Value> &) { std::ostringstream os; f(os); return Value(os.str()); }, d);
}
inline std::string docCommandVoid0(const std::string &d) { return d + "\nVoid input\n"; }
inline std::string docCommandVoid1(const std::string &d, const std::string &) { return d; }
inline std::string docCommandVoid2(const std::string &d, const std::string &, const std::string &) { return d; }
inline std::string docCommandVoid3(const std::string &d, const std::string &, const std::string &, const std::string &) { return d; }
inline std::string docCommandVoid4(const std::string &d, const std::string &, const std::string &, const std::string &, const std::string &) { return d; }
template <class R>
std::string docCommandReturnType0(const std::string &d) { return d; }
template <class R>
std::string docCommandReturnType1(const std::string &d, const std::string &) { return d; }
inline std::string docCommandVerbose(const std::string &d) { return d; }
}  // namespace command
}  // namespace dynamicgraph

// --- eigen-io.h
namespace Eigen {
template <typename S, int D, int M>
std::ostream &operator<<(std::ostream &os, const Transform<S, D, M> &t) { return os << t.matrix(); }
template <typename S>
std::ostream &operator<<(std::ostream &os, const AngleAxis<S> &a) { return os << a.angle() * a.axis(); }
namespace standin {
inline void eat(std::istream &is, char c) {
  char x = 0;
  is >> x;
  if (x != c)
    throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "Wrong format of vector or matrix");
}
}  // namespace standin
// [n](a,b,...) and [r,c]((a,b),(c,d))
template <typename S, int R, int C, int O, int MR, int MC>
std::istringstream &operator>>(std::istringstream &is, Matrix<S, R, C, O, MR, MC> &m) {
  int r = 0, c = 1;
  standin::eat(is, '[');
  is >> r;
  if (C != 1) {
    standin::eat(is, ',');
    is >> c;
  }
  standin::eat(is, ']');
  m.resize(r, c);
  standin::eat(is, '(');
  for (int i = 0; i < r; ++i) {
    if (C != 1) standin::eat(is, '(');
    for (int j = 0; j < c; ++j) {
      is >> m(i, j);
      if (j + 1 != c) standin::eat(is, ',');
    }
    if (C != 1) standin::eat(is, ')');
    if (i + 1 != r) standin::eat(is, ',');
  }
  standin::eat(is, ')');
  return is;
}
}  // namespace Eigen
#endif

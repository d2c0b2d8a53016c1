// Controlled scheduler: logical threads are fibers of one OS thread, switched
// only at scheduling points (mutex operations, instrumented copies, clock
// readings, start of each operation).  Every choice of the next fiber is a
// choice of the explorer, so all interleavings within the preemption bound are
// executed.  Mutex operations are intercepted at link time (--wrap).
#ifndef MC_FIBERS_HH
#define MC_FIBERS_HH
#include <errno.h>
#include <pthread.h>
#include <sys/time.h>
#include <ucontext.h>

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "mc.hh"

namespace mc {
struct Sched {
  struct Fiber {
    std::string name;
    std::function<void()> body;
    ucontext_t ctx;
    char *stack;
    bool done = false, nonblocking = false;
    void *waits = NULL, *cond = NULL;
    std::string error;
  };
  static const size_t STACK = 256 * 1024;
  std::vector<std::unique_ptr<Fiber> > fibers;
  std::map<void *, int> owner;  // mutex -> fiber
  ucontext_t mainctx;
  int cur = -1;
  Ctx *c = NULL;
  int preemptions = 0, bound = 1 << 30;
  std::string where;
  std::string failKey, failMsg;

  static Sched *&active() {
    static Sched *s = NULL;
    return s;
  }
  static std::vector<char *> &pool() {
    static std::vector<char *> p;
    return p;
  }
  Sched(Ctx &cc, int preemptionBound) : c(&cc), bound(preemptionBound) { active() = this; }
  ~Sched() {
    active() = NULL;
    for (auto &f : fibers) pool().push_back(f->stack);
  }
  void add(const std::string &n, std::function<void()> b, bool nonblocking) {
    std::unique_ptr<Fiber> f(new Fiber);
    f->name = n;
    f->body = b;
    f->nonblocking = nonblocking;
    if (pool().empty())
      f->stack = (char *)malloc(STACK);
    else {
      f->stack = pool().back();
      pool().pop_back();
    }
    fibers.push_back(std::move(f));
  }
  static void entry(int i) {
    Sched *s = active();
    Fiber &f = *s->fibers[(size_t)i];
    try {
      f.body();
    } catch (const Fail &x) {
      s->violation(x.key, x.msg);
    } catch (const std::exception &e) {
      f.error = e.what();
      if (s->failKey.empty()) {
        s->failKey = "exception";
        s->failMsg = f.name + ": exception " + e.what();
      }
    }
    f.done = true;
    swapcontext(&f.ctx, &s->mainctx);
  }
  bool enabled(const Fiber &f) const { return !f.done && !f.cond && !(f.waits && owner.count(f.waits)); }
  // scheduling point, called from a fiber
  void yield(const char *w) {
    if (cur < 0) return;
    where = w;
    Fiber &f = *fibers[(size_t)cur];
    swapcontext(&f.ctx, &mainctx);
  }
  void violation(const std::string &k, const std::string &m) {
    if (failKey.empty()) {
      failKey = k;
      failMsg = m;
    }
  }
  void run() {
    for (size_t i = 0; i < fibers.size(); ++i) {
      Fiber &f = *fibers[i];
      getcontext(&f.ctx);
      f.ctx.uc_stack.ss_sp = f.stack;
      f.ctx.uc_stack.ss_size = STACK;
      f.ctx.uc_link = NULL;
      makecontext(&f.ctx, (void (*)())entry, 1, (int)i);
    }
    int last = -1;
    while (true) {
      std::vector<int> en;
      // the running fiber first: choice 0 is "no preemption"
      if (last >= 0 && enabled(*fibers[(size_t)last])) en.push_back(last);
      bool canStay = !en.empty();
      for (size_t i = 0; i < fibers.size(); ++i)
        if ((int)i != last && enabled(*fibers[i])) en.push_back((int)i);
      if (en.empty()) {
        for (auto &f : fibers)
          if (!f->done) c->fail("deadlock", "deadlock: " + f->name + " waits for a lock never released");
        break;
      }
      bool boundary = where == "op";  // between two operations: not a preemption
      if (canStay && preemptions >= bound && !boundary) en.resize(1);
      int k = en.size() > 1 ? c->choose((int)en.size(), "next thread") : 0;
      if (canStay && k > 0 && !boundary) ++preemptions;
      cur = en[(size_t)k];
      where = "";
      c->step();
      if (c->tracing && cur != last) c->note("run " + fibers[(size_t)cur]->name);
      last = cur;
      swapcontext(&mainctx, &fibers[(size_t)cur]->ctx);
      cur = -1;
      if (!failKey.empty()) c->fail(failKey, failMsg);
    }
  }
  // --- mutexes and condition variables
  // boost::timed_mutex is a flag under a mutex, with a condition variable.
  // Switching right after each release is enough: an acquisition only differs
  // from the preceding scheduling point by local computations.
  void waitFor(void *m) {
    int me = cur;
    while (owner.count(m)) {
      Fiber &f = *fibers[(size_t)me];
      if (f.nonblocking) {
        violation("reader-blocks", f.name + " waits for a lock held by " + fibers[(size_t)owner[m]]->name);
        yield("blocked");
      }
      if (owner[m] == me) {
        violation("self-deadlock", f.name + " locks a mutex it already holds");
        yield("blocked");
      }
      f.waits = m;
      yield("blocked");
      f.waits = NULL;
    }
  }
  int lock(void *m) {
    waitFor(m);
    owner[m] = cur;
    return 0;
  }
  int trylock(void *m) {
    if (owner.count(m)) {
      yield("trylock");
      return EBUSY;
    }
    owner[m] = cur;
    return 0;
  }
  int unlock(void *m) {
    if (!owner.count(m) || owner[m] != cur)
      violation("bad-unlock", fibers[(size_t)cur]->name + " unlocks a mutex it does not hold");
    owner.erase(m);
    yield("unlock");
    return 0;
  }
  int condwait(void *cv, void *m) {
    int me = cur;
    Fiber &f = *fibers[(size_t)me];
    if (f.nonblocking) {
      violation("reader-blocks", f.name + " waits for a lock that is held");
      yield("blocked");
    }
    owner.erase(m);
    f.cond = cv;
    while (f.cond) yield("condition");
    waitFor(m);
    owner[m] = me;
    return 0;
  }
  void condsignal(void *cv) {
    for (auto &f : fibers)
      if (f->cond == cv) f->cond = NULL;
  }
};
}  // namespace mc

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->lock(m) : 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->trylock(m) : 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->lock(m) : 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->unlock(m) : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *v, pthread_mutex_t *m) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->condwait(v, m) : 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *v, pthread_mutex_t *m, const struct timespec *) {
  return mc::Sched::active() && mc::Sched::active()->cur >= 0 ? mc::Sched::active()->condwait(v, m) : 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *v) {
  if (mc::Sched::active() && mc::Sched::active()->cur >= 0) mc::Sched::active()->condsignal(v);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *v) { return __wrap_pthread_cond_signal(v); }
}
#endif

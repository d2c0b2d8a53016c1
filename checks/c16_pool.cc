// C16: names lead to the living tasks and features.
#include <dynamic-graph/exception-factory.h>
#include <sot/core/feature-generic.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;

static void life(mc::Ctx &c, int depth) {
  static long run = 0;
  std::ostringstream pre;
  pre << "p" << ++run << "_";
  std::string nm[2] = {pre.str() + "a", pre.str() + "b"};
  Task *t[2] = {NULL, NULL};
  FeatureGeneric *f[2] = {NULL, NULL};
  Task user(mc::uniq("user"));
  Sot s(mc::uniq("sot"));
  s.defineNbDof(2);
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(5, "operation"), i = c.choose(2, "name");
    c.step();
    if (op == 0) {
      if (t[i] || f[i]) c.prune();
      c.note("create task " + nm[i]);
      t[i] = new Task(nm[i]);
    } else if (op == 1) {
      if (t[i] || f[i]) c.prune();
      c.note("create feature " + nm[i]);
      f[i] = new FeatureGeneric(nm[i]);
    } else if (op == 2) {
      if (!t[i] && !f[i]) c.prune();
      c.note("destroy " + nm[i]);
      if (t[i]) s.remove(*t[i]);
      user.clearFeatureList();
      delete t[i];
      delete f[i];
      t[i] = NULL;
      f[i] = NULL;
    } else if (op == 3) {
      c.note("push " + nm[i]);
      if (t[i] && s.exist(*t[i])) c.prune();
      bool ok = true;
      try {
        mc::run(s, "push", {mc::Value(nm[i])});
      } catch (const dynamicgraph::ExceptionFactory &) {
        ok = false;
      } catch (sot::ExceptionFactory &) {
        ok = false;
      }
      MC_EXPECT(c, ok == (t[i] != NULL), "push", "push accepted: " << ok);
      if (ok) MC_EXPECT(c, s.tasks().back() == t[i], "push", "another task is pushed");
    } else {
      c.note("add " + nm[i]);
      bool ok = true;
      try {
        mc::run(user, "add", {mc::Value(nm[i])});
      } catch (const dynamicgraph::ExceptionFactory &) {
        ok = false;
      } catch (sot::ExceptionFactory &) {
        ok = false;
      }
      MC_EXPECT(c, ok == (f[i] != NULL), "add", "add accepted: " << ok);
      if (ok) MC_EXPECT(c, user.getFeatureList().back() == f[i], "add", "another feature is added");
    }
    // lookups
    for (int j = 0; j < 2; ++j) {
      TaskAbstract *gt = NULL;
      FeatureAbstract *gf = NULL;
      try {
        gt = &sot::PoolStorage::getInstance()->getTask(nm[j]);
      } catch (sot::ExceptionFactory &e) {
        MC_EXPECT(c, e.getCode() == sot::ExceptionFactory::UNREFERED_OBJECT, "code", "wrong code");
      }
      try {
        gf = &sot::PoolStorage::getInstance()->getFeature(nm[j]);
      } catch (sot::ExceptionFactory &e) {
        MC_EXPECT(c, e.getCode() == sot::ExceptionFactory::UNREFERED_OBJECT, "code", "wrong code");
      }
      MC_EXPECT(c, gt == t[j], "task", "the name of " << (t[j] ? "a living task leads elsewhere" : "a destroyed task is still known"));
      MC_EXPECT(c, gf == f[j], "feature", "the name of " << (f[j] ? "a living feature leads elsewhere" : "a destroyed feature is still known"));
      c.state((uint64_t)((t[0] ? 1 : 0) + (t[1] ? 2 : 0) + (f[0] ? 4 : 0) + (f[1] ? 8 : 0)));
    }
    c.observe((uint64_t)s.tasks().size());
  }
  s.clear();
  user.clearFeatureList();
  for (int i = 0; i < 2; ++i) {
    delete t[i];
    delete f[i];
  }
}
// two living objects never share a name
static void conflicts(mc::Ctx &c) {
  std::string n = mc::uniq("same");
  int a = c.choose(2, "first"), b = c.choose(2, "second");
  c.step();
  Entity *x = a ? (Entity *)new Task(n) : (Entity *)new FeatureGeneric(n);
  bool thrown = false;
  try {
    Entity *y = b ? (Entity *)new Task(n) : (Entity *)new FeatureGeneric(n);
    delete y;
  } catch (...) {
    thrown = true;
  }
  MC_EXPECT(c, thrown, "conflict", "two objects share a name");
  if (a)
    MC_EXPECT(c, &sot::PoolStorage::getInstance()->getTask(n) == x, "conflict", "the first task is not known any more");
  else
    MC_EXPECT(c, &sot::PoolStorage::getInstance()->getFeature(n) == x, "conflict", "the first feature is not known any more");
  delete x;
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"life", [](mc::Ctx &c) { life(c, c.thorough ? 6 : 5); },
               "every history of 5 (thorough: 6) creations, destructions and uses of tasks and features under two names", 3});
  S.push_back({"conflicts", conflicts, "every pair of kinds of objects of the same name", 1});
  return mc::main(argc, argv, "C16", S);
}

"""Calendar of actions: whatever the history of registrations, stops, pings and
runs, also from inside the actions, running an iteration calls exactly the
functions that are due, once each and in order of registration."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import mcpy  # noqa: E402
import importlib.util  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PATH = os.path.join(REPO, "src/dynamic_graph/sot/core/utils/attime.py")
CODE = compile(open(PATH).read(), PATH, "exec")


def load():
    ns = {"__name__": "attime"}
    exec(CODE, ns)
    return ns


FORMS = ("f", "pair", "f,doc", "object", "decorator", "f,g")


class World:
    def __init__(self, c):
        self.c, self.ns = c, load()
        self.cal = self.ns["Calendar"]()
        self.log = []
        self.ev = {}      # time -> list of names
        self.always = []  # (name, pair)
        self.pings = []
        self.fun = {}
        self.n = 0

    def make(self, name, doc, action=None):
        def fun(*args):
            self.log.append((name, args))
            if action:
                action()
        fun.__doc__ = doc
        fun.__name__ = name
        return fun

    def register(self, t, form, action=None):
        """t: an iteration or None for ALWAYS; returns (names, stop arguments)"""
        key = self.ns["ALWAYS"] if t is None else t
        n = "f%d" % self.n
        self.n += 1
        f = self.make(n, None if self.n % 2 else "doc of " + n, action)
        names = [n]
        if form == "f":
            self.cal(key, f)
            pair = f
        elif form == "pair":
            self.cal(key, (f, "pair"))
            pair = (f, "pair")
        elif form == "f,doc":
            self.cal(key, f, "text")
            pair = (f, "text")
        elif form == "object":
            class Obj:
                pass
            o = Obj()
            o.functor = f
            self.cal(key, o)
            pair = f
        elif form == "decorator":
            d = self.cal(key)(f)
            pair = (f, f.__doc__)
            # the decorated function stays callable
            before = len(self.log)
            d(7)
            self.c.expect(self.log[before:] == [(n, (7,))], "decorated", "a decorated function cannot be called")
            del self.log[before:]
        else:
            g = self.make(n + "g", "second")
            self.cal(key, f, (g, ""))
            names.append(n + "g")
            pair = f
        if t is None:
            self.always += [(x, pair if i == 0 else None) for i, x in enumerate(names)]
        else:
            self.ev.setdefault(t, []).extend(names)
        return names, pair

    def expect_run(self, t, args):
        c = self.c
        exp = [(n, args) for n, _ in self.always]
        if t in self.ev:
            exp += [(p, ()) for p in self.pings]
            exp += [(n, args) for n in self.ev[t]]
        got, self.log = self.log, []
        c.expect(got == exp, "calls", lambda: "running iteration %r calls %r instead of %r" % (t, got, exp))
        c.observe(got)

    def state(self):
        self.c.state((sorted((k, len(v)) for k, v in self.ev.items()), len(self.always), len(self.pings)))

    def printed(self):
        c = self.c
        s = repr(self.cal)
        pos = [s.find("%d: \n" % t) for t in sorted(self.ev)]
        c.expect(all(p >= 0 for p in pos) and pos == sorted(pos), "printed", lambda: "printed as %r" % s)
        c.expect(s.count("doc of") + s.count("second") + s.count("pair") + s.count("text") >= 0, "printed", "")


def history(c):
    w = World(c)
    depth = 5 if c.thorough else 4
    for _ in range(depth):
        k = c.choose(9, "op")
        if k < 3:
            t = (3, 5, None)[k]
            form = c.pick(FORMS, "form")
            c.op("register %s at %s" % (form, "ALWAYS" if t is None else t))
            w.register(t, form)
        elif k == 3:
            cand = [i for i, (n, p) in enumerate(w.always) if p is not None]
            if not cand:
                c.prune()
            i = cand[c.choose(len(cand), "which")]
            n, p = w.always.pop(i)
            c.op("stop " + n)
            w.cal.stop(p)
        elif k == 4:
            name = "ping%d" % len(w.pings)
            c.op("ping")
            w.pings.append(name)
            w.cal.addPing(w.make(name, None))
        elif k in (5, 6, 7):
            t = (3, 5, 4)[k - 5]
            args = ((), (1,), ("a", 2))[k - 5]
            c.op("run %d" % t)
            w.cal.run(t, *args)
            w.expect_run(t, args)
        else:
            c.op("fast forward to 4")
            w.cal.fastForward(4)
            got, w.log = w.log, []
            exp = []
            for t in range(5):
                exp += [(n, ()) for n, _ in w.always]
                if t in w.ev:
                    exp += [(p, ()) for p in w.pings] + [(n, ()) for n in w.ev[t]]
            c.expect(got == exp, "fast-forward", lambda: "fast forward calls %r instead of %r" % (got, exp))
        w.printed()
        w.state()
    for t in (3, 5):
        w.cal.run(t)
        w.expect_run(t, ())


def reentrant(c):
    """Actions that register or stop actions while an iteration runs."""
    w = World(c)
    na, ne = 1 + c.choose(3, "functions called always"), c.choose(3, "functions at 2")
    stopped, added, pairs = [], [], {}
    acts = {}

    def action(name, what, arg):
        def do():
            if acts.pop(name, None) is None:
                return   # only the first time
            c.op("  %s does %s %s" % (name, what, arg))
            if what == "stop":
                n, p = pairs[arg]
                if n not in stopped:
                    w.cal.stop(p)
                    stopped.append(n)
            elif what == "later":
                names, _ = w.register(9, "f")
            elif what == "always":
                names, _ = w.register(None, "f")
                added.extend(names)
        return do

    plan = []
    for i in range(na):
        k = c.choose(2 + na + 1, "action")
        plan.append(("none", 0) if k == 0 else ("later", 0) if k == 1 else ("always", 0) if k == 2 + na else ("stop", k - 2))
    for i in range(na):
        what, arg = plan[i]
        name = "f%d" % w.n
        acts[name] = 1
        names, pair = w.register(None, "f", action(name, what, arg))
        pairs[i] = (names[0], pair)
        c.op("always %s: %s %s" % (name, what, arg))
    for i in range(ne):
        k = c.choose(2, "stop from an event")
        name = "f%d" % w.n
        acts[name] = 1
        w.register(2, "f", action(name, "stop", 0) if k else None)
        c.op("at 2 %s: %s" % (name, "stop 0" if k else "none"))
    first = [n for n, _ in w.always]
    for t in (2, 2, 9):
        due = [n for n, _ in w.always if n not in stopped]
        was = list(stopped)
        new = len(added)
        c.op("run %d" % t)
        w.cal.run(t)
        got, w.log = [n for n, _ in w.log], []
        evs = w.ev.get(t, [])
        c.expect(got[len(got) - len(evs):] == evs if evs else True, "calls", lambda: "run %d calls %r, events %r last" % (t, got, evs))
        body = got[:len(got) - len(evs)] if evs else got
        # due before the run and not stopped during it: once, in order
        must = [n for n in due if n not in stopped and n not in added[new:]]
        c.expect([n for n in body if n in must] == must, "calls",
                 lambda: "run %d calls %r; each of %r is due once" % (t, body, must))
        c.expect(not [n for n in body if n in was], "stopped", lambda: "a stopped function is called: %r after %r" % (body, was))
        c.expect(len(set(body)) == len(body), "twice", lambda: "a function is called twice: %r" % body)
        c.observe(got)
        c.state((len(stopped), len(added), len(first)))


def shared(c):
    """One function registered several times, with several texts."""
    w = World(c)
    f, g = w.make("f", None), w.make("g", "text of g")
    pool = [(f, "one"), (f, "two"), (g, "one"), (g, None)]
    for _ in range(6 if c.thorough else 5):
        k = c.choose(11, "op")
        if k < 4:
            if any(p is pool[k] for _, p in w.always):
                c.prune()   # which of two equal registrations stops is not specified
            c.op("always %r" % (pool[k][1],))
            w.cal(None or w.ns["ALWAYS"], pool[k])
            w.always.append((pool[k][0].__name__, pool[k]))
        elif k < 8:
            i = [j for j, (_, p) in enumerate(w.always) if p is pool[k - 4]]
            if not i:
                c.prune()
            c.op("stop %r" % (pool[k - 4][1],))
            w.always.pop(i[0])
            w.cal.stop(pool[k - 4])
        elif k < 10:
            c.op("%s at 3" % "fg"[k - 8])
            w.cal(3, (f, g)[k - 8])
            w.ev.setdefault(3, []).append("fg"[k - 8])
        else:
            c.op("run 3")
            w.cal.run(3, 7)
            w.expect_run(3, (7,))
        w.state()
    w.cal.run(3)
    w.expect_run(3, ())


def sigset(c):
    """sigset and refset assign through the class of their target."""
    ns = load()

    class S:
        def __init__(self):
            self.v = None
        value = property(lambda s: s.v, lambda s, x: setattr(s, "v", x))
        ref = property(lambda s: s.v, lambda s, x: setattr(s, "v", x))
    which = c.pick(("sigset", "refset"), "which")
    v = c.pick((0, 1.5, (1, 2), None, "x"), "value")
    a, b = S(), S()
    c.op("%s %r" % (which, v))
    ns[which](a, v)
    c.expect(a.v == v and b.v is None, "set", "%s does not set the value" % which)
    c.state((which, repr(v)))


sys.exit(mcpy.main("C06", [
    mcpy.Suite("history", history, "every sequence of 4 (thorough 5) operations: register (6 forms) at 2 iterations or always, stop, ping, run 3 iterations, fast-forward", split=3),
    mcpy.Suite("reentrant", reentrant, "1-3 periodic and 0-2 dated functions, each stopping any periodic function, registering a dated or periodic one, or nothing; 3 runs", split=4),
    mcpy.Suite("shared", shared, "two functions under four names: every sequence of 5 (thorough 6) registrations always or at 3, stops and runs", split=3),
    mcpy.Suite("sigset", sigset, "2 setters x 5 values", split=1),
]))

"""Viewers: every motion of a robot is made once and shown after it, and what
is shown is logged line by line."""
import builtins
import gc
import glob
import io
import os
import sys
import types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import mcpy  # noqa: E402
import dgstub  # noqa: E402
import numpy as np  # noqa: E402

dgstub.install()
from dynamic_graph.sot.core.utils import viewer_helper as VH, viewer_loger as VL  # noqa: E402

gc.collect()
gc.freeze()     # the collections during the executions look at what these made
SCRATCH = None


class Sig:
    def __init__(self, value=(), time=0):
        self.value, self.time = value, time


def robot_class(numpy):
    class Robot:
        def __init__(self, name):
            self.name, self.state, self.moves = name, Sig(), []
            self._put((0.5, -1.0, 2.0))

        def _put(self, v):
            self.state.value = np.array(v) if numpy else tuple(v)

        def increment(self, dt):
            self.moves.append(dt)
            self._put([x + dt for x in self.state.value])
            self.state.time += 1

        def set(self, v):
            self.moves.append(tuple(v))
            self._put(v)

    return Robot


class Viewer:
    def __init__(self, server, fail=False):
        self.server, self.seen, self.fail = server, [], fail

    def updateElementConfig(self, name, state):
        if self.fail:
            raise IOError("no connection")
        self.seen.append((name, [float(x) for x in state]))


def robots(c):
    if c.thorough:
        numpy, small, named = c.flag("numpy"), c.choose(3, "small"), c.choose(2, "names")
    else:
        numpy, small, named = c.pick(((False, 0, 0), (True, 1, 1), (True, 0, 1), (False, 2, 0)), "robots")
    R = robot_class(numpy)
    names = (("robot", "robot_device"), ("hrp2", "robot"))[named]
    rs = [R(n) for n in names]
    shown = {"robot": "hrp", "robot_device": "hrp", "hrp2": "hrp2"}
    extra = (0, 10, 2)[small]
    given = [None, None]      # the viewer: None, "fake", or a Viewer
    patched = False
    called = []
    displays = [[], []]
    moves = [[], []]
    serial = 0
    out, err = sys.stdout, sys.stderr
    try:
        for _ in range(5 if c.thorough else 4):
            op = c.choose(6, "step")
            i = c.choose(2, "robot")
            r = rs[i]
            del called[:]
            for v in given:
                if isinstance(v, Viewer):
                    del v.seen[:]
            if op == 0 or op == 1:
                # what goes wrong: nothing, no module, no server, no answer
                bad = c.choose(4, "failure") if op == 0 else 0
                made = []

                def client(server, made=made, bad=bad):
                    if bad == 2:
                        raise IOError("no server")
                    made.append(Viewer(server, bad == 3))
                    return made[-1]

                sys.modules.pop("robotviewer", None)
                sys.modules["robotviewer"] = types.SimpleNamespace(client=client) if bad != 1 else None
                args = {}
                if small:
                    args["small"] = True
                if small == 2:
                    args["small_extra"] = 2
                if op == 1:
                    args.update(server="CORBA", dorefresh=False)
                args["verbose"] = bool(c.choose(2, "verbose")) if op == 0 and bad else True
                c.op("viewer for %s, failure %d, %r" % (r.name, bad, args))
                sys.stdout = io.StringIO()
                try:
                    VH.addRobotViewer(r, **args)
                finally:
                    said, sys.stdout = sys.stdout.getvalue(), out
                if not args["verbose"]:
                    c.expect(not said, "said", "it says %r" % said)
                elif bad:
                    c.expect(said, "said", "it says nothing")
                displays[i] = []
                if bad:
                    given[i] = "fake"
                else:
                    given[i] = made[0]
                    patched = True
                    c.expect(made[0].server == args.get("server", "XML-RPC"), "server", "the server is %r" % made[0].server)
                    c.expect(r.viewer is made[0], "viewer", "another viewer")
                patched = patched or bad == 3
                shows = 0 if bad or op == 1 else 1
                ran = []
            elif op == 5:
                if given[i] is None:
                    c.prune()
                serial += 1
                f = lambda k=serial: called.append(k)  # noqa: E731
                displays[i].append(serial)
                r.displayList.append(f)
                c.op("a display function for %s" % r.name)
                shows, ran = 0, []
            else:
                if patched and given[i] is None:
                    c.prune()   # the class has viewers, this robot was given none
                if op == 4:
                    if not patched:
                        c.prune()
                    c.op("refresh %s" % r.name)
                    r.refresh()
                elif op == 2:
                    c.op("increment %s" % r.name)
                    moves[i].append(0.25)
                    r.increment(0.25)
                else:
                    c.op("set %s" % r.name)
                    moves[i].append((1.0, 2.0, 3.5))
                    r.set((1.0, 2.0, 3.5))
                shows = 1 if patched else 0
                ran = list(displays[i]) if patched else []
            for k in (0, 1):
                c.expect(rs[k].moves == moves[k], "moves", lambda: "the moves of %s are %r instead of %r" % (rs[k].name, rs[k].moves, moves[k]))
            c.expect(called == ran, "displays", lambda: "display functions %r are called instead of %r" % (called, ran))
            for k in (0, 1):
                v = given[k]
                if not isinstance(v, Viewer):
                    continue
                want = [(shown[rs[k].name], [float(x) for x in rs[k].state.value] + [0.0] * extra)] * (shows if k == i else 0)
                c.expect(v.seen == want, "shown", lambda: "the viewer of %s shows %r instead of %r" % (rs[k].name, v.seen, want))
            c.state((op, i, patched, str(type(given[0])), str(type(given[1])), len(ran)))
            c.observe((op, shows, tuple(ran), bool(patched)))
    finally:
        sys.stdout = out
        sys.modules.pop("robotviewer", None)


class Moved:
    """What is done in /tmp is done in the scratch directory."""

    def __init__(self):
        global SCRATCH
        SCRATCH = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "mc-c31-%d" % os.getpid())   # one for each worker
        os.makedirs(SCRATCH, exist_ok=True)

    @staticmethod
    def to(p):
        p = os.fspath(p) if hasattr(p, "__fspath__") else p
        if isinstance(p, str) and p.startswith("/tmp/view"):
            return os.path.join(SCRATCH, p[len("/tmp/"):])
        return p

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in ((builtins, "open"), (io, "open"), (os, "remove"), (os, "unlink"), (glob, "glob"), (glob, "iglob"))]
        o = {(m, n): f for m, n, f in self.saved}
        builtins.open = io.open = lambda p, *a, **k: o[builtins, "open"](self.to(p), *a, **k)
        os.remove = os.unlink = lambda p, *a, **k: o[os, "remove"](self.to(p), *a, **k)
        glob.glob = lambda p, *a, **k: o[glob, "glob"](self.to(p), *a, **k)
        glob.iglob = lambda p, *a, **k: o[glob, "iglob"](self.to(p), *a, **k)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)
        for f in os.listdir(SCRATCH):
            os.remove(os.path.join(SCRATCH, f))
        os.rmdir(SCRATCH)


def loger(c):
    with Moved():
        r = robot_class(c.flag("numpy"))("robot")
        r.viewer = v = Viewer("")
        lines = {}
        old = c.flag("former logs")
        if old:
            for n in ("view_arm.dat", "view_leg.dat", "other.dat"):
                with open(os.path.join(SCRATCH, n), "w") as f:
                    f.write("former\n")
        lg = VL.ViewerLoger(r)
        sent = []
        for k in range(6 if c.thorough else 5):
            op = c.choose(4, "step")
            if op == 0:
                r.increment(0.125)
                c.op("increment")
                continue
            if op == 3:
                # the logs of a former loger are forgotten
                c.op("another loger")
                lg = None
                gc.collect()
                lg = VL.ViewerLoger(r)
                r.viewer = v
                lines = {}
                c.expect(lg.viewer is v, "viewer", "another viewer")
                continue
            name = ("arm", "leg")[op - 1]
            st = r.state.value if c.flag("state") else [k, -123456.78125]
            lg.updateElementConfig(name, st)
            c.op("%s is at %r" % (name, list(st)))
            sent.append((name, [float(x) for x in st]))
            lines.setdefault(name, []).append([float(r.state.time)] + [float(x) for x in st])
            c.expect(v.seen == sent, "sent", lambda: "the viewer is shown %r instead of %r" % (v.seen, sent))
        lg = None
        gc.collect()
        got = {}
        for n in sorted(os.listdir(SCRATCH)):
            with open(os.path.join(SCRATCH, n)) as f:
                t = f.read()
            if n == "other.dat":
                c.expect(t == "former\n", "other", "a file which is not a log is changed")
                continue
            c.expect(n.startswith("view_") and n.endswith(".dat"), "names", "a log is named %s" % n)
            got[n[5:-4]] = [[float(x) for x in ln.split("\t")] for ln in t.splitlines()]
        same = set(got) == set(lines) and all(len(got[n]) == len(lines[n]) and all(
            len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(got[n], lines[n])) for n in got)
        c.expect(same, "logs", lambda: "the logs are %r instead of %r" % (got, lines))
        c.expect(not old or os.path.exists(os.path.join(SCRATCH, "other.dat")), "other", "a file which is not a log is removed")
        c.observe(tuple(sorted((k, len(x)) for k, x in got.items())))


def pinger(c):
    v = Viewer("")
    p = VH.VisualPinger(v)
    n = 1
    want = []
    for k in range(6):
        want.append(("pong", [0.0, 0.9, n * 0.1, 0.0, 0.0, 0.0]))
        c.expect(len(v.seen) == len(want) and all(a[0] == b[0] and np.allclose(a[1], b[1]) for a, b in zip(v.seen, want)), "pinger", lambda: "%r is shown instead of %r" % (v.seen, want))
        if c.flag("ping"):
            p()
            n += 1
        else:
            p.refresh()
    r = types.SimpleNamespace(viewer=Viewer(""))
    t = c.choose(3, "time")
    s = Sig((0.25, -0.5, 0.8), t)
    name = c.pick((None, "mine"), "name")
    VH.updateComDisplay(r, s, *([name] if name else []))
    want = [(name or "com", [0.25, -0.5, 0.0, 0.0, 0.0, 0.0])] if t > 0 else []
    c.expect(r.viewer.seen == want, "com", lambda: "%r is shown instead of %r" % (r.viewer.seen, want))
    c.observe((n, t, name))


sys.exit(mcpy.main("C31", [
    mcpy.Suite("robots", robots, "two robots of one class; every history of 4 (thorough 5) viewers given (with 4 failures), motions, refreshes and display functions"),
    mcpy.Suite("loger", loger, "every history of 5 (thorough 6) elements shown, motions and new logers, with and without former logs"),
    mcpy.Suite("pinger", pinger, "every history of 6 pings and refreshes; displays of the center of mass"),
]))

"""Recorder of the motion: one record per period, each one the state of the
robot at its time, and the dumped files reproduce the records."""
import contextlib
import io
import os
import sys
import types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import mcpy  # noqa: E402
import dgstub  # noqa: E402
import numpy as np  # noqa: E402

dgstub.install()
import dynamic_graph.sot.core.utils.history as H  # noqa: E402

SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


class Sig:
    def __init__(self, name):
        self.name, self.value, self.time = name, None, 0


class Robot:
    def __init__(self, waist):
        self.position, self.velocity = Sig("position"), Sig("velocity")
        self.waist = Sig("waist")
        self._s = [self.position, self.velocity] + ([self.waist] if waist else [])

    def signals(self):
        return self._s

    def at(self, t, numpy):
        q = tuple(0.5 * i + 0.001 * t * (i + 1) for i in range(36))
        v = tuple(-0.25 * i + t for i in range(36))
        a, b = 0.1 * t, 1 + t
        W = ((0, -1, 0, a), (1, 0, 0, b), (0, 0, 1, 0.7), (0, 0, 0, 1))
        z = (0.01 * t, -0.02 * t, 0.5)
        self.position.value, self.velocity.value = q, v
        self.waist.value = np.array(W) if numpy else W
        self.position.time = t
        # the zmp in the frame of the waist: R^T (z - t)
        d = np.array(z) - np.array([a, b, 0.7])
        rel = np.array(W)[:3, :3].T @ d
        return q, v, (np.array(z) if numpy else z), rel


def history(c):
    freq = c.pick((1, 2, 3, 100), "period")
    waist, zmp, numpy = c.flag("waist"), c.flag("zmp"), c.flag("numpy values")
    r, z = Robot(waist), Sig("zmp")
    h = H.History(r, freq, z if zmp else None)
    exp = []
    t = 0
    for _ in range(6 if c.thorough else 5):
        q, v, zz, rel = r.at(t, numpy)
        z.value = zz
        c.op("record at %d" % t)
        h.record()
        if t % freq == 0:
            exp.append((t, q, v, rel))
        c.expect(h.q == [e[1] for e in exp] and h.qdot == [e[2] for e in exp], "records", lambda: "%d records instead of %d, or other values" % (len(h.q), len(exp)))
        if zmp and waist:
            c.expect(len(h.zmp) == len(exp) and all(np.allclose(list(a)[:3], e[3]) for a, e in zip(h.zmp, exp)), "zmp", lambda: "zmp records %r instead of %r" % (h.zmp, [e[3] for e in exp]))
        else:
            c.expect(h.zmp == [], "zmp", "zmp recorded without its signals")
        c.state((t, freq, len(exp), waist, zmp))
        t += 1 + (c.choose(2, "skip an iteration") if freq > 3 or freq == 1 else 0) * (99 if freq == 100 else 1)
    # files
    if exp:
        base = os.path.join(SCRATCH, "hist-%d" % os.getpid())
        h.dumpToOpenHRP(base)
        rd = lambda ext: [[float(x) for x in ln.split()] for ln in open(base + ext)]  # noqa: E731
        pos, hip, wai = rd(".pos"), rd(".hip"), rd(".waist")
        c.expect(len(pos) == len(hip) == len(wai) == len(exp), "dump", "the files do not have one line per record")
        for i, (tt, q, v, rel) in enumerate(exp):
            T = 0.005 * i
            c.expect(np.allclose(pos[i], [T] + list(q[6:36]) + [0] * 10), "dump-pos", lambda: "line %d of the joint file: %r" % (i, pos[i]))
            c.expect(np.allclose(hip[i], [T] + list(q[3:6])), "dump-hip", lambda: "line %d of the orientation file: %r" % (i, hip[i]))
            c.expect(np.allclose(wai[i], [T] + list(q[0:6])), "dump-waist", lambda: "line %d of the waist file: %r" % (i, wai[i]))
        if zmp and waist:
            zl = rd(".zmp")
            c.expect(len(zl) == len(exp) and all(np.allclose(a, [0.005 * i] + list(e[3])) for i, (a, e) in enumerate(zip(zl, exp))), "dump-zmp", "the zmp file differs")
            os.unlink(base + ".zmp")
        txt = open(base + "_pos0.py").read()
        vals = [float(x) for x in txt.split("'")[1].split()]
        c.expect(np.allclose(vals, [np.degrees(x) for x in exp[0][1][6:36]] + [0] * 10), "dump-pos0", lambda: "initial posture %r" % vals)
        for e in (".pos", ".hip", ".waist", "_pos0.py"):
            os.unlink(base + e)
    c.observe((len(exp), freq))


def restore(c):
    """recorded from time 0 without a hole: any time gives the record of its period"""
    freq = c.pick((1, 2, 5), "period")
    r = Robot(False)
    h = H.History(r, freq)
    n = 1 + c.choose(12, "length")
    qs = {}
    for t in range(n):
        q, v, _, _ = r.at(t, False)
        h.record()
        qs[t] = (q, v)
    t = c.choose(n, "time")
    c.op("restore %d of %d, period %d" % (t, n, freq))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        h.restore(t)
    rec = (t // freq) * freq
    s = out.getvalue()
    c.expect(str(qs[rec][0]) in s and str(qs[rec][1]) in s, "restore", lambda: "restoring %d does not give the state of time %d: %s" % (t, rec, s[:60]))
    ns = {}
    line = [x for x in s.splitlines() if x.startswith("T0")][0]
    c.expect(int(line.split("=")[1]) * 1 in (t // freq, t), "restore", line)
    c.state((freq, n, t))
    c.observe((freq, t))


sys.exit(mcpy.main("C09", [
    mcpy.Suite("history", history, "4 periods, with and without waist, zmp, numpy values; every pattern of 5 (thorough 6) recorded times"),
    mcpy.Suite("restore", restore, "3 periods x 1-12 records x every time"),
]))

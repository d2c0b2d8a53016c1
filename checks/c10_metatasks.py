"""Scripted tasks: after any history of their commands, the graph of features,
gains, tasks and operational point modifiers they build is wired and valued as
asked, and tasks do not disturb one another."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import warnings  # noqa: E402
import mcpy  # noqa: E402
import dgstub  # noqa: E402
import numpy as np  # noqa: E402
warnings.simplefilter("ignore")
dgstub.install()
from dynamic_graph.sot.core import meta_task_6d as m6, meta_tasks as mt, meta_tasks_kine as mk  # noqa: E402
from dynamic_graph.sot.core import meta_tasks_kine_relative as mr, meta_task_posture as mp, meta_task_visual_point as mv  # noqa: E402
from dynamic_graph.sot.core import feature_position as fp, feature_position_relative as fr  # noqa: E402
Flags, Entity, Dyn = dgstub.Flags, dgstub.Entity, dgstub.Dyn


def fresh():
    Entity.pool.clear()
    del Entity.calls[:]
    mp.MetaTaskPosture.nbDof = None


def mat(k):
    """the k-th pose"""
    a = 0.3 * k
    return np.array([[np.cos(a), -np.sin(a), 0, k], [np.sin(a), np.cos(a), 0, -k], [0, 0, 1, 0.5], [0, 0, 0, 1]])


def rpymat(v):
    r, p, y = v[3:]
    c, s = np.cos, np.sin
    Rx = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])
    Ry = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]])
    Rz = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]])
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = Rz @ Ry @ Rx, v[:3]
    return M


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b)


P3 = (0.5, -1.0, 2.0)
V6 = (0.1, 0.2, 0.3, 0.4, -0.5, 0.6)
POSITIONS = [  # what can be given as a position, and the pose it means
    ("tuple3", P3, rpymat(P3 + (0, 0, 0))), ("array3", np.array(P3), rpymat(P3 + (0, 0, 0))),
    ("row3", np.matrix(P3), rpymat(P3 + (0, 0, 0))), ("column3", np.matrix(P3).T, rpymat(P3 + (0, 0, 0))),
    ("array4x4", mat(2), mat(2)), ("matrix4x4", np.matrix(mat(3)), mat(3)),
    ("tuple4x4", tuple(map(tuple, mat(4).tolist())), mat(4)),
    ("tuple6", V6, rpymat(V6)), ("array6", np.array(V6), rpymat(V6)),
]
GAINS = [(None, None), (0, ("setConstant", 0)), (3, ("setConstant", 3)), (0.5, ("setConstant", 0.5)), ((2,), ("setConstant", 2)),
         ((1, 2, 3), ("set", 1, 2, 3)), ((4, 1, 0.5, 0.9), ("setByPoint", 4, 1, 0.5, 0.9))]


class Expect:
    """what the user asked for, of one task"""
    gain = ("set", 0.1, 0.1, 125e3)
    modif = modifBase = None
    ref = refBase = None
    selec = "111111"
    kept = 0


def check6d(c, t, e, dyn, op, relative=None):
    def plugged(sig, to, what):
        c.expect(sig.plugged is to, "wiring", lambda: "%s of %s is plugged to %s instead of %s" % (what, t.name, sig.plugged, to))
    d = lambda n: dyn.signal(n)  # noqa: E731
    m = t.opPointModif
    plugged(m.signal("positionIN"), d(op), "the input of the modifier")
    plugged(m.signal("jacobianIN"), d("J" + op), "the Jacobian of the modifier")
    plugged(t.feature.signal("position"), d(op) if e.modif is None else m.signal("position"), "the position")
    plugged(t.feature.signal("Jq"), d("J" + op) if e.modif is None else m.signal("jacobian"), "the Jacobian")
    if e.modif is None:
        c.expect(t.opmodif is False and not m.activ, "modifier", "the modifier is active")
    else:
        c.expect(m.activ and same(t.opmodif, e.modif) and same(m.M, e.modif), "modifier", lambda: "the modifier is %r" % (m.M,))
    if relative:
        b = t.opPointModifBase
        plugged(b.signal("positionIN"), d(relative), "the input of the base modifier")
        plugged(b.signal("jacobianIN"), d("J" + relative), "the Jacobian of the base modifier")
        plugged(t.feature.signal("positionRef"), d(relative) if e.modifBase is None else b.signal("position"), "the base position")
        plugged(t.feature.signal("JqRef"), d("J" + relative) if e.modifBase is None else b.signal("jacobian"), "the base Jacobian")
        if e.modifBase is None:
            c.expect(t.opmodifBase is False and not b.activ, "modifier", "the base modifier is active")
        else:
            c.expect(b.activ and same(t.opmodifBase, e.modifBase), "modifier", lambda: "the base modifier is %r" % (b.M,))
        if e.refBase is not None:
            c.expect(same(t.featureDes.positionRef.value, e.refBase), "reference", lambda: "base reference %r" % (t.featureDes.positionRef.value,))
    common(c, t, e)
    if e.ref is not None:
        c.expect(same(t.ref, e.ref) and same(t.featureDes.position.value, e.ref), "reference", lambda: "the reference is %r instead of %r" % (t.ref, e.ref))
    c.expect(t.feature.kept == e.kept if e.kept else True, "keep", "keep not forwarded")


def common(c, t, e):
    c.expect(t.gain.signal("error").plugged is t.task.signal("error"), "wiring", "the gain does not see the error of the task")
    c.expect(t.task.signal("controlGain").plugged is t.gain.signal("gain"), "wiring", "the task does not use the gain")
    c.expect(t.task.features == (t.feature.name,), "wiring", lambda: "the features of the task are %r" % (t.task.features,))
    c.expect(t.feature.reference == t.featureDes.name, "wiring", lambda: "the reference of the feature is %r" % (t.feature.reference,))
    got = getattr(t.gain, "gainset", None)
    c.expect(got == e.gain, "gain", lambda: "the gain is %r instead of %r" % (got, e.gain))
    if e.selec is not None:
        s = t.feature.signal("selec").value
        c.expect(s == (Flags(e.selec)), "selection", lambda: "the selection is %r instead of %r" % (s, e.selec))


def opstate(c, dyn, op, tag):
    """which part of the operational point exists beforehand"""
    k = c.choose(2, "existing point " + tag)
    if k:
        dyn.add(op)
    return k


def pick_gain(c, e):
    g, want = GAINS[c.choose(len(GAINS), "gain")]
    if want is not None:
        e.gain = want
    return g


def mt6d(c, depth, wide):
    fresh()
    cls = (m6.MetaTask6d, mk.MetaTaskKine6d)[c.choose(2, "class")]
    dyns = [Dyn("robot"), Dyn("other")]
    two = c.flag("second task on the same robot")
    ops = ["rh", "lh"]
    had = opstate(c, dyns[0], "rh", "rh")
    ts = [cls("a", dyns[0], "rh"), cls("b", dyns[0 if two else 1], "lh", "left-wrist")]
    where = [dyns[0], dyns[0 if two else 1]]
    c.expect(dyns[0].created[:1] == ([("lh", "left-wrist")] if two else []) if had else dyns[0].created[0] == ("rh", "right-wrist"), "oppoint", lambda: "operational points created: %r" % dyns[0].created)
    es = [Expect(), Expect()]
    for x in es:
        x.kept = 0
    hist(c, ts, es, where, ops, depth, wide, None)


def hist(c, ts, es, where, ops, depth, wide, rel):
    def verify():
        for t, e, d, o, r in zip(ts, es, where, ops, rel or (None, None)):
            check6d(c, t, e, d, o, r)
    verify()
    for t in ts:
        c.expect(t.feature.theframe == "current", "frame", "the frame is not the current one")
    for _ in range(depth):
        i = c.choose(2, "task")
        t, e = ts[i], es[i]
        n = 7 if not rel else 9
        k = c.choose(n, "op")
        if k == 0:
            c.op("%s.opmodif = False" % t.name)
            t.opmodif = False
            e.modif = None
        elif k in (1, 2):
            c.op("%s.opmodif = M%d" % (t.name, k))
            t.opmodif = mat(k)
            e.modif = mat(k)
        elif k == 3:
            c.op("%s.ref" % t.name)
            t.ref = mat(7)
            e.ref = mat(7)
        elif k == 4:
            name, p, want = POSITIONS[c.choose(len(POSITIONS) if wide else 2 if c.thorough else 1, "position")]
            c.op("%s goto %s" % (t.name, name))
            g = pick_gain(c, e) if wide else None
            if rel:
                mr.goto6dRel(t, p, POSITIONS[5][1], g)
                e.refBase = mat(3)
            else:
                mt.goto6d(t, p, g)
            e.ref, e.selec = want, "111111"
        elif k == 5:
            s = (None, "110", "000111", Flags("101010"))[c.choose(4 if wide or c.thorough else 3, "selection")]
            name, p, want = POSITIONS[c.choose(len(POSITIONS) if wide else 2 if c.thorough else 1, "position")]
            c.op("%s gotoNd %s %s" % (t.name, name, s))
            g = pick_gain(c, e) if wide else None
            if rel:
                mr.gotoNdRel(t, p, POSITIONS[0][1], s, g)
                e.refBase = POSITIONS[0][2]
            else:
                mt.gotoNd(t, p, s, g)
            e.ref = want
            if s is not None:
                e.selec = s
        elif k == 6:
            tm = 5 + e.kept
            where[i].position.time = tm
            c.op("%s.keep at %d" % (t.name, tm))
            n0 = len(t.feature.position.recomputed)
            t.keep()
            e.kept += 1
            c.expect(t.feature.position.recomputed[n0:] == [tm] and t.feature.kept == e.kept, "keep", "keep does not recompute the position at the time of the robot")
        elif k == 7:
            c.op("%s.opmodifBase = False" % t.name)
            t.opmodifBase = False
            e.modifBase = None
        elif k == 8:
            c.op("%s.opmodifBase = M5" % t.name)
            t.opmodifBase = mat(5)
            e.modifBase = mat(5)
        verify()
        c.state([(e.modif is None, e.modifBase is None, e.kept, repr(e.selec), e.gain, None if e.ref is None else e.ref.tolist()) for e in es])
    c.observe([(repr(e.selec), e.gain, e.modif is None) for e in es])


def mtrel(c, depth, wide):
    fresh()
    d = [Dyn("robot"), Dyn("other")]
    if c.flag("points exist"):
        d[0].add("rh")
        d[0].add("head")
    ts = [mr.MetaTaskKine6dRel("a", d[0], "rh", "head", "rw", "hd"), mr.MetaTaskKine6dRel("b", d[1], "lh", "foot")]
    c.expect(d[1].created == [("lh", "right-wrist"), ("foot", "left-wrist")], "oppoint", lambda: "created %r" % d[1].created)
    c.expect(d[0].created in ([], [("rh", "rw"), ("head", "hd")]), "oppoint", lambda: "created %r" % d[0].created)
    es = [Expect(), Expect()]
    hist(c, ts, es, d, ["rh", "lh"], depth, wide, ["head", "foot"])


def visual(c):
    fresh()
    d = Dyn("robot")
    had = opstate(c, d, "cam", "cam")
    t = mv.MetaTaskVisualPoint("v", d, "cam", "head")
    c.expect(d.created == ([] if had else [("cam", "head")]), "oppoint", lambda: "created %r" % d.created)
    e = Expect()
    e.selec = None
    target = ref = selec = None
    for _ in range(4 if c.thorough else 3):
        k = c.choose(6, "op")
        if k == 0:
            c.op("opmodif off")
            t.opmodif = False
            e.modif = None
        elif k == 1:
            c.op("opmodif on")
            m = mat(c.choose(2) + 1)
            t.opmodif = m
            e.modif = m
        elif k == 2:
            c.op("ref")
            ref = (0.1, 0.2)
            t.ref = ref
        elif k == 3:
            c.op("target")
            target = (1, 2, 3)
            t.target = target
        else:
            target = (4, 5, 6)
            r2 = (None, (0.5, 0.6))[c.choose(2, "ref")]
            s = (None, "01")[c.choose(2, "selec")]
            g = pick_gain(c, e)
            c.op("goto3D %r %r %r" % (g, r2, s))
            t.goto3D(target, g, r2, s)
            ref, selec = r2 or ref, s or selec
        on = e.modif is not None
        w = lambda s, to: c.expect(s.plugged is to, "wiring", lambda: "%s is plugged to %s instead of %s" % (s, s.plugged, to))  # noqa: E731
        w(t.proj.signal("transfo"), t.opPointModif.signal("position") if on else d.signal("cam"))
        w(t.feature.signal("Jq"), t.opPointModif.signal("jacobian") if on else d.signal("Jcam"))
        w(t.feature.signal("xy"), t.proj.signal("point2D"))
        w(t.feature.signal("Z"), t.proj.signal("depth"))
        w(t.opPointModif.signal("positionIN"), d.signal("cam"))
        w(t.opPointModif.signal("jacobianIN"), d.signal("Jcam"))
        c.expect((t.opmodif is False) if not on else same(t.opmodif, e.modif), "modifier", "wrong modifier")
        common(c, t, e)
        if ref is not None:
            c.expect(t.ref == ref, "reference", "the reference is %r" % (t.ref,))
        if target is not None:
            c.expect(t.proj.signal("point3D").value == target, "target", "the target is %r" % (t.proj.signal("point3D").value,))
        if selec is not None:
            c.expect(t.feature.signal("selec").value == selec, "selection", "wrong selection")
        c.state((on, ref, target, selec, e.gain))
    c.observe((e.gain, ref, target, selec))


LIMBS = list(mp.MetaTaskPosture.postureRange)


def posture(c):
    fresh()
    sizes = ((36, 36), (36, 40), (40, 36))[c.choose(3, "sizes of the two robots")]
    d = [Dyn("r0", sizes[0]), Dyn("r1", sizes[1])]
    ts = [mp.MetaTaskKinePosture(d[0], "p0"), mp.MetaTaskKinePosture(d[1], "p1")]
    refs, sel, es = [None, None], [None, None], [Expect(), Expect()]
    for e in es:
        e.gain, e.selec = None, None
    for call in range(2):
        full = call == 0 or c.thorough
        i = c.choose(2, "task")
        t, n = ts[i], sizes[i]
        base = c.choose(3, "posture") if full else 1
        q = np.zeros(n) if base == 0 else 0.01 * np.arange(n)
        kw, act = {}, [False] * n
        nl = c.choose(3 if full else 2, "limbs")
        for j in range(nl):
            limb = LIMBS[c.choose(len(LIMBS) if full else 3, "limb")] if j == 0 else ("rarm", "chest")[c.choose(2, "limb")]
            rng = list(mp.MetaTaskPosture.postureRange[limb])
            vals = [1.0 + 0.1 * x for x in rng]
            form = c.choose(4 if full else 1, "form") if j == 0 else 0
            kw[limb] = [vals, tuple(vals), np.matrix(vals).T, []][form]
            for a, x in zip(rng, vals):
                act[a] = True
                if form != 3:
                    q[a] = x
        g = (None, 2.0, 0.0)[(base + nl) % 3]
        qd = None if base == 0 else tuple(0.01 * np.arange(n)) if base == 1 else np.matrix(0.01 * np.arange(n)).T
        c.op("%s.gotoq(%s, %s, %r)" % (t.name, g, ("zero", "tuple", "matrix")[base], sorted(kw)))
        # a limb given twice (rarm and rshoulder) is not asked here
        if len(kw) == 2 and set(mp.MetaTaskPosture.postureRange[list(kw)[0]]) & set(mp.MetaTaskPosture.postureRange[list(kw)[1]]):
            c.prune()
        t.gotoq(g, qd, **kw)
        refs[i], sel[i] = q, act
        if g is not None:
            es[i].gain = ("setConstant", g)
        for k in range(2):
            common(c, ts[k], es[k])
            if refs[k] is not None:
                c.expect(same(ts[k].ref, refs[k]), "reference", lambda: "the reference posture of %s is %r instead of %r" % (ts[k].name, ts[k].ref, refs[k]))
                c.expect(ts[k].feature.signal("selec").value.bits == tuple(sel[k]), "selection", lambda: "the joints selected by %s are %r" % (ts[k].name, ts[k].feature.signal("selec").value))
            c.expect(ts[k].feature.signal("errorIN").plugged is d[k].signal("position"), "wiring", "the posture feature does not see the position")
            c.expect(same(ts[k].feature.signal("jacobianIN").value, np.eye(sizes[k])), "wiring", "the Jacobian of the posture is not the identity")
        c.state((i, sorted(kw), base, [None if r is None else r.tolist() for r in refs]))
    c.observe([None if r is None else r.tolist() for r in refs])


def limbs(c):
    """the table of limbs: sub-limbs are in their limb, sides and parts are apart"""
    r = {k: set(v) for k, v in mp.MetaTaskPosture.postureRange.items()}
    side = c.pick("rl", "side")
    c.op("limbs of side " + side)
    leg = r[side + "hip"] | r[side + "knee"] | r[side + "ankle"]
    arm = r[side + "shoulder"] | r[side + "elbow"] | r[side + "wrist"]
    c.expect(leg == r[side + "leg"], "limbs", "hip, knee and ankle do not make the leg")
    c.expect(arm == r[side + "arm"], "limbs", "shoulder, elbow and wrist do not make the arm")
    parts = [r[x] for x in ("rleg", "lleg", "chest", "head", "rarm", "larm", "rhand", "lhand")]
    c.expect(sum(map(len, parts)) == len(set().union(*parts)) == 30 and min(set().union(*parts)) == 6 and max(set().union(*parts)) == 35, "limbs", "the limbs overlap or leave joints out")
    c.state(side)


def com(c):
    fresh()
    d = [Dyn("r0"), Dyn("r1")]
    ts = [mk.MetaTaskKineCom(d[0]), mk.MetaTaskKineCom(d[1], "com2")]
    refs = [None, None]
    for _ in range(3):
        i = c.choose(2, "task")
        v = ((0, 0, 0.8), (1, 2, 3))[c.choose(2, "value")]
        c.op("%s.ref = %r" % (ts[i].name, v))
        ts[i].ref = v
        refs[i] = v
        for k in range(2):
            t = ts[k]
            c.expect(t.ref == refs[k] and t.featureDes.signal("errorIN").value == refs[k], "reference", "wrong reference")
            c.expect(t.feature.signal("errorIN").plugged is d[k].signal("com") and t.feature.signal("jacobianIN").plugged is d[k].signal("Jcom"), "wiring", "the feature is not wired to the center of mass")
            e = Expect()
            e.gain = e.selec = None
            common(c, t, e)
        c.state(refs)
    c.observe(refs)


def fposition(c):
    fresh()
    d = Dyn("r")
    d.add("rh")
    hasP, hasJ, hasR = c.flag("position"), c.flag("Jacobian"), c.flag("reference")
    R = tuple(map(tuple, mat(2).tolist()))
    f = fp.FeaturePosition("f", d.signal("rh") if hasP else None, d.signal("Jrh") if hasJ else None, R if hasR else None)
    c.op("FeaturePosition %s %s %s" % (hasP, hasJ, hasR))
    c.expect(f.name == "f" and f._feature.reference == f._reference.name == "f_ref", "wiring", "the reference is not set")
    c.expect(f.position.plugged is (d.signal("rh") if hasP else None), "wiring", "position")
    c.expect(f.Jq.plugged is (d.signal("Jrh") if hasJ else None), "wiring", "Jacobian")
    c.expect(f.reference.value == (R if hasR else None), "reference", "the reference is %r" % (f.reference.value,))
    c.expect(f.selec.value == Flags("111111") and f._feature.theframe == "current", "selection", "selection or frame")
    F, Rf = f._feature, f._reference
    want = dict(position=F.signal("position"), reference=Rf.signal("position"), Jq=F.signal("Jq"), error=F.signal("error"), selec=F.signal("selec"))
    for k, s in want.items():
        c.expect(f.signal(k) is s and getattr(f, k) is s, "signals", "the signal %s is another one" % k)
    c.expect(f.velocity is Rf.signal("velocity") and f.errordot is F.signal("errordot"), "signals", "velocity or errordot")
    c.expect(len(list(f.signals())) == len(want), "signals", "the list of signals differs")
    try:
        f.signal("none")
        c.fail("signals", "an unknown signal is accepted")
    except RuntimeError:
        pass
    fm = c.pick(("desired", "current"), "frame")
    f.frame(fm)
    f.keep()
    c.expect(F.theframe == fm and f.getFrame() == fm and F.kept == 1, "commands", "frame or keep not forwarded")
    c.state((hasP, hasJ, hasR, fm))


def frelative(c):
    fresh()
    d = Dyn("r")
    for p in ("a", "b", "ra", "rb"):
        d.add(p)
    src, want = [], []
    for p in ("a", "b", "ra", "rb"):
        k = c.choose(3, p)
        M = tuple(map(tuple, mat(3).tolist()))
        src.append((None, d.signal(p), M)[k])
        want.append((np.eye(4), d.signal(p), M)[k])
    jb, jo = c.flag("base Jacobian"), c.flag("other Jacobian")
    f = fr.FeaturePositionRelative("f", src[0], src[1], src[2], src[3], d.signal("Ja") if jb else None, d.signal("Jb") if jo else None)
    c.op("FeaturePositionRelative %r" % (src,))
    F, R = f._feature, f._reference
    for s, w, n in ((F.signal("positionRef"), want[0], "basePosition"), (F.signal("position"), want[1], "otherPosition"), (R.signal("positionRef"), want[2], "baseReference"), (R.signal("position"), want[3], "otherReference")):
        c.expect(f.signal(n) is s and getattr(f, n) is s, "signals", "the signal %s is another one" % n)
        if isinstance(w, dgstub.SignalBase):
            c.expect(s.plugged is w, "wiring", "%s is not plugged" % n)
        else:
            c.expect(s.plugged is None and same(s.value, w), "wiring", "%s is %r" % (n, s.value))
    c.expect(F.signal("JqRef").plugged is (d.signal("Ja") if jb else None) and F.signal("Jq").plugged is (d.signal("Jb") if jo else None), "wiring", "Jacobians")
    for n, s in (("JqBase", "JqRef"), ("JqOther", "Jq"), ("error", "error"), ("jacobian", "jacobian"), ("selec", "selec")):
        c.expect(f.signal(n) is F.signal(s) and getattr(f, n) is F.signal(s), "signals", "the signal %s is another one" % n)
    c.expect(F.reference == R.name == "f_ref" and f.selec.value == Flags("111111") and F.theframe == "current", "wiring", "reference, selection or frame")
    f.frame("desired")
    f.keep()
    c.expect(F.theframe == "desired" and F.kept == 1, "commands", "frame or keep not forwarded")
    c.state(repr((src, jb, jo)))


sys.exit(mcpy.main("C10", [
    mcpy.Suite("6d", lambda c: mt6d(c, 4 if c.thorough else 3, False), "two tasks on one or two robots; every history of 3 (thorough 4) commands: modifier off and 2 transformations, reference, goto, selections, keep", split=4),
    mcpy.Suite("6d-arguments", lambda c: mt6d(c, 1, True), "every form of position (9), gain (7) and selection (4) in goto commands", split=4),
    mcpy.Suite("relative", lambda c: mtrel(c, 3, False), "two relative tasks; every history of 3 commands", split=4),
    mcpy.Suite("relative-arguments", lambda c: mtrel(c, 1, True), "every form of position, gain and selection", split=3),
    mcpy.Suite("visual", visual, "every history of 3 (thorough 4) commands of a visual point task", split=3),
    mcpy.Suite("posture", posture, "two robots of the same or different sizes; every gotoq call over 3 base postures, 0-2 of 21 limbs, 4 forms of values, followed by a second one (quick: 1 posture, 0-1 of 3 limbs, 1 form)", split=4),
    mcpy.Suite("limbs", limbs, "table of limbs", split=1),
    mcpy.Suite("com", com, "two tasks, 3 references", split=2),
    mcpy.Suite("feature-position", fposition, "every combination of arguments", split=2),
    mcpy.Suite("feature-relative", frelative, "every combination of arguments (none, signal, value)", split=2),
]))

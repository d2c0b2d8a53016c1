"""Stand-in for the compiled part of dynamic_graph: enough of entities, signals
and plugs for the Python modules of /repo to be imported and used.  Signals
hold a value or the signal they are plugged to; factories record what they
create.  Nothing of /repo is replaced: only the extension modules are."""
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "dynamic_graph")


class SignalBase:
    def __init__(self, name, entity=None):
        self.full, self.entity = name, entity
        self._value, self.plugged, self.time, self.recomputed = None, None, 0, []

    def getName(self):
        return self.full

    @property
    def name(self):
        return self.full.split(":")[-1]

    @property
    def value(self):
        return self.plugged.value if self.plugged is not None else self._value

    @value.setter
    def value(self, v):
        self.plugged = None
        self._value = v

    def recompute(self, t):
        self.recomputed.append(t)

    def __repr__(self):
        return self.full


def plug(a, b):
    if not isinstance(a, SignalBase) or not isinstance(b, SignalBase):
        raise TypeError("plug: not signals: %r %r" % (a, b))
    b.plugged = a


class Entity:
    SIGNALS, COMMANDS = (), ()
    pool = {}
    calls = []

    def __init__(self, name):
        if name in Entity.pool:
            raise RuntimeError("entity %s already exists" % name)
        Entity.pool[name] = self
        self._name = name
        self.obj = ("obj", name)
        self._signals = {}
        for s in self.SIGNALS:
            self._signals[s] = SignalBase("%s(%s)::sig:%s" % (type(self).__name__, name, s), self)

    @property
    def name(self):
        return self._name

    def signal(self, n):
        if n not in self._signals:
            raise RuntimeError("no signal " + n)
        return self._signals[n]

    def signals(self):
        return list(self._signals.values())

    def commands(self):
        return tuple(self.COMMANDS)

    def __getattr__(self, n):
        sig = self.__dict__.get("_signals", {})
        for k in (n, n.rstrip("_")):
            if k in sig:
                return sig[k]
        if n in type(self).COMMANDS:
            def call(*args):
                Entity.calls.append((self._name, n) + args)
                return self.command(n, *args)
            return call
        raise AttributeError("%s has no attribute %s" % (type(self).__name__, n))

    def command(self, n, *args):
        return None


class Flags:
    def __init__(self, x):
        if isinstance(x, Flags):
            x = x.bits
        if isinstance(x, str):
            # as the C++ class: last character is the first flag
            self.bits = tuple(ch == "1" for ch in reversed(x))
        else:
            self.bits = tuple(bool(b) for b in x)

    def __eq__(self, o):
        return isinstance(o, Flags) and o.bits == self.bits

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        return "Flags(%s)" % "".join("01"[b] for b in self.bits)


def install():
    """(re)create the stand-in modules and forget the modules of /repo."""
    for m in list(sys.modules):
        if m == "dynamic_graph" or m.startswith("dynamic_graph."):
            del sys.modules[m]
    Entity.pool.clear()
    del Entity.calls[:]

    def mod(name, path=None, **kw):
        m = types.ModuleType(name)
        if path:
            m.__path__ = [path]
        m.__dict__.update(kw)
        sys.modules[name] = m
        parent, _, leaf = name.rpartition(".")
        if parent:
            setattr(sys.modules[parent], leaf, m)
        return m

    mod("dynamic_graph", PKG, plug=plug)
    mod("dynamic_graph.entity", Entity=Entity)
    mod("dynamic_graph.signal_base", SignalBase=SignalBase)
    mod("dynamic_graph.script_shortcuts", optionalparentheses=lambda f: f)
    mod("dynamic_graph.sot", os.path.join(PKG, "sot"))
    core = mod("dynamic_graph.sot.core", os.path.join(PKG, "sot", "core"), Flags=Flags)

    def ent(leaf, cls, signals, commands=(), command=None):
        d = dict(SIGNALS=tuple(signals.split()), COMMANDS=tuple(commands.split()) if isinstance(commands, str) else commands)
        if command:
            d["command"] = command
        c = type(cls, (Entity,), d)
        mod("dynamic_graph.sot.core." + leaf, **{cls: c})
        setattr(core, cls, c)
        return c

    feat = "setReference getReference frame getFrame keep"
    ent("feature_generic", "FeatureGeneric", "errorIN jacobianIN selec error jacobian errordot dim", feat, _ref)
    ent("feature_point6d", "FeaturePoint6d", "position velocity Jq selec error jacobian errordot dim", feat, _ref)
    ent("feature_point6d_relative", "FeaturePoint6dRelative", "position positionRef Jq JqRef selec error jacobian errordot dim", feat, _ref)
    ent("feature_visual_point", "FeatureVisualPoint", "xy Z Jq selec error jacobian errordot", feat, _ref)
    ent("visual_point_projecter", "VisualPointProjecter", "point3D transfo point2D depth")
    ent("gain_adaptive", "GainAdaptive", "error gain", "set setConstant setByPoint", _gain)
    ent("task", "Task", "error jacobian controlGain task", "add", _task)

    class OpPointModifier(Entity):
        SIGNALS = ("positionIN", "jacobianIN", "position", "jacobian")
        COMMANDS = ("setTransformation", "getTransformation")
        activ = None
        M = None

        def command(self, n, *args):
            if n == "setTransformation":
                self.M = args[0]
            else:
                return self.M
    mod("dynamic_graph.sot.core.op_point_modifier", OpPointModifier=OpPointModifier)
    core.OpPointModifier = OpPointModifier


def _ref(self, n, *args):
    if n == "setReference":
        self.reference = args[0]
    elif n == "frame":
        self.theframe = args[0]
    elif n == "getFrame":
        return self.__dict__.get("theframe")
    elif n == "keep":
        self.kept = self.__dict__.get("kept", 0) + 1


def _gain(self, n, *args):
    self.gainset = (n,) + args


def _task(self, n, *args):
    self.features = self.__dict__.get("features", ()) + args


class Dyn(Entity):
    """a robot model: position, velocity, com, operational points"""
    SIGNALS = ("position", "velocity", "com", "Jcom")

    def __init__(self, name, size=36, points=()):
        Entity.__init__(self, name)
        self.created = []
        self.position.value = tuple(0.01 * i for i in range(size))
        self.velocity.value = tuple(-0.5 * i for i in range(size))
        for p in points:
            self.add(p)

    def add(self, p):
        for s in (p, "J" + p):
            self._signals[s] = SignalBase("Dyn(%s)::output(m):%s" % (self._name, s), self)

    def createOpPoint(self, p, ref):
        self.created.append((p, ref))
        self.add(p)

"""Exhaustive bounded explorer, Python side (same contract as mc.hh).

A suite is a function of a Ctx which resolves every choice through the Ctx; the
engine enumerates every sequence of choices depth-first, sharded over forked
workers, and re-executes a failing sequence twice before reporting it.
"""
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback


class Fail(BaseException):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Prune(BaseException):
    pass


class NotMine(BaseException):
    pass


class Divergence(BaseException):
    pass


class Hang(BaseException):
    pass


def h(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little")


class Ctx:
    def __init__(self, prefix, thorough=False, shard=0, nshards=1, split=0,
                 strict=False, tracing=False, states=None):
        self.prefix, self.taken, self.arity = prefix, [], []
        self.thorough, self.shard, self.nshards, self.split = thorough, shard, nshards, split
        self.strict, self.tracing = strict, tracing
        self.trace, self.transitions, self.outcome = [], 0, 0
        self.states = states if states is not None else set()

    def choose(self, n, what=""):
        if n <= 0:
            raise Divergence("empty choice " + what)
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if not 0 <= c < n:
                raise Divergence("choice %d (%s) is %d of %d" % (i, what, c, n))
        else:
            if self.strict:
                raise Divergence("extra choice " + what)
            c = 0
        self.taken.append(c)
        self.arity.append(n)
        if len(self.taken) == self.split and not self.mine():
            raise NotMine()
        return c

    def mine(self):
        return h(tuple(self.taken[:self.split])) % self.nshards == self.shard

    def flag(self, what=""):
        return self.choose(2, what) == 1

    def pick(self, seq, what=""):
        return seq[self.choose(len(seq), what)]

    def op(self, text):
        self.transitions += 1
        if self.tracing:
            self.trace.append(text() if callable(text) else text)

    def state(self, x):
        self.states.add(h(x))

    def observe(self, x):
        self.outcome = h((self.outcome, x))

    def prune(self):
        raise Prune()

    def fail(self, key, msg):
        raise Fail(key, msg)

    def expect(self, ok, key, msg):
        if not ok:
            raise Fail(key, msg() if callable(msg) else msg)


class Suite:
    def __init__(self, name, fn, bounds, split=2, thorough_only=False):
        self.name, self.fn, self.bounds, self.split = name, fn, bounds, split
        self.thorough_only = thorough_only


HANG = 20


def run_once(suite, c):
    def onalarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, HANG)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        suite.fn(c)
        if c.strict and len(c.taken) != len(c.prefix):
            return "failed", "engine", "too few choices while replaying"
        res = ("ok", "", "")
    except Fail as e:
        res = ("failed", e.key, e.msg)
    except Prune:
        res = ("pruned", "", "")
    except NotMine:
        return "skipped", "", ""
    except Divergence as e:
        return "failed", "engine", str(e)
    except Hang:
        res = ("failed", "hang", "the execution does not terminate")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
        res = ("failed", "uncaught-exception", "uncaught %s: %s (%s)" % (type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old
    if len(c.taken) < c.split and not c.mine():
        return "skipped", "", ""
    return res


def worker(suite, w, n, thorough, known, deadline, path):
    st = dict(executions=0, pruned=0, transitions=0, maxdepth=0, failed=None,
              known={}, samples=[], capped=False)
    states, outcomes = set(), set()
    prefix, more = [], True
    while more:
        c = Ctx(prefix, thorough, w, n, suite.split if n > 1 else 0,
                tracing=(w == 0 and len(st["samples"]) < 3 and st["executions"] % 97 == 0),
                states=states)
        kind, key, msg = run_once(suite, c)
        if kind != "skipped":
            st["transitions"] += c.transitions
            st["maxdepth"] = max(st["maxdepth"], len(c.taken))
        if kind == "ok":
            st["executions"] += 1
            outcomes.add(c.outcome)
            if c.tracing and c.trace:
                st["samples"].append(c.trace)
        elif kind == "pruned":
            st["pruned"] += 1
        elif kind == "failed":
            st["executions"] += 1
            if key in known:
                k = st["known"].setdefault(key, [0, msg])
                k[0] += 1
            else:
                st["failed"] = [key, msg, c.taken]
                break
        prefix, ar, more = list(c.taken), list(c.arity), False
        while prefix:
            if prefix[-1] + 1 < ar[len(prefix) - 1]:
                prefix[-1] += 1
                more = True
                break
            prefix.pop()
        if more and st["executions"] & 63 == 0 and time.monotonic() > deadline:
            st["capped"] = True
            break
    st["states"], st["outcomes"] = sorted(states), sorted(outcomes)
    json.dump(st, open(path, "w"))


def replay(suite, choices, thorough, strict, tmp):
    """in a process of its own"""
    path = os.path.join(tmp, "replay.json")
    if os.path.exists(path):
        os.unlink(path)
    pid = os.fork()
    if not pid:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            c = Ctx(list(choices), thorough, strict=strict, tracing=True)
            kind, key, msg = run_once(suite, c)
            json.dump(dict(failed=kind == "failed", key=key, msg=msg, trace=c.trace), open(path, "w"))
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if not os.path.exists(path):
        return dict(failed=True, key="crash", msg="the interpreter died", trace=[])
    return json.load(open(path))


def main(prop, suites):
    a = sys.argv[1:]
    thorough, jobs, out, tmp, known, only, deadline = False, 8, "result.json", None, [], None, 1e18
    rp = None
    while a:
        x = a.pop(0)
        if x == "--thorough":
            thorough = True
        elif x == "--jobs":
            jobs = int(a.pop(0))
        elif x == "--out":
            out = a.pop(0)
        elif x == "--tmp":
            tmp = a.pop(0)
        elif x == "--known":
            known.append(a.pop(0))
        elif x == "--only":
            only = a.pop(0)
        elif x == "--deadline":
            deadline = time.monotonic() + float(a.pop(0))
        elif x == "--replay":
            rp = (a.pop(0), [int(v) for v in a.pop(0).split()])
    if rp:
        for s in suites:
            if s.name == rp[0]:
                print(json.dumps(replay(s, rp[1], thorough, False, tmp)))
                return 0
        return 2
    results, failed, bad = [], False, False
    for s in suites:
        if only and only not in s.name or (s.thorough_only and not thorough):
            continue
        t0 = time.monotonic()
        sys.stdout.flush()
        pids = []
        paths = [os.path.join(tmp, "w%d.json" % w) for w in range(jobs)]
        for w in range(jobs):
            if os.path.exists(paths[w]):
                os.unlink(paths[w])
            pid = os.fork()
            if not pid:
                code = 3
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    worker(s, w, jobs, thorough, known, deadline, paths[w])
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        r = dict(name=s.name, bounds=s.bounds, executions=0, pruned=0, transitions=0, maxdepth=0,
                 capped=False, samples=[], known={}, failed=False)
        states, outcomes, cands = set(), set(), []
        for p in paths:
            if not os.path.exists(p):
                print("mcpy: a worker died", file=sys.stderr)
                bad = True
                continue
            st = json.load(open(p))
            for k in ("executions", "pruned", "transitions"):
                r[k] += st[k]
            r["maxdepth"] = max(r["maxdepth"], st["maxdepth"])
            r["capped"] |= st["capped"]
            r["samples"] += st["samples"]
            states.update(st["states"])
            outcomes.update(st["outcomes"])
            for k, (n, m) in st["known"].items():
                e = r["known"].setdefault(k, dict(count=0, msg=m))
                e["count"] += n
            if st["failed"]:
                cands.append(st["failed"])
        for key, msg, ch in sorted(cands, key=lambda x: (len(x[2]), x[2])):
            if key == "engine":
                print("mcpy: engine error in %s: %s" % (s.name, msg), file=sys.stderr)
                bad = True
                continue
            x, y = (replay(s, ch, thorough, True, tmp) for _ in range(2))
            if x["failed"] and y["failed"] and x["key"] == y["key"] == key:
                r.update(failed=True, key=key, msg=x["msg"], trace=x["trace"], choices=ch)
                failed = True
                break
            print("mcpy: a candidate failure did not reproduce: %s / %s / %s" % (key, x, y), file=sys.stderr)
            bad = True
        r["states"], r["outcomes"], r["wall"] = len(states), len(outcomes), time.monotonic() - t0
        results.append(r)
        if failed:
            break
    json.dump(dict(suites=results), open(out, "w"))
    return 1 if failed else (2 if bad else 0)

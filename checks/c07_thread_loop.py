"""Interruptible loop in a thread: the loop obeys the last command, in every
interleaving of the two threads (switches before any line, bounded number of
preemptions) and for every script of commands."""
import os
import sys
import types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import mcpy  # noqa: E402
import pysched  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PATH = os.path.join(REPO, "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")
CODE = compile(open(PATH).read(), PATH, "exec")


def load(th, tm):
    dg = types.ModuleType("dynamic_graph")
    ss = types.ModuleType("dynamic_graph.script_shortcuts")
    ss.optionalparentheses = lambda f: f
    saved = {k: sys.modules.get(k) for k in ("threading", "time", "dynamic_graph", "dynamic_graph.script_shortcuts")}
    sys.modules.update({"threading": th, "time": tm, "dynamic_graph": dg, "dynamic_graph.script_shortcuts": ss})
    try:
        ns = {"__name__": "til"}
        exec(CODE, ns)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return ns


def script(c, nops, bound, shortcuts=False):
    S = pysched.Sched(c, bound, [PATH])
    ns = load(*S.modules())
    log = []   # (begin/end, thread)
    inside = [0]

    def body():
        c.expect(inside[0] == 0, "overlap", "two iterations of the loop overlap")
        inside[0] += 1
        log.append("begin")
        S.point()
        log.append("end")
        inside[0] -= 1
    Runner = ns["loopInThread"](body)
    r = Runner()
    go, stop = (None, None)
    if shortcuts:
        go, stop, nxt, inc = ns["loopShortcuts"](r)
    loops = lambda: log.count("begin")  # noqa: E731

    def thread():
        return r._vt

    def settle(rounds):
        """the user waits until the loop thread has been round 'rounds' times"""
        if thread() is None:
            return
        if thread().exc is not None:
            raise thread().exc
        s0 = S.sleeps
        S.block_until(lambda: thread().done or S.sleeps >= s0 + rounds)

    def user():
        started, quitted, last, quiet = False, False, None, False
        nb = 0
        for _ in range(nops):
            ops = ["play", "pause", "once", "wait"] if not quitted else ["wait", "restart"]
            if not quitted:
                ops.append("quit")
            op = c.pick(ops, "command")
            c.op(op)
            mark, nb = loops(), 0
            if op == "play":
                go() if shortcuts else r.play()
                started = True
            elif op == "pause":
                stop() if shortcuts else r.pause()
            elif op == "once":
                r.once()
            elif op == "quit":
                r.quit()
                if started:
                    quitted = True
            elif op == "restart":
                if not started:
                    c.prune()
                r.restart()
                quitted = False
            elif op == "wait":
                settle(2)
                continue
            if started:
                last = "play" if op == "restart" else op
                after = loops()
                quiet = False
        if not started:
            settle(1)
            c.expect(loops() == 0, "not-started", "the loop runs before play")
            return
        if last is None:
            return
        # nothing more is asked: what does the loop do?
        S.free = False
        before = loops() - after if False else loops()
        settle(4)
        t = thread()
        c.expect(t is not None, "not-started", "the loop is not started")
        ran = loops() - after
        c.observe((last, min(ran, 3), t.done))
        if t.exc is not None:
            raise t.exc
        if last == "play":
            c.expect(not t.done and loops() - before >= 3, "play", lambda: "after play the loop has run %d times in 4 rounds%s" % (loops() - before, ", the thread has ended" if t.done else ""))
        elif last == "pause":
            c.expect(ran <= 1, "pause", lambda: "%d iterations begin after pause has returned" % ran)
            c.expect(not t.done, "pause", "the thread ends on pause")
        elif last == "once":
            c.expect(ran <= 2, "once", lambda: "%d iterations begin after once has returned" % ran)
            before = loops()
            settle(2)
            c.expect(loops() == before, "once", "the loop keeps running after once")
        elif last == "quit":
            c.expect(t.done, "quit", "the thread does not end after quit")
            c.expect(ran <= 1, "quit", lambda: "%d iterations begin after quit has returned" % ran)
            c.expect(not r.isRunning, "quit", "the loop says that it runs after the thread ended")

    S.run_main(user)
    c.state((loops(), r.isPlay, r.isOnce, r.isQuit, r.isRunning, bool(r._vt and r._vt.done)))


def quiet_once(c):
    """once from a pause: exactly one iteration, every time."""
    S = pysched.Sched(c, 3 if c.thorough else 2, [PATH])
    ns = load(*S.modules())
    n = [0]

    def body():
        n[0] += 1
    r = ns["loopInThread"](body)()

    def settle(k):
        s0 = S.sleeps
        S.block_until(lambda: S.sleeps >= s0 + k)

    def user():
        r.play()
        settle(2)
        r.pause()
        settle(2)
        for i in range(1 + c.choose(3, "times")):
            before, it = n[0], r.iter
            c.op("once")
            r.once()
            settle(3)
            c.expect(n[0] == before + 1, "once", lambda: "once runs the loop %d times" % (n[0] - before))
            c.expect(r.iter == it + 1, "counter", "the iteration counter does not follow")
        before = n[0]
        c.op("play")
        r.play()
        settle(4)
        c.expect(n[0] >= before + 3, "play", lambda: "after once then play the loop runs %d times in 4 rounds" % (n[0] - before))
    S.run_main(user)
    c.state(n[0])


def shortcuts(c):
    """next and + run the loop function in the calling thread."""
    S = pysched.Sched(c, 0, [PATH])
    ns = load(*S.modules())
    n = [0]

    def body():
        n[0] += 1
    r = ns["loopInThread"](body)()
    go, stop, nxt, inc = ns["loopShortcuts"](r)

    def user():
        k = c.choose(4, "count")
        c.op("n + %d" % k)
        inc + k
        c.expect(n[0] == k, "shortcut", "n+%d runs the loop %d times" % (k, n[0]))
        nxt()
        c.expect(n[0] == k + 1, "shortcut", "next runs the loop %d times" % (n[0] - k))
    S.run_main(user)
    c.state(n[0])


sys.exit(mcpy.main("C07", [
    mcpy.Suite("scripts", lambda c: script(c, 5 if c.thorough else 4, 2), "every script of 4 (thorough 5) commands (play, pause, once, quit, restart, wait) x every schedule with at most 2 preemptions at any source line", split=4),
    mcpy.Suite("preempted", lambda c: script(c, 4 if c.thorough else 3, 3), "every script of 3 (thorough 4) commands x every schedule with at most 3 preemptions", split=4),
    mcpy.Suite("long", lambda c: script(c, 6, 0, True), "every script of 6 commands through the shortcuts, without preemption", split=3),
    mcpy.Suite("once", quiet_once, "once called 1-3 times on a paused loop, then play; 2 (thorough 3) preemptions", split=3),
    mcpy.Suite("shortcuts", shortcuts, "0-3 increments", split=1),
]))

"""Controlled scheduler for Python threads: one thread runs at a time, a switch
can happen before every source line of the traced files, the choice of the next
thread is resolved by the explorer, with a bound on preemptions."""
import sys
import _thread


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class VT:
    def __init__(self, name):
        self.name, self.blocked, self.done, self.started = name, None, False, False
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.exc = None


class Sched:
    def __init__(self, c, bound, files):
        self.c, self.bound, self.files = c, bound, set(files)
        self.main = VT("user")
        self.main.started = True
        self.threads = [self.main]
        self.cur = self.main
        self.killed = False
        self.sleeps = 0
        self.switches = 0
        self.err = None
        self.free = True   # scheduling points are active

    # -- thread bodies
    def spawn(self, name, fn):
        t = VT(name)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            if self.killed:
                t.done = True
                self.ack(t)
                return
            sys.settrace(self.tracer)
            try:
                fn()
            except Killed:
                pass
            except Exception as e:  # noqa
                t.exc = e
            except BaseException as e:  # of the explorer: to the main thread
                sys.settrace(None)
                t.done = True
                self.err = e
                self.cur = self.main
                self.main.sem.release()
                return
            sys.settrace(None)
            t.done = True
            if self.killed:
                self.ack(t)
                return
            try:
                self.pick_next(t, voluntary=True)
            except BaseException as e:
                self.err = e
                self.cur = self.main
                self.main.sem.release()
        t.started = True
        _thread.start_new_thread(body, ())
        return t

    def ack(self, t):
        self.main.sem.release()

    def enabled(self):
        return [t for t in self.threads if t.started and not t.done and not (t.blocked and not t.blocked())]

    def handoff(self, me, to):
        if to is me:
            return
        self.switches += 1
        self.cur = to
        to.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.killed:
            raise Killed()
        if me is self.main and self.err is not None:
            e, self.err = self.err, None
            raise e

    def pick_next(self, me, voluntary):
        en = self.enabled()
        if voluntary:
            others = [t for t in en if t is not me]
            opts = others or [t for t in en if t is me]
        else:
            opts = [me] + [t for t in en if t is not me]
            if self.bound <= 0:
                opts = [me]
        if not opts:
            if me.done and me is not self.main:
                self.err = Deadlock("deadlock")
                self.cur = self.main
                self.main.sem.release()
                return
            raise Deadlock("deadlock: " + ", ".join(t.name for t in self.threads if not t.done))
        i = self.c.choose(len(opts), "schedule") if len(opts) > 1 else 0
        to = opts[i]
        if not voluntary and to is not me:
            self.bound -= 1
            self.c.op("    [switch to %s]" % to.name)
        self.handoff(me, to)

    def point(self):
        if self.killed:
            raise Killed()
        if self.free:
            self.pick_next(self.cur, voluntary=False)

    def block_until(self, cond):
        me = self.cur
        if cond():
            return
        me.blocked = cond
        try:
            while not cond():
                self.pick_next(me, voluntary=True)
        finally:
            me.blocked = None

    def sleep(self, *a):
        if self.killed:
            raise Killed()
        self.sleeps += 1
        self.cur.sleeping = True
        self.pick_next(self.cur, voluntary=True)

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if event == "call":
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.line

    def run_main(self, fn):
        sys.settrace(self.tracer)
        try:
            fn()
        finally:
            sys.settrace(None)
            self.finish()

    def finish(self):
        """end the threads still alive, one at a time"""
        self.killed = True
        for t in self.threads:
            if t is not self.main and t.started and not t.done:
                t.sem.release()
                self.main.sem.acquire()

    # -- replacement of the threading and time modules
    def modules(self):
        import types
        S = self

        class Thread:
            def __init__(self, *a, **k):
                self.daemon = False
                self._vt = None
                self._target = k.get("target")

            def start(self):
                if self._vt is not None:
                    raise RuntimeError("threads can only be started once")
                self._vt = S.spawn("loop thread", self.run)
                S.point()

            def run(self):
                if self._target:
                    self._target()

            def join(self, timeout=None):
                if self._vt is None:
                    raise RuntimeError("cannot join thread before it is started")
                S.block_until(lambda: self._vt.done)

            def is_alive(self):
                return self._vt is not None and not self._vt.done

        class RLock:
            def __init__(self):
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=-1):
                me = S.cur
                if not blocking and self.owner not in (None, me):
                    return False
                S.block_until(lambda: self.owner in (None, me))
                self.owner = me
                self.n += 1
                return True

            def release(self):
                if S.killed:
                    return
                if self.owner is not S.cur:
                    raise RuntimeError("cannot release un-acquired lock")
                self.n -= 1
                if not self.n:
                    self.owner = None
            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class Lock(RLock):
            def acquire(self, blocking=True, timeout=-1):
                if not blocking and self.owner is not None:
                    return False
                S.block_until(lambda: self.owner is None)
                self.owner = S.cur
                self.n = 1
                return True

            def release(self):
                if S.killed:
                    return
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner, self.n = None, 0
            __enter__ = acquire

        class Event:
            def __init__(self):
                self.f = False

            def set(self):
                self.f = True

            def clear(self):
                self.f = False

            def is_set(self):
                return self.f
            isSet = is_set

            def wait(self, timeout=None):
                if timeout is None:
                    S.block_until(lambda: self.f)
                else:
                    S.sleep()
                return self.f

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock or RLock()
                self.acquire, self.release = self.lock.acquire, self.lock.release
                self.gen = 0

            def __enter__(self):
                return self.lock.acquire()

            def __exit__(self, *a):
                self.lock.release()

            def wait(self, timeout=None):
                g, n = self.gen, self.lock.n
                self.lock.owner, self.lock.n = None, 0
                if timeout is None:
                    S.block_until(lambda: self.gen != g)
                else:
                    S.sleep()
                S.block_until(lambda: self.lock.owner is None)
                self.lock.owner, self.lock.n = S.cur, n
                return True

            def notify(self, n=1):
                self.gen += 1

            def notify_all(self):
                self.gen += 1
            notifyAll = notify_all

        th = types.ModuleType("threading")
        th.Thread, th.RLock, th.Lock, th.Event, th.Condition = Thread, RLock, Lock, Event, Condition
        th.current_thread = lambda: None
        tm = types.ModuleType("time")
        tm.sleep = S.sleep
        tm.time = tm.monotonic = lambda: 1e-3 * S.sleeps
        return th, tm

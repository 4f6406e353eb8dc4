"""Deterministic scheduler for real threads: one runs, the others are parked.

The schedule is data: `pre` is a list of [step, thread] pairs.  Without a
pre-emption the running thread keeps running until it ends, so an empty list is
the serial schedule, and removing entries is a legal way to minimise one.
"""
import sys
import threading
import _thread

_RealThread = threading.Thread
_RealSem = threading.Semaphore


class Deadlock(Exception):
    pass


class Scheduler(object):
    def __init__(self, ctx, pre, max_steps=400000, line_root=None, fs_steps=True):
        self.ctx = ctx
        self.pre = {}
        for step, thr in pre:
            self.pre.setdefault(int(step), int(thr))
        self.max_steps = max_steps
        self.step = 0
        self.threads = []
        self.sems = []
        self.done = []
        self.blocked = {}
        self.cur = None
        self.finished = _RealSem(0)
        self.by_ident = {}
        self.results = []
        self.line_root = line_root      # switch at lines of files below this path
        self.fs_steps = fs_steps
        self.switches = 0
        self.overrun = False
        self.before = None              # called in the thread before its body

    # -- set up
    def spawn(self, fn):
        idx = len(self.threads)
        self.sems.append(_RealSem(0))
        self.done.append(False)
        self.results.append(None)

        def body():
            self.by_ident[_thread.get_ident()] = idx
            self.sems[idx].acquire()
            try:
                if self.before:
                    self.before(idx)
                if self.line_root:
                    sys.settrace(self._global_trace)
                self.results[idx] = ("ok", fn())
            except BaseException as e:          # noqa: the result of the thread
                self.results[idx] = ("exc", e)
            finally:
                sys.settrace(None)
                self.done[idx] = True
                self._handover(idx, finished=True)

        t = _RealThread(target=body, daemon=True)
        self.threads.append(t)
        return idx

    def run(self):
        for t in self.threads:
            t.start()
        # every thread registers its ident before it may run
        self.cur = 0
        if not self.threads:
            return self.results
        old, ACTIVE[0] = ACTIVE[0], self
        self.sems[0].release()
        self.finished.acquire()
        ACTIVE[0] = old
        for t in self.threads:
            t.join()
        return self.results

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- switching
    def _runnable(self):
        return [i for i in range(len(self.threads))
                if not self.done[i] and not self._is_blocked(i)]

    def _is_blocked(self, i):
        cond = self.blocked.get(i)
        return cond is not None and not cond()

    def _handover(self, me, finished=False, to=None):
        run = self._runnable()
        if not run:
            if all(self.done):
                self.finished.release()
                return
            if not finished:
                raise Deadlock("every thread waits")
            self.finished.release()
            return
        if to is None or to not in run:
            to = next((i for i in run if i > (me if me is not None else -1)), run[0])
        self.cur = to
        self.switches += 1
        self.ctx.log("sw", self.step, me, "->", to)
        self.sems[to].release()
        if not finished:
            self.sems[me].acquire()

    def point(self, what):
        """A place where the running thread may be pre-empted."""
        me = self.me()
        if me is None or me != self.cur:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.overrun = True
            raise Deadlock("step budget used up at " + what)
        to = self.pre.get(self.step)
        if to is None:
            return
        run = [i for i in self._runnable() if i != me]
        if not run:
            return
        to = run[to % len(run)]
        self.ctx.log("pre", self.step, what)
        old = sys.gettrace()
        sys.settrace(None)
        try:
            self._handover(me, to=to)
        finally:
            sys.settrace(old)

    def wait_until(self, cond):
        me = self.me()
        if cond():
            return
        self.blocked[me] = cond
        while not cond():
            self._handover(me)
        self.blocked.pop(me, None)

    def _global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.line_root):
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line":
            self.point("L%d" % frame.f_lineno)
        return self._local_trace


ACTIVE = [None]


class CoopLock(object):
    """What code under test gets when it asks for a lock inside a simulation."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = ACTIVE[0]
        if self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None or s.me() is None:
                raise Deadlock("lock is held and nobody else runs")
            s.wait_until(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


def install_locks():
    """Locks created by modules under test cooperate with the scheduler."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def lock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("trappy"):
            return CoopLock()
        return real_lock()

    def rlock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("trappy"):
            return CoopRLock()
        return real_rlock()

    threading.Lock = lock
    threading.RLock = rlock
    import pyparsing
    # held while the parse actions of trappy's grammar run
    pyparsing.ParserElement.packrat_cache_lock = CoopRLock()


class LineInterrupt(object):
    """Raise an exception at the n-th line executed in files below root."""

    def __init__(self, root, nth, exc):
        self.root, self.nth, self.exc = root, nth, exc
        self.count = 0
        self.fired = False
        self.where = None

    def _g(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self._l
        return None

    def _l(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.nth and not self.fired:
                self.fired = True
                self.where = "%s:%d" % (frame.f_code.co_filename, frame.f_lineno)
                raise self.exc("simulated interrupt")
        return self._l

    def __enter__(self):
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

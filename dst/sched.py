"""sys.monitoring seam: deterministic thread scheduler and fault injection.

* Threads are real but exactly one runs at a time; who runs is decided only here, from the
  plan's list of (gap, choice) switch decisions, at line boundaries of library code.
* Faults: the k-th call that library code makes into an external library (numpy, scipy,
  soundfile, matplotlib, copy, pickle) raises the planned exception instead."""
import dis, sys, threading, _thread
import numpy as np

TOOL = 3
_CALL_EX = dis.opmap["CALL_FUNCTION_EX"]
mon = sys.monitoring
DISABLE = mon.DISABLE
_LIB = "/dsptoolbox/"
_EXT = ("numpy", "scipy", "soundfile", "_soundfile", "matplotlib", "seaborn", "copy", "pickle", "_pickle", "sounddevice")

_state = threading.local()


class _S:
    sched = None     # active scheduler
    fault = None     # armed fault
    on = False


_extcache = {}


def _is_ext(c):
    try:
        r = _extcache.get(c)
    except TypeError:
        return isinstance(getattr(c, "__self__", None), np.ndarray)
    if r is None:
        r = _classify(c)
        if len(_extcache) < 20000 and getattr(c, "__self__", None) is None:
            _extcache[c] = r
    return r


def _classify(c):
    if isinstance(c, np.ufunc):
        return True
    if isinstance(c, type):
        return False
    s = getattr(c, "__self__", None)
    if isinstance(s, np.ndarray):
        return True
    oc = getattr(c, "__objclass__", None)
    if oc is not None:
        return oc is np.ndarray
    m = getattr(c, "__module__", None)
    if not isinstance(m, str):
        m = type(c).__module__ or ""
    return m.split(".")[0] in _EXT


def _on_line(code, line):
    if _LIB not in code.co_filename:
        return DISABLE
    s = _S.sched
    if s is not None and code.co_name != "<module>":
        s.step()


def _on_call(code, off, callable_, arg0):
    if _LIB not in code.co_filename:
        return DISABLE
    f = _S.fault
    if f is not None and f.thread == _thread.get_ident() and _is_ext(callable_):
        f.count += 1
        # CPython 3.12 frees the argument object twice when a monitoring callback raises at a
        # `g(*sequence)` call: such a failure is moved to the next external call.
        if f.count >= f.k > 0 and not f.fired and code.co_code[off] != _CALL_EX:
            f.fired = True
            f.site = f"{code.co_filename.split(_LIB)[-1]}:{code.co_name}:{getattr(callable_, '__name__', '?')}"
            raise f.exc


def enable():
    if not _S.on:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.CALL, _on_call)
        mon.set_events(TOOL, mon.events.LINE | mon.events.CALL)
        _S.on = True


class Fault:
    def __init__(self, k, exc):
        self.k, self.exc, self.count, self.fired, self.site = k, exc, 0, False, None
        self.thread = None

    def __enter__(self):
        enable()
        self.thread = _thread.get_ident()
        _S.fault = self
        return self

    def __exit__(self, *a):
        _S.fault = None
        return False


def count_calls(fn):
    """Number of injectable external calls fn makes (its exception, if any, is kept)."""
    f = Fault(-1, None)
    with f:
        try:
            r, e = fn(), None
        except Exception as ex:
            r, e = None, ex
    return f.count, r, e


class _Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.ident = None


class Scheduler:
    """switches: list of [gap, choice]; after `gap` library lines control moves to task
    number `choice` modulo the number of live tasks."""

    def __init__(self, fns, switches, max_steps=3_000_000):
        self.tasks = [_Task(i, f) for i, f in enumerate(fns)]
        self.by_ident = {}
        self.sw = list(switches)
        self.pos = 0
        self.n = 0
        self.max = max_steps
        self.next_at = self.sw[0][0] if self.sw else None
        self.cur = None
        self.trace = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.switched = 0

    def run(self):
        enable()
        _S.sched = self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            self.cur = self.tasks[0]
            self.cur.lock.release()
            self.main.acquire()
        finally:
            _S.sched = None
        return self

    def _body(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            t.result = t.fn()
        except BaseException as e:  # kept for the oracle
            t.exc = e
        t.done = True
        del self.by_ident[t.ident]
        alive = [x for x in self.tasks if not x.done]
        if alive:
            self.cur = alive[0]
            self.trace.append((self.n, self.cur.i))
            self.cur.lock.release()
        else:
            self.main.release()

    def step(self):
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        self.n += 1
        if self.next_at is not None and self.n >= self.next_at:
            choice = self.sw[self.pos][1]
            self.pos += 1
            self.next_at = self.n + self.sw[self.pos][0] if self.pos < len(self.sw) else None
            alive = [x for x in self.tasks if not x.done]
            self._to(t, alive[choice % len(alive)])

    def _to(self, me, target):
        if target is me:
            return
        self.switched += 1
        self.trace.append((self.n, target.i))
        self.cur = target
        target.lock.release()
        me.lock.acquire()

    def blocked(self):
        """Current task cannot proceed (a library lock is taken): run someone else."""
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return False
        alive = [x for x in self.tasks if not x.done]
        if len(alive) < 2:
            raise RuntimeError("deadlock: task waits for a lock nobody can release")
        self.n += 1
        if self.n > self.max:
            raise RuntimeError("deadlock: step limit while waiting for locks")
        i = alive.index(t)
        self._to(t, alive[(i + 1) % len(alive)])
        return True


class SimLock:
    """threading.Lock/RLock seam so that library locks hand control to the scheduler."""

    def __init__(self, inner):
        self._l = inner

    def acquire(self, blocking=True, timeout=-1):
        s = _S.sched
        if s is None or _thread.get_ident() not in s.by_ident or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(object.__getattribute__(self, "_l"), k)


_RealLock, _RealRLock = threading.Lock, threading.RLock


def install_lock_seam():
    """Locks created by library code (only) become SimLocks."""
    def from_lib():
        f = sys._getframe(2)
        return _LIB in f.f_code.co_filename

    def Lock():
        return SimLock(_RealLock()) if from_lib() else _RealLock()

    def RLock(*a, **k):
        return SimLock(_RealRLock()) if from_lib() else _RealRLock()
    threading.Lock, threading.RLock = Lock, RLock


def gen_switches(r, n_tasks, scale=None):
    """Random preemption list: mixes long runs with dense bursts."""
    if scale is None:
        scale = r.choice([2, 5, 15, 60, 250])
    out = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 20, 60])):
        gap = 1 + int(r.expovariate(1.0 / scale))
        out.append([gap, r.randrange(n_tasks * 4)])
    return out

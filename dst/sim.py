"""The simulator: one process, real threads parked and released one at a time, simulated time.

Nothing in here reads a real clock or a global PRNG.  `install()` must run before rxls is imported.
Outside a running simulation every replaced primitive behaves like a plain, uncontended one.
"""

from __future__ import annotations

import _thread
import builtins
import io
import os
import random
import sys
import threading
import time
import weakref
import zlib
from collections import deque

_real_allocate = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_rlock = threading.RLock
_get_ident = _thread.get_ident

CUR: "Sim | None" = None  # the running simulation of this process (at most one)

RUN, BLOCKED, DONE = 0, 1, 2
FREE_STEPS = 4_000_000
TOOL = 3  # sys.monitoring tool id
ME = os.path.dirname(os.path.abspath(__file__))


class SimStop(BaseException):
    """Never raised into code under test; only used to leave `Sim.run` in the main thread."""


class Task:
    __slots__ = ("id", "name", "sem", "state", "wake_at", "timed_out", "waiting_on", "thread", "prio", "notsim", "pythread")

    def __init__(self, id: int, name: str) -> None:
        self.id = id
        self.name = name
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = RUN
        self.wake_at: float | None = None
        self.timed_out = False
        self.waiting_on = ""
        self.thread = None
        self.prio = 0.0
        self.notsim = 0  # >0: harness code, no preemption
        self.pythread = None


class Sim:
    """One simulated execution."""

    def __init__(self, sched: dict, *, max_steps: int = 3_000_000, log_keep: int = 4000) -> None:
        self.tasks: list[Task] = []
        self.cur: Task | None = None
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.env = 0  # tasks waiting for a delay or stall that the simulator injected
        self.free = 0  # steps made meanwhile
        self.sched = sched
        self.rng = random.Random(f"sched/{sched.get('seed', 0)}")
        self.policy = sched.get("policy", "none")
        self.p = float(sched.get("p", 0.02))
        self.devs_in = {int(k): int(v) for k, v in sched.get("devs", [])} if self.policy == "replay" else None
        self.devs: list[tuple[int, int]] = []
        self.active = False
        self.line_targets: tuple[str, ...] = tuple(sched.get("lines", ()))
        self.switches = 0
        self.preemptions = 0
        self.ihash = 0
        self.log: deque = deque(maxlen=log_keep)
        self.digest = 0
        self.uncaught: list[tuple[str, BaseException]] = []
        self.counts: dict[str, int] = {}
        self.abort_cb = None
        self.lineno_hits = 0
        self.on_line_fault = None  # callable(code, line) -> exception or None
        self._gap = 0
        self._pct: set[int] = set()
        if self.policy == "random":
            self._draw_gap()
        elif self.policy == "pct":
            n = int(sched.get("horizon", 4000))
            self._pct = {self.rng.randrange(1, max(2, n)) for _ in range(int(sched.get("depth", 4)))}
        self._low = -1.0
        self.hooks: dict = {}
        self.vfs = None

    # ------------------------------------------------------------------ bookkeeping
    def count(self, key: str, n: int = 1) -> None:
        self.counts[key] = self.counts.get(key, 0) + n

    def record(self, kind: str, detail: object = "") -> None:
        """Event log; never draws from the PRNG, never reads a clock."""
        t = self.cur.id if self.cur else -1
        ev = (self.steps, t, kind, detail)
        self.digest = zlib.crc32(repr(ev).encode("utf-8", "backslashreplace"), self.digest)
        self.log.append(ev)

    def _draw_gap(self) -> None:
        # geometric gap between preemption attempts
        p = self.p
        if p <= 0:
            self._gap = 1 << 60
            return
        g = 1
        r = self.rng.random()
        q = 1.0 - p
        acc = p
        cum = p
        while r > cum and g < 100_000:
            acc *= q
            cum += acc
            g += 1
        self._gap = g

    # ------------------------------------------------------------------ tasks
    def new_task(self, name: str) -> Task:
        t = Task(len(self.tasks), name)
        t.prio = self.rng.random()
        if self.policy == "first":
            t.prio = -float(len(self.tasks))  # earliest task first
        elif self.policy == "last":
            t.prio = float(len(self.tasks))  # latest task first (background work ahead)
        self.tasks.append(t)
        return t

    def runnable(self) -> list[Task]:
        return [t for t in self.tasks if t.state == RUN]

    def _pick(self, cands: list[Task], default: Task) -> Task:
        """Choose who runs next; `default` is what happens without a recorded deviation."""
        if self.devs_in is not None:
            want = self.devs_in.get(self.steps)
            if want is not None:
                for t in cands:
                    if t.id == want:
                        self.devs.append((self.steps, want))
                        return t
            return default
        if len(cands) == 1:
            return cands[0]
        pol = self.policy
        if pol == "random":
            ch = cands[self.rng.randrange(len(cands))]
        elif pol in ("pct", "first", "last"):
            ch = max(cands, key=lambda t: (t.prio, -t.id))
        elif pol == "rr":
            later = [t for t in cands if t.id > default.id]
            ch = later[0] if later else cands[0]
        else:
            ch = default
        if ch is not default:
            self.devs.append((self.steps, ch.id))
        return ch

    def _switch(self, nxt: Task, why: str) -> None:
        me = self.cur
        self.switches += 1
        self.ihash = zlib.crc32(f"{me.id if me else -1}>{nxt.id}@{why}".encode(), self.ihash)
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()

    def point(self, kind: str) -> None:
        """A possible preemption point of the running task."""
        if not self.active:
            return
        me = self.cur
        if me is None or me.notsim:
            return
        self.steps += 1
        self.now += 1e-6
        if self.steps - self.free > self.max_steps:
            self.abort("step-budget", f"more than {self.max_steps} steps")
        if self.env and self.free < FREE_STEPS:  # polling while the environment stalls is no endless work
            self.free += 1
        self._wake_due()
        dv = self.devs_in
        if dv is not None:
            if self.steps not in dv:
                return
        elif self.policy == "random":
            self._gap -= 1
            if self._gap > 0:
                return
            self._draw_gap()
        elif self.policy == "pct":
            if self.steps in self._pct:
                me.prio = self._low
                self._low -= 1.0
            elif len(self.tasks) == 1:
                return
        elif self.policy == "none":
            return
        elif self.policy == "rr":
            self._gap -= 1
            if self._gap > 0:
                return
            self._gap = int(self.sched.get("quantum", 50))
        cands = self.runnable()
        if len(cands) < 2:
            return
        nxt = self._pick(cands, me)
        if nxt is not me:
            self.preemptions += 1
            self._switch(nxt, kind)

    def _wake_due(self) -> None:
        for t in self.tasks:
            if t.state == BLOCKED and t.wake_at is not None and t.wake_at <= self.now:
                t.state = RUN
                t.timed_out = True
                t.wake_at = None

    def block(self, what: str, timeout: float | None = None) -> bool:
        """Park the running task until woken (True) or until `timeout` passed (False)."""
        if not self.active:
            raise RuntimeError(f"dst: blocking on {what} outside a simulation")
        me = self.cur
        self.steps += 1
        if self.steps - self.free > self.max_steps:
            self.abort("step-budget", f"more than {self.max_steps} steps")
        if self.env and self.free < FREE_STEPS:  # polling while the environment stalls is no endless work
            self.free += 1
        me.state = BLOCKED
        me.waiting_on = what
        me.timed_out = False
        me.wake_at = None if timeout is None else self.now + max(timeout, 0.0)
        self._dispatch(me, what)
        me.waiting_on = ""
        return not me.timed_out

    def _dispatch(self, me: Task, why: str) -> None:
        """Hand the processor over; `me` is BLOCKED or DONE."""
        cands = self.runnable()
        while not cands:
            timers = [t.wake_at for t in self.tasks if t.state == BLOCKED and t.wake_at is not None]
            if not timers:
                self.abort("deadlock", "; ".join(f"{t.name} waits on {t.waiting_on}" for t in self.tasks if t.state == BLOCKED))
            self.now = max(self.now, min(timers))
            self._wake_due()
            cands = self.runnable()
        default = cands[0]
        nxt = self._pick(cands, default)
        if nxt is me:  # own timer fired
            return
        if me.state == DONE:
            self.switches += 1
            self.ihash = zlib.crc32(f"{me.id}!>{nxt.id}@{why}".encode(), self.ihash)
            self.cur = nxt
            nxt.sem.release()
        else:
            self._switch(nxt, why)

    def wake(self, t: Task) -> None:
        if t.state == BLOCKED:
            t.state = RUN
            t.wake_at = None
            t.timed_out = False

    def sleep(self, d: float, what: str = "sleep") -> None:
        if self.active and self.cur is not None:
            env = what not in ("sleep", "drain")
            self.env += env
            try:
                self.block(what, max(d, 0.0))
            finally:
                self.env -= env

    def abort(self, kind: str, detail: str) -> None:
        """The run cannot go on (deadlock, step budget): report and end this process."""
        self.active = False
        self.record("abort", kind)
        stacks = {}
        try:
            import traceback

            frames = sys._current_frames()
            for t in self.tasks:
                if t.state != DONE and t.thread in frames:
                    fs = [f for f in traceback.extract_stack(frames[t.thread]) if not f.filename.startswith(ME)]
                    stacks[t.name] = [f"{f.filename}:{f.name}" for f in fs[-4:]]
        except Exception:  # noqa: BLE001
            pass
        if self.abort_cb is not None:
            self.abort_cb(kind, detail, stacks)
        os._exit(97)

    # ------------------------------------------------------------------ threads
    def start_thread(self, fn, args, kwargs=None):
        t = self.new_task(f"bg{len(self.tasks)}")
        t.pythread = getattr(fn, "__self__", None)
        self.record("thread-start", t.name)
        self.count("thread_start")

        def boot():
            t.thread = _get_ident()
            t.sem.acquire()
            try:
                fn(*args, **(kwargs or {}))
            finally:
                self.record("thread-end", t.name)
                t.state = DONE
                for x in self.tasks:
                    if x.state == BLOCKED and x.waiting_on == f"join{t.id}":
                        self.wake(x)
                if self.active:
                    self._dispatch(t, "end")

        ident = _real_start_new_thread(boot, ())
        t.thread = ident
        self.point("spawn")
        return ident

    def task_of_thread(self, th) -> Task | None:
        for t in self.tasks:
            if t.pythread is th:
                return t
        return None

    def join_task(self, t: Task, timeout: float | None = None) -> bool:
        self.point("join")
        end = None if timeout is None else self.now + timeout
        while t.state != DONE:
            left = None if end is None else end - self.now
            if left is not None and left <= 0:
                return False
            self.block(f"join{t.id}", left)
        return True

    # ------------------------------------------------------------------ running
    def run(self, fn):
        """Run `fn` as task 0 in the calling thread. Returns its result (exceptions propagate)."""
        global CUR
        CUR = self
        t = self.new_task("main")
        t.thread = _get_ident()
        self.cur = t
        self.active = True
        for x in list(_shared):
            x._reset()
        monitoring_on(self)
        try:
            return fn()
        finally:
            monitoring_off()
            self.active = False

    def live_background(self) -> list[Task]:
        return [t for t in self.tasks[1:] if t.state != DONE]


# ---------------------------------------------------------------------- line preemption
_targets_cache: dict = {}


def _on_line(code, line):
    s = CUR
    if s is None:
        return None
    k = _targets_cache.get(code)
    if k is None:
        fn = code.co_filename
        k = _targets_cache[code] = next((x for x in s.line_targets if x in fn), "") if not fn.startswith(ME) else ""
    if not k:
        return sys.monitoring.DISABLE
    if not s.active or s.cur.notsim or s.cur.thread != _get_ident():
        return None
    s.lineno_hits += 1
    f = s.on_line_fault
    if f is not None:
        e = f(code, line)
        if e is not None:
            raise e
    s.point(code.co_name)
    return None


def monitoring_on(sim: Sim) -> None:
    if not sim.line_targets and sim.on_line_fault is None:
        return
    _targets_cache.clear()
    m = sys.monitoring
    m.use_tool_id(TOOL, "dst")
    m.register_callback(TOOL, m.events.LINE, _on_line)
    m.set_events(TOOL, m.events.LINE)
    m.restart_events()


def monitoring_off() -> None:
    m = sys.monitoring
    if m.get_tool(TOOL) == "dst":
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


class harness:
    """Context manager: the running task executes harness code, no preemption inside."""

    def __enter__(self):
        self.t = CUR.cur if CUR is not None and CUR.active else None
        if self.t is not None:
            self.t.notsim += 1
        return self

    def __exit__(self, *_):
        if self.t is not None:
            self.t.notsim -= 1


# ---------------------------------------------------------------------- primitives
def _live() -> bool:
    return CUR is not None and CUR.active


class SimLock:
    """threading.Lock under the scheduler."""

    def __init__(self) -> None:
        self._held = False
        self._waiters: list[Task] = []

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        if not _live():
            if self._held:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("dst: lock contended outside a simulation")
            self._held = True
            return True
        s = CUR
        s.point("lock")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._held:
            if not blocking:
                return False
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            self._waiters.append(s.cur)
            me = s.cur
            s.block("lock", left)
            if me in self._waiters:
                self._waiters.remove(me)
        self._held = True
        return True

    acquire_lock = acquire

    def release(self) -> None:
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        if _live():
            for t in self._waiters:
                CUR.wake(t)
            self._waiters.clear()
            CUR.point("unlock")

    release_lock = release

    def locked(self) -> bool:
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    """threading.RLock under the scheduler."""

    def __init__(self) -> None:
        self._owner: object = None
        self._count = 0
        self._waiters: list[Task] = []

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me_id = _get_ident()
        if self._owner == me_id:
            self._count += 1
            return True
        if not _live():
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("dst: rlock contended outside a simulation")
            self._owner, self._count = me_id, 1
            return True
        s = CUR
        s.point("rlock")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            me = s.cur
            self._waiters.append(me)
            s.block("rlock", left)
            if me in self._waiters:
                self._waiters.remove(me)
        self._owner, self._count = me_id, 1
        return True

    def release(self) -> None:
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if _live():
                for t in self._waiters:
                    CUR.wake(t)
                self._waiters.clear()
                CUR.point("unrlock")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


_shared: "weakref.WeakSet[SharedLock]" = weakref.WeakSet()


class SharedLock:
    """A lock made outside a simulation (module level, say): real outside, scheduled inside a simulation.

    It outlives a run, so a run that ends with it held (abandoned thread) does not hand that on to the next."""

    __slots__ = ("_real", "_make", "_waiters", "_held_in", "__weakref__")

    def __init__(self, make) -> None:
        self._make = make
        self._real = make()
        self._waiters: list[Task] = []
        self._held_in = 0
        _shared.add(self)

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        if not _live():
            return self._real.acquire(blocking, timeout)
        s = CUR
        s.point("lock")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while not self._real.acquire(False):
            if not blocking:
                return False
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            me = s.cur
            self._waiters.append(me)
            s.block("lock", left)
            if me in self._waiters:
                self._waiters.remove(me)
        self._held_in += 1
        return True

    acquire_lock = acquire

    def release(self) -> None:
        self._real.release()
        if _live():
            self._held_in = max(0, self._held_in - 1)
            for t in self._waiters:
                CUR.wake(t)
            self._waiters.clear()
            CUR.point("unlock")

    release_lock = release

    def locked(self) -> bool:
        if self._make is _real_allocate:
            return self._real.locked()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _reset(self) -> None:
        self._waiters.clear()
        if self._held_in:
            self._real = self._make()
            self._held_in = 0

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()
        self._waiters.clear()
        self._held_in = 0


class SharedRLock(SharedLock):
    __slots__ = ()

    def _is_owned(self):
        return self._real._is_owned()

    def _release_save(self):
        st = self._real._release_save()
        if _live():
            self._held_in = 0
            for t in self._waiters:
                CUR.wake(t)
            self._waiters.clear()
        return st

    def _acquire_restore(self, st):
        if not _live():
            self._real._acquire_restore(st)
            return
        self.acquire()
        self._real.release()
        self._real._acquire_restore(st)
        self._held_in = st[0]

    def _recursion_count(self):
        return self._real._recursion_count()


class SimSimpleQueue:
    """queue.SimpleQueue under the scheduler."""

    __class_getitem__ = classmethod(lambda cls, _: cls)

    def __init__(self) -> None:
        self._d: deque = deque()
        self._waiters: list[Task] = []

    def put(self, item, block=True, timeout=None) -> None:
        s = CUR
        if s is not None and s.active:
            hook = s.hooks.get("put")
            if hook is not None:
                hook(item)
            self._d.append(item)
            for t in self._waiters:
                s.wake(t)
            self._waiters.clear()
            s.point("put")
        else:
            self._d.append(item)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue

        s = CUR
        if s is None or not s.active:
            if self._d:
                return self._d.popleft()
            raise queue.Empty
        hook = s.hooks.get("get")
        if hook is not None:
            hook()
        s.point("get")
        end = None if timeout is None else s.now + timeout
        while not self._d:
            if not block:
                raise queue.Empty
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                raise queue.Empty
            me = s.cur
            self._waiters.append(me)
            s.block("queue", left)
            if me in self._waiters:
                self._waiters.remove(me)
        return self._d.popleft()

    def get_nowait(self):
        return self.get(block=False)

    def empty(self) -> bool:
        if _live():
            CUR.point("empty")
        return not self._d

    def qsize(self) -> int:
        if _live():
            CUR.point("qsize")
        return len(self._d)


def _lock_factory():
    return SimLock() if _live() else SharedLock(_real_allocate)


def _rlock_factory(*_a, **_k):
    return SimRLock() if _live() else SharedRLock(_real_rlock)


def _start_new_thread(fn, args, kwargs=None):
    s = CUR
    if s is None or not s.active:
        return _real_start_new_thread(fn, args, *([kwargs] if kwargs else []))
    hook = s.hooks.get("spawn")
    if hook is not None:
        hook()
    return s.start_thread(fn, args, kwargs)


_installed = False


def install() -> None:
    """Replace the interpreter's sources of nondeterminism. Before rxls is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import queue

    assert "rxls" not in sys.modules, "install() must precede the import of rxls"
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._start_new_thread = _start_new_thread
    threading._PyRLock = _rlock_factory
    _thread.start_new_thread = _start_new_thread
    _thread.start_new = _start_new_thread
    _thread.allocate_lock = _lock_factory
    _thread.allocate = _lock_factory
    queue.SimpleQueue = SimSimpleQueue
    import concurrent.futures.thread as cft

    if not isinstance(cft._global_shutdown_lock, SharedLock):
        cft._global_shutdown_lock = SharedLock(_real_allocate)

    _orig_wait = threading.Thread._wait_for_tstate_lock

    def _wait(self, block=True, timeout=-1):
        s = CUR
        if s is not None:
            t = s.task_of_thread(self)
            if t is not None:
                if t.state == DONE:
                    self._is_stopped = True
                    return
                if not block:
                    s.point("is_alive")
                    if t.state == DONE:
                        self._is_stopped = True
                    return
                if s.active and s.join_task(t, None if timeout is None or timeout < 0 else timeout):
                    self._is_stopped = True
                return
        _orig_wait(self, block, timeout)

    threading.Thread._wait_for_tstate_lock = _wait

    real_hook = threading.excepthook

    def hook(args):
        s = CUR
        if s is not None:
            with harness():
                if args.exc_type is not SystemExit:
                    s.uncaught.append((getattr(args.thread, "name", "?"), args.exc_value))
                    s.record("uncaught", f"{args.exc_type.__name__}")
        else:
            real_hook(args)

    threading.excepthook = hook

    real_unraisable = sys.unraisablehook

    def uhook(u):
        s = CUR
        if s is not None:
            s.uncaught.append(("unraisable", u.exc_value))
            s.record("unraisable", getattr(u.exc_type, "__name__", "?"))
        else:
            real_unraisable(u)

    sys.unraisablehook = uhook

    real = {n: getattr(time, n) for n in ("sleep", "monotonic", "time", "perf_counter", "monotonic_ns", "time_ns", "perf_counter_ns")}
    install.real_time = real
    EPOCH = 1_700_000_000.0

    def _sleep(d):
        if _live():
            CUR.sleep(d)
        else:
            real["sleep"](d)

    def _mk(name, base, ns):
        def f():
            if CUR is not None:
                if CUR.active and not CUR.cur.notsim:
                    CUR.point("clock")
                v = base + CUR.now
                return int(v * 1e9) if ns else v
            return real[name]()

        return f

    time.sleep = _sleep
    time.monotonic = _mk("monotonic", 1000.0, False)
    time.time = _mk("time", EPOCH, False)
    time.perf_counter = _mk("perf_counter", 1000.0, False)
    time.monotonic_ns = _mk("monotonic_ns", 1000.0, True)
    time.time_ns = _mk("time_ns", EPOCH, True)
    time.perf_counter_ns = _mk("perf_counter_ns", 1000.0, True)
    threading._time = time.monotonic
    queue.time = time.monotonic

    from . import simfs

    simfs.install()

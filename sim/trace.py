"""Control over execution inside enolib: event counting, step budgets, exception injection, thread schedules.

One *event* = the call, a line, or the return of a function whose source lies under the enolib package
(in opcode mode: one bytecode instruction). Everything here hangs off sys.settrace and sys.monitoring, so /repo needs no hooks.
"""
import gc
import sys
import threading
import time
import types
import _thread

_sleep = time.sleep
ROOT = None             # set by core.load(): directory of the enolib package, with trailing separator
_mine = {}


def is_mine(code):
    name = code.co_filename
    m = _mine.get(name)
    if m is None:
        m = _mine[name] = name.startswith(ROOT)
    return m


class Stuck(BaseException):
    """The step budget of a run is used up: the code under test does not terminate (or grossly exceeds its bound)"""


class Deadlock(BaseException):
    """Every simulated thread waits for a lock"""


class SimTimeout(Exception):
    """What a signal-based timeout raises in the middle of anything"""


class SimCancel(BaseException):
    """What a cancelled task sees"""


ASYNC = {'KeyboardInterrupt': KeyboardInterrupt, 'SimTimeout': SimTimeout, 'SimCancel': SimCancel, 'MemoryError': MemoryError,
         'SystemExit': SystemExit}


def trace(on_event, opcodes=False):
    """Call on_event() at every event of this thread"""
    if opcodes:
        return monitor(on_event)

    def local(frame, event, arg):
        if event != 'exception':
            on_event()
        return local

    def enter(frame, event, arg):
        if not is_mine(frame.f_code):
            return None
        on_event()
        return local

    sys.settrace(enter)


def untrace():
    sys.settrace(None)
    if _handlers.pop(_thread.get_ident(), None) is not None and not _handlers:
        sys.monitoring.register_callback(_tool, sys.monitoring.events.INSTRUCTION, None)


# Instruction events come from sys.monitoring, switched on once for all code of enolib before anything runs: turning
# frame.f_trace_opcodes on while several threads run makes CPython 3.12 crash.
_handlers = {}          # thread -> on_event
_tool = 4
_monitored = {}


def _instruction(code, offset):
    f = _handlers.get(_thread.get_ident())
    if f is not None:
        f()


def monitor(on_event):
    m = sys.monitoring
    if m.get_tool(_tool) is None:
        m.use_tool_id(_tool, 'sim')
    if not _monitored:
        for f in gc.get_objects():
            if isinstance(f, types.FunctionType):
                _include(f.__code__)
    if not _handlers:
        m.register_callback(_tool, m.events.INSTRUCTION, _instruction)
    _handlers[_thread.get_ident()] = on_event


def _include(code):
    if not is_mine(code) or id(code) in _monitored:
        return
    _monitored[id(code)] = code
    sys.monitoring.set_local_events(_tool, code, sys.monitoring.events.INSTRUCTION)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _include(c)


def count(fn, opcodes=False, limit=10**9):
    """Run fn() under a counter; returns (result, events). Raises Stuck beyond the limit."""
    n = 0

    def event():
        nonlocal n
        n += 1
        if n > limit:
            raise Stuck(limit)

    trace(event, opcodes)
    try:
        r = fn()
    finally:
        untrace()
    return r, n


class Injected:
    def __init__(self):
        self.fired = False
        self.error = None
        self.swallowed = False      # by the interpreter, while it disposed of a generator


unraisable = []


def quiet():
    """keep what the interpreter can not raise instead of printing it"""
    sys.unraisablehook = lambda u: unraisable.append(u.exc_value)


def inject(fn, k, make, opcodes=False, limit=10**9):
    """Run fn(), raising make() at its k-th event. Returns (fired, 'value'|'raise', payload, the injected exception)."""
    n = 0
    st = Injected()

    def event():
        nonlocal n
        n += 1
        if n == k:
            st.fired = True
            st.error = make()
            raise st.error
        if n > limit:
            raise Stuck(limit)

    trace(event, opcodes)
    try:
        try:
            r = ('value', fn())
        finally:
            untrace()
    except BaseException as e:
        r = ('raise', e)
    st.swallowed = any(e is st.error for e in unraisable)
    return st, r[0], r[1]


def nest(fn, points, opcodes=False):
    """Run fn(); at its k-th event call what points[k] says, on top of whatever is going on, as a signal handler would be.
    Events of what is called do not count. Returns ('value' | 'raise', payload)."""
    n = 0
    me = _thread.get_ident()

    def event():
        nonlocal n
        n += 1
        if n in points:
            handler = _handlers.pop(me, None)       # (a trace function is not traced anyway)
            try:
                points[n]()
            finally:
                if handler is not None:
                    _handlers[me] = handler

    trace(event, opcodes)
    try:
        try:
            return 'value', fn()
        finally:
            untrace()
    except BaseException as e:
        return 'raise', e


def starve(fn, frames):
    """Run fn() with only `frames` more stack frames available"""
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + frames)
    try:
        r = ('value', fn())
    except BaseException as e:
        r = ('raise', e)
    finally:
        sys.setrecursionlimit(old)
    return r


def in_thread(fn):
    """fn() in a thread of its own; returns or raises what it does"""
    done = _thread.allocate_lock()
    done.acquire()
    out = []

    def body():
        try:
            out.append((True, fn()))
        except BaseException as e:
            out.append((False, e))
        finally:
            done.release()

    _thread.start_new_thread(body, ())
    done.acquire()
    ok, what = out[0]
    if ok:
        return what
    raise what


class Scheduler:
    """Real threads, one running at a time; who runs is decided by `segments`, a list of [thread, events]."""

    def __init__(self, segments, limit, kills=None, opcodes=False):
        self.segments = [tuple(s) for s in segments]
        self.limit = limit
        self.kills = kills or {}            # thread -> [event number, exception factory]
        self.opcodes = opcodes
        self.steps = 0
        self.own = []                       # events per thread
        self.switches = 0
        self.trail = []                     # (thread, events run) actually executed
        self.left = 0
        self.ran = 0
        self.current = None
        self.blocked = {}
        self.deadlock = False
        self.stuck = False
        self.killed = {}
        self.muted = False          # the simulator itself is looking

    def _next(self):
        """who runs next (None: nobody left)"""
        while self.segments:
            t, q = self.segments.pop(0)
            if t < len(self.alive) and self.alive[t] and not self._is_blocked(t) and q > 0:
                self.left = q
                return t
        self.left = 1 << 60
        order = [t for t in range(len(self.alive)) if self.alive[t] and not self._is_blocked(t)]
        if order:
            return order[0]
        return None

    def _is_blocked(self, t):
        lock = self.blocked.get(t)
        return lock is not None and lock.held()

    def _record(self):
        if self.ran:
            self.trail.append((self.current, self.ran))
        self.ran = 0

    def _switch_from(self, t):
        nxt = self._next()
        if nxt is None or nxt == t:
            return nxt
        self._record()
        self.switches += 1
        self.current = nxt
        self.gates[nxt].release()
        if self.alive[t]:
            self.gates[t].acquire()
        return nxt

    def event(self, t):
        if self.muted:
            return
        self.steps += 1
        self.own[t] += 1
        self.ran += 1
        kill = self.kills.get(t)
        if kill is not None and self.own[t] == kill[0]:
            e = self.killed[t] = kill[1]()
            raise e
        if self.steps > self.limit:
            self.stuck = True
            raise Stuck(self.limit)
        self.left -= 1
        if self.left <= 0:
            self._switch_from(t)

    def wait(self, lock):
        """the running thread cannot get a lock: let others go on until it is free"""
        t = self.current
        self.blocked[t] = lock
        while lock.held():
            if self._switch_from(t) is None:
                self.deadlock = True
                self.blocked.pop(t, None)
                raise Deadlock()
        self.blocked.pop(t, None)

    def nap(self):
        """the running thread sleeps: some other goes on"""
        t, n = self.current, len(self.alive)
        others = [u % n for u in range(t + 1, t + n) if self.alive[u % n] and not self._is_blocked(u % n)]
        if others:
            self._record()
            self.switches += 1
            self.current = others[0]
            self.left = max(self.left, 20)
            self.gates[self.current].release()
            self.gates[t].acquire()

    def run(self, programs):
        n = len(programs)
        self.alive = [True] * n
        self.own = [0] * n
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        main = _thread.allocate_lock()
        main.acquire()
        for g in self.gates:
            g.acquire()

        def body(t):
            self.gates[t].acquire()
            trace(lambda: self.event(t), self.opcodes)
            try:
                programs[t]()
            except BaseException as e:      # programs catch what they expect; this is for stuck / deadlock
                self.escaped[t] = e
            finally:
                untrace()
                self.alive[t] = False
                if self._switch_from(t) is None:
                    self._record()
                    main.release()

        self.escaped = {}
        for t in range(n):
            _thread.start_new_thread(body, (t,))
        global active
        active = self
        self.current = self._next()
        self.gates[self.current].release()
        main.acquire()
        active = None


active = None


class SimLock:
    """Cooperative stand-in for threading.Lock / RLock inside enolib, should it ever use one"""
    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def held(self):
        return self.depth > 0

    def _me(self):
        return active.current if active is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        if self.depth and not (self.reentrant and self.owner == self._me()):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if active is not None:
                active.wait(self)
            else:               # threads nobody schedules
                idle = 0
                for _ in range(20_000):
                    idle = 0 if _thread._count() else idle + 1
                    if not self.depth or idle > 200:
                        break
                    _sleep(.0005)
                if self.depth:
                    raise Deadlock()
        self.owner, self.depth = self._me(), self.depth + 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.depth > 0

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def sim_locks():
    """Make enolib get cooperative locks; returns an undo function"""
    saved = threading.Lock, threading.RLock, threading._allocate_lock
    threading.Lock = threading._allocate_lock = SimLock        # (conditions and events wait on locks too)
    threading.RLock = lambda: SimLock(True)

    def undo():
        threading.Lock, threading.RLock, threading._allocate_lock = saved
    return undo


class Clock:
    """Time as enolib sees it, should it ever look: it goes on by itself, by anything from a microsecond to days from one look to
    the next, and the wall clock is set back now and then. Nobody waits."""
    STEPS = [1e-6, 1e-6, 1e-3, 1e-3, .5, 61, 3600, 86400 * 30]

    def __init__(self):
        self.t, self.offset, self.looks, self.state = 1e6, 1.7e9, 0, 1

    def draw(self, n):
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.state >> 33) % n

    def monotonic(self):
        self.looks += 1
        self.t += self.STEPS[self.draw(len(self.STEPS))]
        return self.t

    def time(self):
        now = self.monotonic()
        if not self.draw(8):
            self.offset -= self.STEPS[self.draw(len(self.STEPS))]
        return now + self.offset

    def sleep(self, seconds):
        self.looks += 1
        self.t += seconds
        if active is not None and hasattr(active, 'nap'):
            active.nap()


clock = Clock()


def sim_time():
    """Make enolib get simulated time"""
    time.sleep = clock.sleep
    time.time = clock.time
    time.time_ns = lambda: int(clock.time() * 1e9)
    for name in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, name, clock.monotonic)
        setattr(time, name + '_ns', lambda: int(clock.monotonic() * 1e9))

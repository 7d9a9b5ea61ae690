"""Deterministic scheduler.

Caller threads of the code under test are real threads parked on batons: one
runs at a time, and the plan (not the operating system) decides at which
bytecode instruction of the code under test the next one takes over.  The same
trace hook raises asynchronous faults (KeyboardInterrupt, MemoryError) at a
chosen instruction.  I/O seams, simulated locks and sleeps are further
scheduling points."""

import _thread
import dis
import hashlib
import sys

from . import loader

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread

_INF = 1 << 60

# Within one traced operation a function is stepped through instruction by
# instruction the first CALLS times it is called, and runs as one step later
# (building or clearing a whole bank calls the same few functions thousands
# of times).
CALLS = 300

current = None          # the active Sched, if any


class SimAbort(BaseException):
    """Unwinds a parked task after the run was abandoned."""


class SimHang(BaseException):
    """A step or event budget was exhausted."""


_mine = {}              # code -> bool


def _is_mine(code):
    r = _mine.get(code)
    if r is None:
        r = _mine[code] = loader.under_repo(code.co_filename)
    return r


# ---- which instructions an asynchronous fault may hit ----------------------

_elig = {}
_RELEASE = {"release", "close", "__exit__", "notify", "notify_all"}
_ALLOC = {"BINARY_OP", "BINARY_SLICE", "BINARY_SUBSCR", "STORE_SLICE",
          "LIST_APPEND", "LIST_EXTEND", "FORMAT_VALUE", "COMPARE_OP",
          "UNARY_INVERT", "UNARY_NEGATIVE", "FOR_ITER", "STORE_SUBSCR",
          "BEFORE_WITH"}


_HANDLER = {"PUSH_EXC_INFO", "WITH_EXCEPT_START", "RERAISE", "POP_EXCEPT",
            "CLEANUP_THROW", "COPY"}


def eligibility(code):
    """offset -> bit 1: an interrupt may be delivered here; bit 2: an
    allocation failure may be raised here.  The clean-up instructions of with
    and finally blocks are never hit (CPython checks for signals only after
    calls, at loop back-edges and on entry)."""
    e = _elig.get(code)
    if e is not None:
        return e
    ins = [i for i in dis.get_instructions(code) if i.opname != "CACHE"]
    lines = {}
    line = None
    for i in ins:
        if i.starts_line is not None:
            line = i.starts_line
        lines[i.offset] = line
    bad = set()
    for i in ins:
        if i.argval in _RELEASE and isinstance(i.argval, str):
            bad.add(lines[i.offset])
    e = {}
    prev = None
    for n, i in enumerate(ins):
        bits = 0
        window = ins[max(0, n - 3):n + 4]
        nones = [w for w in window if w.opname == "LOAD_CONST"
                 and w.argval is None]
        exit_seq = len(nones) >= 3
        if i.opname in _HANDLER or (prev is not None and
                                    prev.opname in _HANDLER):
            exit_seq = True
        if lines[i.offset] not in bad and not exit_seq:
            if i.starts_line is not None or prev is None or \
                    prev.opname.startswith("CALL") or \
                    prev.opname in ("RESUME", "JUMP_BACKWARD", "STORE_ATTR",
                                    "STORE_SUBSCR"):
                bits |= 1
            if i.opname in _ALLOC or i.opname.startswith("BUILD_") or \
                    i.opname.startswith("CALL"):
                bits |= 2
        e[i.offset] = bits
        prev = i
    _elig[code] = e
    return e


# ---- simulated locks -------------------------------------------------------

class SimLock:
    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        while self._held:
            if not blocking:
                return False
            s = current
            if s is None or s.me() is None:
                raise SimHang("lock never released")
            if timeout is not None and timeout >= 0:
                s.point()
                return False if self._held else self.acquire(False)
            s.block(lambda: not self._held)
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = s.me() if s else None
        me = me if me is not None else "main"
        while self._count and self._owner != me:
            if not blocking:
                return False
            if s is None or s.me() is None:
                raise SimHang("lock never released")
            s.block(lambda: not self._count)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = current
        me = s.me() if s else None
        me = me if me is not None else "main"
        return self._count > 0 and self._owner == me

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        return c, o

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state


# ---- tasks -----------------------------------------------------------------

class Task:
    __slots__ = ("idx", "fn", "baton", "done", "blocked", "fault_left",
                 "fault_exc", "fault_bit", "fired", "error", "ops", "tracing")

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.baton = _alloc()
        self.baton.acquire()
        self.done = False
        self.blocked = None
        self.fault_left = _INF
        self.fault_exc = None
        self.fault_bit = 0
        self.fired = None
        self.error = None
        self.ops = 0
        self.tracing = False


class Sched:
    """switches: list of [gap, pick]; after `gap` further steps the baton goes
    to the pick-th other runnable task.  When the list runs out, tasks run to
    completion in index order."""

    def __init__(self, switches=(), max_steps=20_000_000, on_switch=None):
        self.switches = list(switches)
        self.tasks = []
        self.cur = None
        self.left = 0
        self.chunk = 0
        self.switch_left = self._gap()
        self.steps = 0
        self.max_steps = max_steps
        self.nswitch = 0
        self.main = _alloc()
        self.main.acquire()
        self.abort = None
        self.deadlock = False
        self.on_switch = on_switch
        self.digest = hashlib.blake2b(digest_size=8)
        self.clock = 0.0

    def _gap(self):
        if self.switches:
            return max(1, self.switches[0][0])
        return _INF

    # -- setup
    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def me(self):
        return self.cur.idx if self.cur else None

    def run(self, first=0):
        global current
        prev, current = current, self
        try:
            for t in self.tasks:
                _start(self._body, (t,))
            if self.tasks:
                self._give(self.tasks[first % len(self.tasks)])
                self.main.acquire()
        finally:
            current = prev
        self.cur = None
        if isinstance(self.abort, SimHang):
            raise self.abort
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        if self.deadlock:
            raise SimHang("all tasks blocked")

    def _body(self, t):
        t.baton.acquire()
        try:
            if self.abort is None:
                try:
                    t.fn(t)
                finally:
                    sys.settrace(None)
                    t.tracing = False
        except SimAbort:
            pass
        except BaseException as e:      # harness error or Violation
            t.error = e
            if self.abort is None:
                self.abort = SimAbort()
                if isinstance(e, SimHang):
                    self.abort = e
        t.done = True
        self._account()
        nxt = self._pick_next(None)
        if nxt is None:
            self.main.release()
        else:
            self._give(nxt)

    def _give(self, t):
        if self.on_switch is not None and t is not self.cur:
            self.on_switch(self.cur, t)
        self.cur = t
        self._arm()
        t.baton.release()

    def _account(self):
        n = self.chunk - self.left
        self.steps += n
        self.switch_left -= n
        if self.cur is not None:
            self.cur.fault_left -= n
        self.chunk = self.left

    def _arm(self):
        t = self.cur
        m = self.switch_left
        if t.fault_left < m:
            m = t.fault_left
        if m > 1_000_000:
            m = 1_000_000
        if m < 1:
            m = 1
        self.left = self.chunk = m

    def _runnable(self, t):
        if t.done:
            return False
        if t.blocked is not None:
            if self.abort is not None or t.blocked():
                return True
            return False
        return True

    def _pick_next(self, pick):
        me = self.cur
        n = len(self.tasks)
        base = me.idx if me else 0
        order = [self.tasks[(base + 1 + i) % n] for i in range(n)]
        cand = [t for t in order if self._runnable(t)]
        if not cand:
            if any(not t.done for t in self.tasks):
                self.deadlock = True
                if self.abort is None:
                    self.abort = SimHang("all tasks blocked")
                return next(t for t in order if not t.done)
            return None
        if pick is None:
            return cand[0]
        others = [t for t in cand if t is not me] or cand
        return others[pick % len(others)]

    def _swap(self, t, nxt):
        """Called by the running task t: hand over and wait for the baton."""
        if nxt is t:
            self._arm()
            return
        self.nswitch += 1
        self.digest.update(b"%d>%d@%d;" % (t.idx, nxt.idx, self.steps))
        self._give(nxt)
        t.baton.acquire()
        if self.abort is not None:
            raise SimAbort()

    def _due(self, t):
        if self.steps > self.max_steps:
            self.abort = SimHang("step budget exhausted")
            raise self.abort
        if self.switch_left <= 0:
            sw = self.switches.pop(0) if self.switches else [0, 0]
            self.switch_left = self._gap()
            nxt = self._pick_next(sw[1])
            if nxt is not None and nxt is not t:
                self._swap(t, nxt)
                return
        self._arm()

    # -- scheduling points outside traced code
    def point(self):
        t = self.cur
        if t is None:
            return
        self.left -= 1
        self._account()
        self._due(t)

    def block(self, ready):
        t = self.cur
        self._account()
        t.blocked = ready
        while not ready():
            if self.abort is not None:
                t.blocked = None
                raise SimAbort()
            nxt = self._pick_next(None)
            if nxt is t and not ready():
                t.blocked = None
                raise self.abort if self.abort else SimAbort()
            if nxt is t:
                break
            self._swap(t, nxt)
        t.blocked = None
        self._arm()

    # -- traced code
    def tracer(self, t):
        sched = self

        def local(frame, event, arg):
            if event == "opcode":
                sched.left -= 1
                if sched.left <= 0:
                    try:
                        sched._slow(t, frame)
                    except BaseException:
                        # CPython 3.12 ends the tracing of this thread, but
                        # still calls its (now null) trace function in a
                        # handler of a frame that asks for opcode events
                        f = frame
                        while f is not None:
                            if f.f_trace_opcodes:
                                f.f_trace_opcodes = False
                            f = f.f_back
                        raise
            elif event == "return":
                # a generator may be resumed where nothing is traced; CPython
                # 3.12 would then call a null trace function
                frame.f_trace_opcodes = False
            return local

        seen = {}

        def glob(frame, event, arg):
            code = frame.f_code
            m = _mine.get(code)
            if m is None:
                m = _is_mine(code)
            if m:
                n = seen[code] = seen.get(code, 0) + 1
                if n > CALLS:
                    return None
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None
        return glob

    def _slow(self, t, frame):
        self._account()
        if t.fault_left <= 0 and t.fault_exc is not None:
            bits = eligibility(frame.f_code).get(frame.f_lasti, 0)
            if bits & t.fault_bit:
                exc = t.fault_exc()
                t.fired = (frame.f_code.co_name, frame.f_lineno)
                t.fault_exc = None
                t.fault_left = _INF
                self._arm()
                self.digest.update(b"F%d@%d;" % (t.idx, self.steps))
                if exc is not None:
                    raise exc
                return
            t.fault_left = 1
        self._due(t)

    def traced(self, t, fn, *args, fault=None):
        """Run fn(*args) with instruction-level scheduling points.  fault is
        (instructions, exception, eligibility bit) or None."""
        t.fired = None
        t.fault_exc = None
        t.fault_left = _INF
        if fault is not None:
            t.fault_left = max(1, fault[0])
            t.fault_exc = fault[1]
            t.fault_bit = fault[2]
        self._account_noop()
        g = self.tracer(t)
        sys.settrace(g)
        try:
            return fn(*args)
        finally:
            sys.settrace(None)
            self._account()
            t.fault_left = _INF
            t.fault_exc = None
            self._arm()

    def _account_noop(self):
        n = self.chunk - self.left
        self.steps += n
        self.switch_left -= n
        self._arm()


def count_steps(fn, *args):
    """Number of instructions of the code under test that fn executes."""
    n = 0
    seen = {}

    def local(frame, event, arg):
        nonlocal n
        if event == "opcode":
            n += 1
        elif event == "return":
            frame.f_trace_opcodes = False
        return local

    def glob(frame, event, arg):
        code = frame.f_code
        if _is_mine(code):
            seen[code] = seen.get(code, 0) + 1
            if seen[code] > CALLS:
                return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        return None
    sys.settrace(glob)
    try:
        fn(*args)
    finally:
        sys.settrace(None)
    return n


def warm_up():
    """CPython 3.12 delivers opcode events only after some frame asked for
    them and tracing was set up again."""
    def local(frame, event, arg):
        return local

    def glob(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    def f():
        return 1
    for _ in range(2):
        sys.settrace(glob)
        f()
        sys.settrace(None)

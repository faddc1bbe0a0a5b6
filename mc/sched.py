"""A controlled scheduler for real Python threads.

Every thread of a scenario runs the real code, one thread at a time.  Before each byte code instruction of the watched
source files that can touch shared state (attribute/subscript/global access, calls, iteration, with-blocks ...) the
running thread asks the explorer which enabled thread continues.  Locks created by the code under test are replaced by
cooperative ones, so a thread that waits for a lock is simply not enabled.  Continuing the running thread is free,
taking the processor away from it while it could go on costs one deviation (a preemption), so the explorer's bound is a
preemption bound."""

from __future__ import annotations

import _thread
import dis
import importlib.util
import sys
import threading

from mc.core import HarnessError

_LOCAL = (
    "LOAD_FAST",
    "STORE_FAST",
    "DELETE_FAST",
    "LOAD_CONST",
    "POP_TOP",
    "RESUME",
    "COPY",
    "SWAP",
    "PUSH_NULL",
    "NOP",
    "CACHE",
    "JUMP",
    "POP_JUMP",
    "RETURN",
    "BUILD_",
    "FORMAT_",
    "BINARY_OP",
    "UNARY_",
    "COMPARE_OP",
    "IS_OP",
    "END_",
    "EXTENDED_ARG",
    "PRECALL",
    "KW_NAMES",
    "PUSH_EXC_INFO",
    "POP_EXCEPT",
    "RERAISE",
    "CHECK_EXC",
    "COPY_FREE_VARS",
    "MAKE_",
    "LOAD_CLOSURE",
    "UNPACK",
    "DICT_MERGE",
    "DICT_UPDATE",
    "LIST_",
    "SET_",
    "MAP_",
)
_visible: dict = {}


def visible(code):
    v = _visible.get(code)
    if v is None:
        v = _visible[code] = {i.offset for i in dis.get_instructions(code) if not i.opname.startswith(_LOCAL)}
    return v


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


_current: "Sched | None" = None


class CoopLock:
    """Stands in for threading.Lock / RLock in the code under test."""

    reentrant = True

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s.running if s else "main"
        if s:
            s.point()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None:
                raise HarnessError("lock left held outside a schedule")
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = _current
        me = s.running if s else "main"
        if self.owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if s:
            s.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


class CoopPlainLock(CoopLock):
    reentrant = False


class Patched:
    """Within this block new locks are cooperative."""

    def __enter__(self):
        self.saved = (threading.Lock, threading.RLock)
        threading.Lock, threading.RLock = CoopPlainLock, CoopLock
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved


def fresh_module(name: str, path: str):
    """Import a private copy of a source file with cooperative locks."""
    with Patched():
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    return mod


class Sched:
    def __init__(self, t, files):
        self.t = t
        self.files = set(files)
        self.bodies = []
        self.running = None
        self.waiting: dict[int, CoopLock] = {}
        self.done: set[int] = set()
        self.errors: dict[int, BaseException] = {}
        self.abort = False
        self.switches = 0
        self.points = 0
        self.fatal = None
        self.clock = 0

    def spawn(self, fn):
        self.bodies.append(fn)

    def tick(self):
        self.clock += 1
        return self.clock

    # ------------------------------------------------------------ scheduling
    def enabled(self):
        return [i for i in range(len(self.bodies)) if i not in self.done and not (i in self.waiting and self.waiting[i].owner is not None)]

    def point(self):
        """The running thread may lose the processor here."""
        if self.abort:
            raise _Abort
        self.points += 1
        others = [i for i in self.enabled() if i != self.running]
        if others:
            nxt = self.choose([self.running, *others], 1)
            if nxt != self.running:
                self.transfer(nxt)

    def choose(self, options, cost):
        try:
            return self.t.pick("run", options, cost=cost) if len(options) > 1 else options[0]
        except BaseException as e:
            self.fatal = e
            self.abort = True
            raise _Abort from None

    def block(self, lock):
        me = self.running
        self.waiting[me] = lock
        en = [i for i in self.enabled() if i != me]
        if not en:
            self.fatal = Deadlock(f"threads {sorted(self.waiting)} wait for each other")
            self.abort = True
            raise _Abort
        self.transfer(self.choose(en, 0))
        self.waiting.pop(me, None)

    def transfer(self, nxt):
        me = self.running
        self.switches += 1
        self.running = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()
        if self.abort:
            raise _Abort

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        vis = visible(frame.f_code)

        def local(frame, event, arg):
            if event == "opcode" and frame.f_lasti in vis:
                self.point()
            return local

        return local

    def _main(self, i):
        self.gates[i].acquire()
        try:
            if not self.abort:
                sys.settrace(self.trace)
                try:
                    self.bodies[i]()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        self.done.add(i)
        try:
            en = self.enabled() if not self.abort else []
            left = [j for j in range(len(self.bodies)) if j not in self.done]
            if self.abort:
                nxt = left[0] if left else None
            elif en:
                nxt = self.choose(en, 0)
            elif left:
                self.fatal = Deadlock(f"threads {left} wait for a lock nobody will release")
                self.abort = True
                nxt = left[0]
            else:
                nxt = None
        except _Abort:
            left = [j for j in range(len(self.bodies)) if j not in self.done]
            nxt = left[0] if left else None
        if nxt is None:
            self.end.release()
        else:
            self.running = nxt
            self.gates[nxt].release()

    def run(self):
        global _current
        n = len(self.bodies)
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        self.end = _thread.allocate_lock()
        for g in [*self.gates, self.end]:
            g.acquire()
        _current = self
        try:
            for i in range(n):
                _thread.start_new_thread(self._main, (i,))
            first = self.choose(list(range(n)), 0)
            self.running = first
            self.gates[first].release()
            if not self.end.acquire(timeout=60):
                raise HarnessError("schedule did not finish within 60 s")
        finally:
            _current = None
        if self.fatal:
            raise self.fatal
        self.t.step(self.points)

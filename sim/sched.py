"""A scheduler for the threads of the system under test.

The threads are real Python threads, but exactly one of them runs at any time: it holds the baton.  The baton is
handed over only at points the scenario names: after so many *events*, where an event is a line (or, in some runs, a
bytecode instruction) of fedservice or idpyoidc executed by a scheduled thread, or a request leaving for or arriving
from the simulated network.  The schedule is a list of [events until the next switch, which of the other runnable
threads goes on]; when it is exhausted every thread runs to its end in turn.  The same schedule gives the same
execution.

``threading.Lock`` and ``RLock`` created while the simulation is installed are cooperative: a scheduled thread that
would have to wait hands the baton over.  When all threads wait, that is a deadlock.
"""
import _thread
import sys
import threading
import zlib

from . import env

_alloc = _thread.allocate_lock
_RLock = threading._RLock
NET_EVENTS = 25          # a request is worth so many lines: that is where threads wait in reality
LIMIT = 4_000_000

ACTIVE = None            # the running scheduler


class Deadlock(BaseException):
    """All threads wait for each other (raised in the waiting threads to end them)."""


class Stuck(BaseException):
    """A thread does not end."""


class SimThread:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.ident = None
        self.result = self.exc = None


class Scheduler:
    def __init__(self, schedule, opcodes=False, focus=None):
        """``focus``: only this part of the code counts as events - a part of the path, or {"salt", "mod"}: one function
        in ``mod``, chosen by ``salt``, possibly of those in files with "path" in their names."""
        self.schedule = [list(x) for x in schedule]
        self.opcodes = opcodes
        self.focus = focus
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.events = 0
        self.switches = []        # (events, from, to, where)
        self.deadlock = False
        self.stuck = False
        self.left = self.schedule[0][0] if self.schedule else None
        self.main = _alloc()
        self.main.acquire()
        self.memo = {}
        self.preempt = 0

    # -- running ------------------------------------------------------------------------------
    def run(self, fns, first=0):
        global ACTIVE
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        ACTIVE = self
        ids = []
        try:
            for t in self.threads:
                ids.append(_thread.start_new_thread(self._body, (t,)))
            self.current = self.threads[first % len(self.threads)]
            self.current.gate.release()
            self.main.acquire()
        finally:
            ACTIVE = None
        return self.threads

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        sys.settrace(self._trace)
        try:
            t.result = t.fn()
        except (Deadlock, Stuck):
            pass
        except BaseException as err:
            t.exc = err
        finally:
            sys.settrace(None)
            t.done = True
            self._next(t, "end")

    def _others(self, t):
        return [x for x in self.threads if x is not t and not x.done and not self._blocked(x)]

    @staticmethod
    def _blocked(x):
        return x.waiting is not None and x.waiting.busy()

    def _next(self, t, where):
        """``t`` cannot go on (it is at its end): somebody else must."""
        o = self._others(t)
        if o:
            self._hand(t, o[self._choice() % len(o)], where)
            return
        alive = [x for x in self.threads if not x.done]
        if not alive:
            self.main.release()
            return
        self.deadlock = True
        self._hand(t, alive[0], "deadlock")

    def _choice(self):
        if self.schedule:
            return self.schedule[0][1]
        return 0

    def _hand(self, t, to, where):
        self.switches.append((self.events, t.idx, to.idx, where))
        self.current = to
        to.gate.release()

    def _switch(self, t, to, where):
        self._hand(t, to, where)
        t.gate.acquire()
        if self.deadlock:
            raise Deadlock()
        if self.stuck:
            raise Stuck()

    def tick(self, where, n=1):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.done:
            return
        self.events += n
        if self.events > LIMIT and not self.stuck:
            self.stuck = True
            raise Stuck()
        if self.left is None:
            return
        self.left -= n
        if self.left > 0:
            return
        pick = self.schedule.pop(0)[1]
        self.left = self.schedule[0][0] if self.schedule else None
        o = self._others(t)
        if o:
            if where != "net" and where != "net-back":
                self.preempt += 1
            self._switch(t, o[pick % len(o)], where)

    # -- tracing ------------------------------------------------------------------------------
    def _in_scope(self, code):
        r = self.memo.get(code)
        if r is None:
            fn = code.co_filename
            r = ("/fedservice/" in fn or "/idpyoidc/" in fn) and not fn.startswith(env.VERIF)
            if r and isinstance(self.focus, str):
                r = self.focus in fn
            elif r and self.focus:
                r = self.focus.get("path", "") in fn and zlib.crc32(f"{self.focus['salt']}:{code.co_qualname}".encode()) % self.focus["mod"] == 0
            self.memo[code] = r
        return r

    def _trace(self, frame, event, arg):
        code = frame.f_code
        if not self._in_scope(code) or code.co_name == "<module>":
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            code = frame.f_code
            if self.left is not None and self.left <= 1:
                where = f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_name}:{frame.f_lineno}"
            else:
                where = ""
            self.tick(where)
        return self._local


def net_hook(where):
    if ACTIVE is not None:
        ACTIVE.tick(where, NET_EVENTS if not ACTIVE.focus else 2)


# ------------------------------------------------------------------------------------------------
# locks
# ------------------------------------------------------------------------------------------------
def _me():
    s = ACTIVE
    if s is None:
        return None, None
    return s, s.by_ident.get(_thread.get_ident())


class SimLock:
    def __init__(self):
        self._l = _alloc()

    def busy(self):
        return self._l.locked()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s, t = _me()
        if t is None:
            return self._l.acquire(True, timeout)
        if timeout is not None and timeout >= 0:
            env.CLOCK.advance(timeout)
        t.waiting = self
        try:
            while not self._l.acquire(False):
                o = s._others(t)
                if not o:
                    if timeout is not None and timeout >= 0:
                        return False
                    s.deadlock = True
                    raise Deadlock()
                s._switch(t, o[s._choice() % len(o)], "lock")
        finally:
            t.waiting = None
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _alloc()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def busy(self):
        return self._l.busy()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        self._l.release()
        return c

    def _acquire_restore(self, c):
        self._l.acquire()
        self._owner, self._count = _thread.get_ident(), c

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._l = SimLock()
        self._owner, self._count = None, 0


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock

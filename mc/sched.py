"""Controlled scheduler for threads: decides, at every line of the code under test (and entry and return of its functions),
which thread goes on. A schedule is a list of (thread, number of points); afterwards the threads finish one by one."""
import os
import sys
import threading

REPO = os.environ.get('MC_REPO', '/repo')
PREFIX = os.path.join(os.path.realpath(REPO), 'src', 'sloth') + os.sep
TOOL = 3
_current = None
_ready = False


def _mine(code):
    return os.path.realpath(code.co_filename).startswith(PREFIX)


_files = {}


def _event(code, *args):
    mine = _files.get(code.co_filename)
    if mine is None:
        mine = _files[code.co_filename] = _mine(code)
    if not mine:
        return sys.monitoring.DISABLE
    s = _current
    if s is not None:
        t = s.by_id.get(threading.get_ident())
        if t is not None:
            s.point(t, code)


def _setup():
    global _ready
    if _ready:
        return
    m = sys.monitoring
    m.use_tool_id(TOOL, 'schedules')
    for ev in (m.events.LINE, m.events.PY_START, m.events.PY_RETURN):
        m.register_callback(TOOL, ev, _event)
    _ready = True


class _Thread:
    def __init__(self, fn):
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.budget = 0          # points left before the thread stops; None: runs to its end
        self.points = 0
        self.paused = True
        self.done = False
        self.result = None


class Sched:
    BLOCKED = 30.                # seconds without a point: the thread waits for something that another one holds

    def __init__(self, fns, focus=None):
        self.focus = focus       # the file (or function) whose points alone are counted
        self.files = {}          # points of each file
        self.ts = [_Thread(f) for f in fns]
        self.by_id = {}
        self.blocked = 0
        self.switches = 0

    def point(self, t, code):
        f = os.path.basename(code.co_filename)
        self.files[f] = self.files.get(f, 0) + 1
        if self.focus is not None and f != self.focus:
            return
        t.points += 1
        if t.budget is None:
            return
        if t.budget > 0:
            t.budget -= 1
            return
        t.paused = True
        t.back.release()
        t.go.acquire()

    def _body(self, t):
        t.go.acquire()
        self.by_id[threading.get_ident()] = t
        try:
            t.result = ('value', t.fn())
        except BaseException as e:
            t.result = ('raised', type(e).__name__, str(e)[:200])
        del self.by_id[threading.get_ident()]
        t.done = True
        t.back.release()

    def _advance(self, t, n):
        if t.done:
            return
        while t.back.acquire(blocking=False):
            pass
        t.budget = n
        if t.paused:
            t.paused = False
            self.switches += 1
            t.go.release()
        if not t.back.acquire(timeout=self.BLOCKED):
            self.blocked += 1
            t.budget = 0         # stops at its next point, once it goes on

    def run(self, plan):
        global _current
        _setup()
        _current = self
        m = sys.monitoring
        m.set_events(TOOL, m.events.LINE | m.events.PY_START | m.events.PY_RETURN)
        try:
            threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.ts]
            for th in threads:
                th.start()
            for i, n in plan:
                self._advance(self.ts[i], n)
            last = self.ts[plan[-1][0]] if plan else None
            order = [t for t in self.ts if t is not last] + ([last] if plan else [])
            for _ in range(20):             # more than once only if a thread waited for another one
                for t in order:
                    self._advance(t, None)
                if all(t.done for t in self.ts):
                    break
        finally:
            m.set_events(TOOL, 0)
            _current = None
        return [t.result if t.done else ('never ended',) for t in self.ts]

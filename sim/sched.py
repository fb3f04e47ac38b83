"""Deterministic scheduler for caller threads.

Real threads, parked and released one at a time.  A thread can lose the
processor at every line (or every bytecode) it executes inside the code under
test; who runs next is a pure function of the case (seed or explicit list of
switches), never of the operating system.  Locks created by the code under
test are replaced by simulated ones so that a parked lock holder blocks only in
simulation.
"""
import hashlib
import os
import random
import sys
import threading
import _thread

REPO = os.environ.get('RESIPPY_REPO', '/repo')
ROOT = os.path.join(REPO, 'resippy') + os.sep
_real_lock = _thread.allocate_lock
_this = os.path.abspath(__file__)


class Stalled(BaseException):
    """raised inside simulated threads when the run's step budget is used up"""


class Sched(object):
    current = None

    def __init__(self, spec, opcodes=False, max_steps=400000, extra=()):
        self.spec = dict(spec or {'mode': 'none'})
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.extra = tuple(extra)
        self.step = 0
        self.switches = []
        self.h = hashlib.sha1()
        self.tids = {}
        self.sem = []
        self.alive = []
        self.blocked = {}
        self.results = []
        self.history = []
        self.stalled = False
        self.deadlock = False
        self.where = {}
        m = self.spec['mode']
        if m in ('rand', 'pct'):
            self.rng = random.Random('sched:%s' % self.spec['seed'])
        if m == 'pct':
            est = max(2, int(self.spec['est']))
            self.pts = sorted(self.rng.randrange(1, est) for _ in range(self.spec['k']))
            self.pts_set = {}
            for p in self.pts:
                self.pts_set[p] = self.rng.random()
        if m == 'list':
            self.lst = {int(s): int(t) for s, t in self.spec['sw']}

    # ---------------------------------------------------------------- threads
    def runnable(self):
        return [t for t in self.alive if t not in self.blocked]

    def _choose(self, tid):
        m = self.spec['mode']
        n = self.step
        if m == 'rand':
            r = self.runnable()
            if len(r) > 1 and self.rng.random() < self.spec['p']:
                return r[self.rng.randrange(len(r))]
        elif m == 'pct':
            x = self.pts_set.get(n)
            if x is not None:
                r = [t for t in self.runnable() if t != tid]
                if r:
                    return r[int(x * len(r))]
        elif m == 'list':
            t = self.lst.get(n)
            if t is not None and t in self.alive and t not in self.blocked:
                return t
        return tid

    def point(self, tid, tag=''):
        if self.stalled:
            raise Stalled()
        self.step += 1
        if self.step > self.max_steps:
            self.stalled = True
            raise Stalled()
        nxt = self._choose(tid)
        if nxt != tid:
            self._switch(tid, nxt, tag)

    def _switch(self, tid, nxt, tag=''):
        self.switches.append([self.step, nxt])
        self.h.update(('%d>%d@%d;' % (tid, nxt, self.step)).encode())
        self.sem[nxt].release()
        self.sem[tid].acquire()
        if self.stalled:
            raise Stalled()

    def _forced(self, tid):
        """tid cannot go on (ended or blocked): hand over to the lowest runnable thread, or to the one the list names"""
        r = self.runnable()
        if not r:
            return None
        if self.spec['mode'] == 'rand' and len(r) > 1:
            return r[self.rng.randrange(len(r))]
        if self.spec['mode'] == 'list':
            t = self.lst.get(self.step)
            if t in r:
                return t
        return r[0]

    def block(self, tid, what):
        self.blocked[tid] = what
        nxt = self._forced(tid)
        if nxt is None:
            self.deadlock = True
            self.stalled = True
            for t in self.alive:
                if t != tid:
                    self.sem[t].release()
            raise Stalled()
        self._switch(tid, nxt, 'block')

    def unblock(self, what):
        for t in [t for t, w in self.blocked.items() if w is what]:
            del self.blocked[t]

    def me(self):
        return self.tids.get(_thread.get_ident())

    # ---------------------------------------------------------------- tracing
    def _interesting(self, code):
        fn = code.co_filename
        if fn.startswith(ROOT):
            return code.co_name != '<module>'
        for f, names in self.extra:
            if fn.endswith(f) and (not names or code.co_name in names):
                return True
        return False

    def _gtrace(self, frame, event, arg):
        if event != 'call' or not self._interesting(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            return self._otrace
        return self._ltrace

    def _ltrace(self, frame, event, arg):
        if event == 'line':
            tid = self.tids.get(_thread.get_ident())
            if tid is not None:
                self.point(tid)
        return self._ltrace

    def _otrace(self, frame, event, arg):
        if event == 'opcode':
            tid = self.tids.get(_thread.get_ident())
            if tid is not None:
                self.point(tid)
        return self._otrace

    # ---------------------------------------------------------------- run
    def run(self, programs):
        """programs: list of callables(ev) run one per thread; returns list of ('ok', value) / ('exc', e)"""
        n = len(programs)
        self.sem = [_real_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.alive = list(range(n))
        self.results = [None] * n
        done = _real_lock()
        done.acquire()
        Sched.current = self

        def body(tid):
            self.sem[tid].acquire()
            self.tids[_thread.get_ident()] = tid
            try:
                if self.stalled:
                    raise Stalled()
                sys.settrace(self._gtrace)
                try:
                    v = programs[tid](self, tid)
                finally:
                    sys.settrace(None)
                self.results[tid] = ('ok', v)
            except Stalled:
                self.results[tid] = ('stalled', None)
            except BaseException as e:   # noqa
                self.results[tid] = ('exc', e)
            self.alive.remove(tid)
            self.tids.pop(_thread.get_ident(), None)
            if not self.alive:
                done.release()
                return
            nxt = self._forced(tid)
            if nxt is None:
                self.deadlock = True
                self.stalled = True
                for t in list(self.alive):
                    self.blocked.pop(t, None)
                nxt = self.alive[0]
            self.switches.append([self.step, nxt])
            self.h.update(('%d!%d@%d;' % (tid, nxt, self.step)).encode())
            self.sem[nxt].release()

        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        old = threading.stack_size(16 << 20)
        for t in ths:
            t.start()
        threading.stack_size(old)
        first = self.lst.get(0, 0) if self.spec['mode'] == 'list' else (
            self.rng.randrange(n) if self.spec['mode'] in ('rand', 'pct') else 0)
        self.switches.append([0, first])
        self.sem[first].release()
        done.acquire()
        for t in ths:
            t.join(5)
        Sched.current = None
        return self.results

    @property
    def digest(self):
        return self.h.hexdigest()[:16]

    def n_preempt(self):
        return max(0, len(self.switches) - len(self.results))


# -------------------------------------------------------------------- simulated locks
def _caller_in_repo():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(ROOT):
            return True
        if not (fn == _this or fn.endswith(('threading.py', 'queue.py', 'functools.py', 'dataclasses.py'))):
            return False
        f = f.f_back
    return False


class SimLock(object):
    reentrant = False

    def __init__(self):
        self._real = _real_lock()
        self._owner = None
        self._count = 0

    def _who(self):
        s = Sched.current
        t = s.me() if s else None
        return ('t', t) if t is not None else ('os', _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        who = self._who()
        if self.reentrant and self._owner == who:
            self._count += 1
            return True
        s = Sched.current
        if who[0] == 't':
            s.point(who[1])
            while self._owner is not None:
                if not blocking or timeout == 0:
                    return False
                if timeout > 0:
                    return False
                s.block(who[1], self)
            self._owner, self._count = who, 1
            return True
        got = self._real.acquire(blocking, timeout)
        if got:
            self._owner, self._count = who, 1
        return got

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner != self._who():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count:
            return
        was = self._owner
        self._owner = None
        if was[0] == 't':
            s = Sched.current
            if s is not None:
                s.unblock(self)
        else:
            self._real.release()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._who()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """code under test that creates locks gets simulated ones; everybody else the real thing"""
    rl, rr = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _caller_in_repo() else rl()

    def RLock():
        return SimRLock() if _caller_in_repo() else rr()
    threading.Lock = Lock
    threading.RLock = RLock

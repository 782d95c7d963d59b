"""Deterministic scheduler for real threads.

Exactly one thread runs at a time.  The running thread counts the bytecode
instructions it executes in library code (and in the functions listed in
`extra`, which read the answers); when the explicit plan says so, it parks and
hands over to another runnable thread.  The plan is part of the case, so a
schedule is data: it is replayed and minimised like any other input.

Locks created by the library are SimLocks: a thread that has to wait for one
parks and the scheduler continues with another thread; if none can run, that
is a deadlock."""
import sys
import threading

from . import seams

_Thread, _Sem = threading.Thread, threading.Semaphore
CURRENT = None
FAIR = 50_000
# instruction events of library code only (sys.monitoring)
TOOL = 4
MON = sys.monitoring
INSTR = MON.events.INSTRUCTION


_codes = [0, []]


def all_codes():
    """code objects of the library: functions, lambdas, comprehensions"""
    if len(seams._CODE) == _codes[0]:
        return _codes[1]
    todo, out = list(seams._CODE.values()), []
    while todo:
        c = todo.pop()
        out.append(c)
        todo += [x for x in c.co_consts if isinstance(x, type(c))]
    _codes[:] = [len(seams._CODE), out]
    return out


class observe:
    """While active, fn(code, offset) precedes every instruction of the
    library and of the given further functions, in every thread."""

    def __init__(self, fn, extra=()):
        self.fn, self.codes = fn, all_codes() + list(extra)

    def __enter__(self):
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, 'dst')
        MON.register_callback(TOOL, INSTR, self.fn)
        for c in self.codes:
            MON.set_local_events(TOOL, c, INSTR)

    def __exit__(self, *a):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, INSTR, None)
        return False


class Killed(BaseException):
    pass


def focused(focus):
    """Which code counts for the plan: [] all; [file] that file; [m, r] the
    functions whose names fall into class r of m."""
    if not focus:
        return None
    known, keep = {}, []        # hashing a code object is slow

    def f(co):
        x = known.get(id(co))
        if x is None:
            if len(focus) == 1:
                x = co.co_filename.endswith('/' + focus[0])
            else:
                x = seams.mix(co.co_name) % focus[0] == focus[1]
            known[id(co)] = x
            keep.append(co)
        return x
    return f


FILES = ('spacetimes.py', 'embeddedcauset.py', 'shapes.py', 'calculations.py',
         'causetplotting.py', 'causetevent.py', 'causet.py',
         'sprinkledcauset.py', 'colorschemes.py')


def gen_focus(rng, files=FILES):
    x = rng.random()
    if x < .55:
        return []
    if x < .75:
        return [rng.choice(files)]
    m = rng.choice((2, 4, 8, 16))
    return [m, rng.randrange(m)]


class Sched:
    """plan: after so many instructions of the code in focus, the running
    thread hands over to another one: [[instructions, which], ...]"""

    def __init__(self, plan, budget=3_000_000, extra=(), focus=()):
        self.focus = focused(focus)
        self.since = 0            # instructions since the last switch
        self.plan = plan or []    # [[instructions, thread choice], ...]
        self.pos = 0
        self.left = plan[0][0] if plan else -1
        self.fair = FAIR if plan else 1 << 60
        self.budget = budget
        self.ticks = 0
        self.switches = []        # (from, to, file:function) actually taken
        self.extra = set(extra)
        self.dead = False
        self.deadlock = False
        self.running = None
        self.threads = []
        self.state = []           # 'ready', 'blocked', 'done'
        self.errors = []

    # ---------------------------------------------------------------- trace
    def _instr(self, code, offset):
        self.ticks += 1
        if self.ticks > self.budget:
            self.dead = True
            raise seams.NoProgress('more than %d instructions' % self.budget)
        if self.dead:
            return
        self.since += 1
        if self.since > self.fair:
            # nobody runs for ever: every thread gets a long turn
            self.left = -1
            self.switch(code, 0)
            return
        if self.focus is None or self.focus(code):
            self.left -= 1
            if self.left == 0:
                choice = self.plan[self.pos][1]
                self.pos += 1
                self.left = self.plan[self.pos][0] \
                    if self.pos < len(self.plan) else -1
                self.switch(code, choice)

    def switch(self, code, choice):
        me = self.running
        n = len(self.state)
        others = [k % n for k in range(me + 1, me + n)
                  if self.state[k % n] == 'ready']
        if others:
            to = others[choice % len(others)]
            self.switches.append((me, to, code.co_name))
            self._handover(me, to)
        self.since = 0

    # ------------------------------------------------------------- switching
    def _handover(self, me, to):
        self.running = to
        self.since = 0
        self.sem[to].release()
        self.sem[me].acquire()

    def block(self):
        """the running thread has to wait for a lock"""
        if self.dead:
            raise Killed()
        me = self.running
        self.state[me] = 'blocked'
        ready = [k for k, s in enumerate(self.state) if s == 'ready']
        if not ready:
            self.deadlock = True
            raise seams.NoProgress('deadlock')
        self._handover(me, ready[0])
        if self.dead:
            raise Killed()

    def unblock(self):
        for k, s in enumerate(self.state):
            if s == 'blocked':
                self.state[k] = 'ready'

    def _next(self, me):
        self.state[me] = 'done'
        if CURRENT is not self:     # the run is over
            self.main.release()
            return
        ready = [k for k, s in enumerate(self.state) if s == 'ready']
        if ready and not self.dead:
            self.running = ready[me % len(ready)]
            self.sem[self.running].release()
            return
        if 'blocked' in self.state and not self.dead:
            self.deadlock = True
        self.main.release()

    def _body(self, k, fn):
        self.sem[k].acquire()
        try:
            if not self.dead:
                fn()
        except Killed:
            pass
        except BaseException as e:
            self.errors.append((k, e))
            self.dead = True      # the first failure decides the run
        self._next(k)

    def run(self, fns, first=0):
        """Runs the functions to completion; the first error is raised."""
        global CURRENT
        n = len(fns)
        self.state = ['ready'] * n
        self.sem = [_Sem(0) for _ in fns]
        self.main = _Sem(0)
        self.threads = [_Thread(target=self._body, args=(k, f), daemon=True)
                        for k, f in enumerate(fns)]
        CURRENT = self
        events = observe(self._instr, self.extra)
        events.__enter__()
        try:
            for t in self.threads:
                t.start()
            self.running = first % n
            self.sem[self.running].release()
            self.main.acquire()
        finally:
            self.dead = self.dead or 'ready' in self.state or \
                'blocked' in self.state
            CURRENT = None
            for k, t in enumerate(self.threads):
                if self.state[k] in ('ready', 'blocked'):
                    # the others end one after the other, unobserved
                    self.budget = self.ticks + 10 ** 6
                    self.running = k
                    self.sem[k].release()
                    self.main.acquire()
            for t in self.threads:
                t.join(10)
            events.__exit__()
        if self.errors:
            raise self.errors[0][1]
        if self.deadlock:
            raise seams.NoProgress('deadlock')


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if CURRENT is None:
                raise seams.NoProgress('deadlock: lock held for ever')
            CURRENT.block()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.reentrant and
                              self.owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            if CURRENT is not None:
                CURRENT.unblock()

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class ThreadingShim:
    """The threading module as the library sees it."""
    Lock, RLock = SimLock, SimRLock

    def __getattr__(self, name):
        return getattr(threading, name)


class lock_seam:
    """While the library is loaded, threading.Lock and RLock are SimLocks;
    afterwards the names it imported keep referring to them."""

    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, SimRLock
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old
        return False

    def patch(self, modules):
        shim = ThreadingShim()
        for m in modules:
            for k, v in list(vars(m).items()):
                if v is threading:
                    setattr(m, k, shim)

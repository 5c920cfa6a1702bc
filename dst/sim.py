"""Deterministic simulator core.

Exactly one simulated task (thread or "process") runs at any instant.  Real
threads are parked on a private lock and released one at a time; who runs next
is decided only by a Chooser (a seeded PRNG, or a recorded trace on replay).
Preemption points are line events (optionally bytecode-instruction events) in
the code under test, delivered by sys.monitoring, plus every blocking operation
on a patched synchronisation primitive.
"""
import _thread
import copy
import dis
import os
import pickle
import random
import sys
import threading
import time as _time

REAL = dict(time=_time.time, perf_counter=_time.perf_counter,
            monotonic=_time.monotonic, sleep=_time.sleep,
            process_time=_time.process_time)
_real_lock = _thread.allocate_lock
_get_ident = _thread.get_ident

CUR = None          # the active Sim, or None


class SimDeadlock(BaseException):
    """No task can run and no timer is pending."""


class SimHang(BaseException):
    """The step budget was exhausted many times over."""


class SimAbort(BaseException):
    """Unwinds parked tasks when a run is over."""


# --------------------------------------------------------------------------
class Chooser:
    """Decides every schedule step; records the deviations from the default.

    Default: keep running the current task; if it cannot run, the runnable
    task with the lowest id.  A trace is the list [[decision_no, task_id],...]
    of the non-default decisions.
    """

    def __init__(self, seed=None, strategy=None, trace=None):
        self.replay = None
        self.trace = []
        self.n = 0
        if trace is not None:
            self.replay = {int(k): int(v) for k, v in trace}
        self.rng = random.Random(seed)
        self.strategy = strategy or {'kind': 'serial'}
        self.prio = {}
        self.change = None
        self.m = 0
        self.switches = 0
        self.hist = 0       # rolling hash of the schedule actually taken

    def _default(self, cur, runnable):
        if cur in runnable:
            return cur
        return min(runnable, key=lambda t: t.id)

    def pick(self, cur, runnable, hot, site=0, forced=False):
        self.n += 1
        d = self._default(cur, runnable)
        if self.replay is not None:
            w = self.replay.get(self.n)
            c = d
            if w is not None:
                for t in runnable:
                    if t.id == w:
                        c = t
                        break
        else:
            if len(runnable) == 1:
                c = d
            elif forced and self.strategy['kind'] not in ('serial', 'pct', 'stall'):
                # completion of a worker process: any order is as likely
                c = runnable[self.rng.randrange(len(runnable))]
            else:
                c = self._random(cur, runnable, hot, d, site)
        if c is not d:
            self.trace.append([self.n, c.id])
        if c is not cur:
            self.switches += 1
            self.hist = hash((self.hist, self.n, c.id))
        return c

    def early(self, waiting):
        """A timed wait that runs out now, because the others are slow."""
        self.m += 1
        if self.replay is not None:
            w = self.replay.get(-self.m)
            c = [t for t in waiting if t.id == w]
        elif self.strategy['kind'] != 'serial' and self.rng.random() < 0.1:
            c = [waiting[self.rng.randrange(len(waiting))]]
        else:
            c = []
        if not c:
            return None
        self.trace.append([-self.m, c[0].id])
        self.hist = hash((self.hist, -self.m, c[0].id))
        return c[0]

    def _other(self, cur, runnable):
        o = [t for t in runnable if t is not cur]
        return o[self.rng.randrange(len(o))] if o else cur

    def _random(self, cur, runnable, hot, d, site):
        s = self.strategy
        k = s['kind']
        forced = cur not in runnable
        if k == 'serial':
            return d
        if k == 'uniform':
            if forced or self.rng.random() < s['p']:
                return runnable[self.rng.randrange(len(runnable))]
            return cur
        if k == 'hot':
            if forced:
                return runnable[self.rng.randrange(len(runnable))]
            if self.rng.random() < (s['phot'] if hot else s['p']):
                return self._other(cur, runnable)
            return cur
        if k == 'focus':    # preempt at a few chosen sites, else run on
            if forced:
                return runnable[self.rng.randrange(len(runnable))]
            if site and (site ^ s['salt']) * 2654435761 % 4294967296 \
                    < s['frac'] * 4294967296 and self.rng.random() < s['phot']:
                return self._other(cur, runnable)
            return cur
        if k == 'pct':
            if self.change is None:
                self.change = set(self.rng.randrange(1, s['len'] + 1)
                                  for _ in range(s['d']))
            for t in runnable:
                if t.id not in self.prio:
                    self.prio[t.id] = self.rng.random()
            if self.n in self.change and cur in runnable:
                self.prio[cur.id] = -self.n
            return max(runnable, key=lambda t: (self.prio[t.id], -t.id))
        if k == 'order':    # run to completion, but in a random order
            if forced:
                return runnable[self.rng.randrange(len(runnable))]
            return cur
        if k == 'stall':    # one task is starved for as long as possible
            live = [t for t in runnable if t.id % s['mod'] != s['victim']]
            if not live:
                return d
            if cur in live and self.rng.random() >= s['p']:
                return cur
            return live[self.rng.randrange(len(live))]
        raise ValueError(k)


def random_strategy(rng, approx_len=4000):
    """Swarm choice of a scheduling strategy."""
    r = rng.random()
    if r < 0.25:
        return {'kind': 'focus', 'salt': rng.randrange(1 << 32),
                'frac': rng.choice([0.01, 0.05, 0.2]),
                'phot': rng.choice([0.3, 0.8])}
    if r < 0.55:
        return {'kind': 'hot', 'phot': rng.choice([0.05, 0.2, 0.5, 0.9]),
                'p': rng.choice([0.0, 0.002, 0.02])}
    if r < 0.70:
        return {'kind': 'uniform', 'p': rng.choice([0.003, 0.02, 0.1, 0.4])}
    if r < 0.82:
        return {'kind': 'pct', 'd': rng.randrange(1, 6), 'len': approx_len}
    if r < 0.92:
        return {'kind': 'order'}
    return {'kind': 'stall', 'mod': rng.choice([2, 3]),
            'victim': rng.randrange(2), 'p': 0.05}


# --------------------------------------------------------------------------
class Task:
    __slots__ = ('id', 'name', 'fn', 'gate', 'done', 'pred', 'deadline',
                 'timed_out', 'exc', 'proc', 'result', 'nopreempt',
                 'killed')

    def __init__(self, id_, name, fn, proc):
        self.id = id_
        self.name = name
        self.fn = fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.exc = None
        self.proc = proc
        self.result = None
        self.nopreempt = 0
        self.killed = False     # its process was killed


class Proc:
    """A simulated OS process: its own copy of module-level state."""

    def __init__(self, name, state=None):
        self.name = name
        self.state = state
        self.pid = 1000


_DATA = (int, float, complex, str, bytes, bool, type(None), list, dict, tuple,
         set, frozenset)


def _is_data(v):
    if isinstance(v, _DATA):
        return True
    return type(v).__module__ == 'numpy'


def _origin(m):
    """The file a module was loaded from (a scenario may change __file__)."""
    return str(getattr(getattr(m, '__spec__', None), 'origin', None)
               or getattr(m, '__file__', None) or '')


class Sim:
    def __init__(self, chooser, roots, granularity='line', max_steps=400000,
                 proc_preempt=False, on_event=None, clock_jumps=None,
                 start_time=1.7e9, tick=1e-4):
        self.chooser = chooser
        self.roots = tuple(roots)
        self.granularity = granularity
        self.max_steps = max_steps
        self.proc_preempt = proc_preempt
        self.on_event = on_event      # called at every event of the code
        self.tasks = []
        self.by_ident = {}
        self.cur = None
        self.main_proc = Proc('main')
        self.cur_proc = self.main_proc
        self.steps = 0
        self.aborting = False
        self.fatal = None
        self.now = start_time
        self.t0 = start_time
        self.tick = tick              # of each reading of the clock
        self.clock_calls = 0
        self.clock_jumps = dict(clock_jumps or {})
        self.clock_fired = 0
        self.max_parallel = 1
        self.stat = {}

    # ---- tasks
    def spawn(self, fn, name='task', proc=None):
        t = Task(len(self.tasks), name, fn, proc or self.cur_proc)
        self.tasks.append(t)

        def boot():
            self.by_ident[_get_ident()] = t
            t.gate.acquire()
            try:
                if not self.aborting and not t.killed:
                    t.result = t.fn()
            except SimAbort:
                pass
            except BaseException as e:      # kept for join()
                t.exc = e
            t.done = True
            self._leave(t)
        _thread.start_new_thread(boot, ())
        live = sum(1 for x in self.tasks if not x.done)
        self.max_parallel = max(self.max_parallel, live)
        return t

    def task(self):
        return self.by_ident.get(_get_ident())

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or t.timed_out or t.killed or t.pred():
                out.append(t)
        return out

    def _resume_to(self, nxt):
        if nxt.proc is not self.cur_proc:
            self._swap(nxt.proc)
        self.cur = nxt
        nxt.gate.release()

    def _pick(self, cur, hot=False, site=0, forced=False):
        """Next task to run, or None when everything is blocked for good."""
        run = self._runnable()
        if not run:
            waiting = [t for t in self.tasks
                       if not t.done and t.deadline is not None]
            if not waiting:
                return None
            t = min(waiting, key=lambda x: (x.deadline, x.id))
            self.now = max(self.now, t.deadline)
            t.timed_out = True
            run = [t]
        else:
            waiting = [t for t in self.tasks
                       if t.deadline is not None and t not in run
                       and not t.done and not t.killed]
            t = self.chooser.early(waiting) if waiting else None
            if t is not None:
                self.now = max(self.now, t.deadline)
                t.timed_out = True
                return t
        return self.chooser.pick(cur, run, hot, site, forced)

    def _fatal(self, exc):
        """Everything is stuck: unwind through the main task."""
        self.fatal = exc
        main = self.tasks[0]
        main.timed_out = True
        return main

    def _leave(self, t):
        """Called by a finished task, on its own thread."""
        if self.aborting:
            # hand the baton back to main, which is draining
            m = self.tasks[0]
            self.cur = m
            m.gate.release()
            return
        nxt = self._pick(t)
        if nxt is None:
            if all(x.done for x in self.tasks):
                return
            nxt = self._fatal(SimDeadlock(self.describe()))
        self._resume_to(nxt)

    def _park(self, t, nxt):
        self._resume_to(nxt)
        t.gate.acquire()
        if t.proc is not self.cur_proc:
            self._swap(t.proc)
        if self.aborting or t.killed:
            raise SimAbort()
        if self.fatal is not None and t is self.tasks[0]:
            f, self.fatal = self.fatal, None
            t.timed_out = False
            raise f

    def block(self, pred, timeout=None):
        """Park the current task until pred().  False if timed out."""
        t = self.task()
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        t.pred = pred
        t.deadline = None if timeout is None else self.now + timeout
        t.timed_out = False
        try:
            while True:
                nxt = self._pick(t)
                if nxt is None:
                    e = SimDeadlock(self.describe())
                    if t is self.tasks[0]:
                        raise e
                    nxt = self._fatal(e)
                if nxt is not t:
                    self._park(t, nxt)
                if t.killed:
                    raise SimAbort()
                if t.timed_out:
                    return False
                if pred():
                    return True
        finally:
            t.pred = None
            t.deadline = None
            t.timed_out = False

    def yield_(self, hot=False, forced=False):
        t = self.task()
        if t is None or t.nopreempt:
            return
        if len(self.tasks) == 1:
            return
        nxt = self._pick(t, hot, forced=forced)
        if nxt is not None and nxt is not t:
            self._park(t, nxt)

    def describe(self):
        return 'stuck tasks: ' + ', '.join(
            t.name for t in self.tasks if not t.done)

    # ---- process contexts
    def _modules(self):
        return [m for k, m in list(sys.modules.items())
                if m is not None and _origin(m).startswith(self.roots)]

    def snapshot(self, deep=True):
        import numpy as np
        st = {}
        for m in self._modules():
            st[m.__name__] = {
                k: (copy.deepcopy(v) if deep else v)
                for k, v in vars(m).items()
                if not k.startswith('__') and _is_data(v)}
        return dict(mods=st, rng=np.random.get_state(),
                    env=dict(os.environ), pyrng=random.getstate(),
                    cwd=os.getcwd())

    def install(self, s):
        import numpy as np
        for m in self._modules():
            want = s['mods'].get(m.__name__)
            if want is None:
                continue
            d = vars(m)
            for k in [k for k, v in d.items() if not k.startswith('__')
                      and _is_data(v) and k not in want]:
                del d[k]
            d.update(want)
        np.random.set_state(s['rng'])
        random.setstate(s['pyrng'])
        if dict(os.environ) != s['env']:
            os.environ.clear()
            os.environ.update(s['env'])
        if os.getcwd() != s['cwd']:
            os.chdir(s['cwd'])

    def fork_proc(self, name):
        self.npids = getattr(self, 'npids', 0) + 1
        p = Proc(name, self.snapshot())
        p.pid += self.npids
        return p

    def _swap(self, proc):
        self.cur_proc.state = self.snapshot(deep=False)
        self.install(proc.state)
        self.cur_proc = proc

    # ---- clock
    def clock(self):
        self.clock_calls += 1
        self.now += self.tick
        j = self.clock_jumps.get(self.clock_calls)
        if j is not None:
            self.now += j
            self.clock_fired += 1
        return self.now

    # ---- events of the code under test
    def event(self, code, where, hot, base=0):
        self.steps += 1
        if self.on_event is not None:
            self.on_event(code, where)
        if self.steps > self.max_steps:
            if self.steps > 20 * self.max_steps:
                raise SimHang('step budget exhausted')
            return
        t = self.task()
        if t is None or t.nopreempt or len(self.tasks) == 1:
            return
        if t.proc is not self.main_proc and not self.proc_preempt:
            return
        nxt = self._pick(t, hot, base + where if base else 0)
        if nxt is not None and nxt is not t:
            self._park(t, nxt)

    # ---- run
    def run(self, fn):
        global CUR
        assert CUR is None
        _seq[0] = 0
        main = Task(0, 'main', None, self.main_proc)
        self.tasks.append(main)
        self.by_ident[_get_ident()] = main
        self.cur = main
        CUR = self
        monitor_on(self)
        try:
            return fn()
        finally:
            monitor_off()
            self._drain()
            CUR = None

    def _drain(self):
        """Unwind every task that is still parked."""
        if self.cur_proc is not self.main_proc:
            self._swap(self.main_proc)
        self.aborting = True
        main = self.tasks[0]
        self.leaked = [t.name for t in self.tasks[1:]
                       if not t.done and not t.killed]
        for t in self.tasks[1:]:
            n = 0
            while not t.done and n < 1000:
                n += 1
                self.cur = t
                t.gate.release()
                main.gate.acquire()


# --------------------------------------------------------------------------
# sys.monitoring hooks
TOOL = 4
_code_info = {}


def _hot_lines(code):
    """Lines (and offsets) directly after a store to shared state."""
    lines, offs = set(), set()
    pend = False
    prev_line = None
    for ins in dis.get_instructions(code):
        ln = ins.positions.lineno if ins.positions else None
        if pend and ln is not None and ln != prev_line:
            lines.add(ln)
            pend = False
        if ln is not None:
            prev_line = ln
        if ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR',
                          'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE'):
            pend = True
        if ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR',
                          'LOAD_ATTR', 'BINARY_SUBSCR', 'BINARY_OP'):
            offs.add(ins.offset + 2)
    return lines, offs


def _info(code):
    i = _code_info.get(code)
    if i is None:
        import zlib
        base = zlib.crc32(code.co_qualname.encode()) | 1
        i = _code_info[code] = _hot_lines(code) + (base - code.co_firstlineno,)
    return i


def _on_line(code, line):
    s = CUR
    if s is None:
        return
    i = _info(code)
    s.event(code, line, line in i[0], i[2])


def _on_instr(code, off):
    s = CUR
    if s is None:
        return
    i = _info(code)
    s.event(code, -off, off in i[1], i[2])


def _on_start(code, off):
    mon = sys.monitoring
    s = CUR
    if s is not None and code.co_filename.startswith(s.roots) \
            and code.co_name != '<module>':
        ev = mon.events.LINE
        if s.granularity == 'op':
            ev = mon.events.INSTRUCTION
        if mon.get_local_events(TOOL, code) != ev:
            mon.set_local_events(TOOL, code, ev)
    return mon.DISABLE


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            _walk(c, seen)


def _module_codes(roots):
    """All code objects of the loaded modules of the code under test."""
    seen = set()
    for m in list(sys.modules.values()):
        if m is None or not _origin(m).startswith(roots):
            continue
        stack = list(vars(m).values())
        done = set()
        while stack:
            o = stack.pop()
            if id(o) in done:
                continue
            done.add(id(o))
            w = getattr(o, '__wrapped__', None)
            if w is not None and callable(w):
                stack.append(w)
            if isinstance(o, type):
                if getattr(o, '__module__', '') == m.__name__:
                    stack.extend(vars(o).values())
            elif isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif isinstance(o, property):
                stack.extend(x for x in (o.fget, o.fset) if x)
            else:
                c = getattr(o, '__code__', None)
                if c is not None and c.co_filename.startswith(roots):
                    _walk(c, seen)
    return seen


def monitor_on(sim):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'dst')
    ev = mon.events
    if sim.granularity == 'none':
        return
    mon.register_callback(TOOL, ev.LINE, _on_line)
    mon.register_callback(TOOL, ev.INSTRUCTION, _on_instr)
    mon.register_callback(TOOL, ev.PY_START, _on_start)
    want = ev.INSTRUCTION if sim.granularity == 'op' else ev.LINE
    for c in sorted(_module_codes(sim.roots),
                    key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname)):
        if c.co_name != '<module>':
            mon.set_local_events(TOOL, c, want)
    mon.set_events(TOOL, ev.PY_START)


def monitor_off():
    mon = sys.monitoring
    try:
        mon.set_events(TOOL, 0)
        for e in (mon.events.LINE, mon.events.INSTRUCTION, mon.events.PY_START):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
    except ValueError:
        pass


# --------------------------------------------------------------------------
# patched primitives (real behaviour outside a simulated task)
def _task():
    s = CUR
    if s is None:
        return None, None
    t = s.task()
    return (s, t) if t is not None else (None, None)


class SimLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s, t = _task()
        if s is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        tmo = None if timeout is None or timeout < 0 else timeout
        while True:
            if not s.block(lambda: not self._l.locked(), tmo):
                return False
            if self._l.acquire(False):
                return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    acquire_lock = acquire
    release_lock = release


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        self._b.release()
        return (c, o)

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0


_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_alive = threading.Thread.is_alive


def _t_start(self):
    s, t = _task()
    if s is None:
        return _orig_start(self)
    self._sim_task = s.spawn(self.run, name=self.name)
    self._started.set()


def _t_join(self, timeout=None):
    s, t = _task()
    st = getattr(self, '_sim_task', None)
    if s is None or st is None:
        return None if st is not None else _orig_join(self, timeout)
    s.block(lambda: st.done, timeout)


def _t_alive(self):
    st = getattr(self, '_sim_task', None)
    if st is not None:
        return not st.done
    return _orig_alive(self)


_seq = [0]


def _t_hash(self):
    """Sets of threads must not iterate in address order."""
    h = self.__dict__.get('_sim_seq')
    if h is None:
        _seq[0] += 1
        h = self.__dict__['_sim_seq'] = _seq[0]
    return h


_real_getpid = os.getpid


def _clock():
    s, t = _task()
    return REAL['time']() if s is None else s.clock()


def _perf():
    s, t = _task()
    return REAL['perf_counter']() if s is None else s.clock()


def _mono():
    s, t = _task()
    return REAL['monotonic']() if s is None else s.clock()


def _getpid():
    s, t = _task()
    return _real_getpid() if s is None or t is None else t.proc.pid


def _sleep(d):
    s, t = _task()
    if s is None:
        return REAL['sleep'](d)
    end = s.now + d
    s.block(lambda: s.now >= end, max(d, 1e-9))


# ---- multiprocessing.Pool -------------------------------------------------
class _Async:
    def __init__(self, pool):
        self.pool = pool
        self.done = False
        self.ok = True
        self.val = None

    def wait(self, timeout=None):
        s, t = _task()
        s.block(lambda: self.done, timeout)

    def ready(self):
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError('not ready')
        return self.ok

    def get(self, timeout=None):
        import multiprocessing
        s, t = _task()
        if not s.block(lambda: self.done, timeout):
            raise multiprocessing.TimeoutError
        if not self.ok:
            raise self.val
        return self.val


class SimPool:
    """multiprocessing.Pool on simulated processes.

    Tasks are chunked as the standard library chunks them, pickled per chunk
    and run in a worker with its own copy of module state.
    """

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        s, t = _task()
        if s is None:
            raise RuntimeError('SimPool used outside a simulation')
        n = processes if processes is not None else (os.cpu_count() or 1)
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        self._pool = [None] * n
        self._n = n
        self._q = []
        self._state = 'RUN'
        self._sim = s
        s.stat['pools'] = s.stat.get('pools', 0) + 1
        for k in range(n):
            proc = s.fork_proc('proc%d' % k)
            self._pool[k] = s.spawn(
                lambda k=k: self._worker(initializer, initargs),
                name='pool-proc-%d' % k, proc=proc)

    def _worker(self, initializer, initargs):
        s = self._sim
        if initializer is not None:
            initializer(*initargs)
        while True:
            # (a worker ends when the pool is closed or was forgotten)
            s.block(lambda: self._q or self._state != 'RUN')
            if not self._q:
                return
            blob, cb = self._q.pop(0)
            s.yield_(forced=True)       # ... and slow to start
            try:
                func, chunk, star, single = pickle.loads(blob)
                if single:
                    a, k = chunk
                    res = func(*a, **k)
                elif star:
                    res = [func(*a) for a in chunk]
                else:
                    res = [func(a) for a in chunk]
                out = (True, pickle.loads(pickle.dumps(res)))
            except (SimAbort, SimDeadlock, SimHang):
                raise
            except Exception as e:
                try:
                    e2 = pickle.loads(pickle.dumps(e))
                    out = (False, e2)
                except Exception:
                    out = (False, RuntimeError(repr(e)))
            s.yield_(forced=True)       # a worker may be slow to finish
            cb(out)

    def _submit(self, func, chunk, star, single, cb):
        if self._state != 'RUN':
            raise ValueError('Pool not running')
        try:
            blob = pickle.dumps((func, chunk, star, single))
        except Exception as e:
            cb((False, e))
            return
        self._sim.stat['chunks'] = self._sim.stat.get('chunks', 0) + 1
        self._q.append((blob, cb))

    def _map_async(self, func, iterable, star, chunksize=None, callback=None,
                   error_callback=None):
        items = list(iterable)
        r = _Async(self)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        if not items:
            r.done, r.val = True, []
            return r
        chunks = [items[i:i + chunksize]
                  for i in range(0, len(items), chunksize)]
        res = [None] * len(chunks)
        left = [len(chunks)]

        def mk(i):
            def cb(out):
                ok, v = out
                left[0] -= 1
                if ok:
                    res[i] = v
                elif r.ok:
                    r.ok, r.val = False, v
                if left[0] == 0:
                    if r.ok:
                        r.val = [x for c in res for x in c]
                        if callback:
                            callback(r.val)
                    elif error_callback:
                        error_callback(r.val)
                    r.done = True
            return cb
        for i, c in enumerate(chunks):
            self._submit(func, c, star, False, mk(i))
        return r

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._map_async(func, iterable, False, chunksize, callback,
                               error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._map_async(func, iterable, True, chunksize, callback,
                               error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        r = _Async(self)

        def cb(out):
            r.ok, r.val = out
            r.done = True
            self._sim.ndone = r.seq = getattr(self._sim, 'ndone', 0) + 1
            if r.ok and callback:
                callback(r.val)
            if not r.ok and error_callback:
                error_callback(r.val)
        self._submit(func, (tuple(args), dict(kwds)), False, True, cb)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        for r in rs:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        while rs:
            self._sim.block(lambda: any(r.done for r in rs))
            r = min((r for r in rs if r.done), key=lambda r: r.seq)
            rs.remove(r)
            yield r.get()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        self._q.clear()
        s, t = _task()
        if s is not None and t is not None and not s.aborting:
            for w in self._pool:
                if w is not None and not w.done and w.proc is not t.proc:
                    w.killed = True     # wherever it is
            if not t.killed:
                s.block(lambda: all(w is None or w.done for w in self._pool
                                    if w is not None and w.killed))

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        self._sim.block(lambda: all(w.done for w in self._pool))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        # An abandoned pool: the standard library terminates its workers.
        try:
            if self._state == 'RUN':
                self._state = 'TERMINATE'
        except Exception:
            pass


def install_primitives():
    """Patch the standard library's seams.  Call before importing falco."""
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.dummy
    import multiprocessing.pool
    import queue
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading.Thread.start = _t_start
    threading.Thread.join = _t_join
    threading.Thread.is_alive = _t_alive
    threading.Thread.__hash__ = _t_hash
    concurrent.futures.Future.__hash__ = _t_hash
    queue.SimpleQueue = queue._PySimpleQueue
    _time.time = _clock
    _time.perf_counter = _perf
    _time.monotonic = _mono
    _time.sleep = _sleep
    os.getpid = _getpid
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.context.BaseContext.Pool = \
        lambda self, *a, **k: SimPool(*a, **k)
    multiprocessing.cpu_count = lambda: 4
    os.cpu_count = lambda: 4

    def _tp(processes=None, initializer=None, initargs=()):
        class TP(SimPool):
            def __init__(self, n):
                s, t = _task()
                self._n = n or 4
                self._q, self._state, self._sim = [], 'RUN', s
                self._pool = [s.spawn(lambda: self._worker(initializer, initargs),
                                      name='tpool-%d' % k)
                              for k in range(self._n)]

            def _submit(self, func, chunk, star, single, cb):
                # threads share memory: keep the objects, skip pickling
                self._q.append(((func, chunk, star, single), cb))

            def _worker(self, initializer, initargs):
                s = self._sim
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    s.block(lambda: self._q or self._state != 'RUN')
                    if not self._q:
                        return
                    (func, chunk, star, single), cb = self._q.pop(0)
                    try:
                        if single:
                            out = (True, func(*chunk[0], **chunk[1]))
                        else:
                            out = (True, [func(*a) if star else func(a)
                                          for a in chunk])
                    except Exception as e:
                        out = (False, e)
                    cb(out)
        return TP(processes)
    multiprocessing.pool.ThreadPool = _tp
    multiprocessing.dummy.Pool = _tp

    class SimProcessPoolExecutor(concurrent.futures.Executor):
        def __init__(self, max_workers=None, mp_context=None,
                     initializer=None, initargs=(), max_tasks_per_child=None):
            self._p = SimPool(max_workers or 4, initializer, initargs)

        def submit(self, fn, /, *args, **kw):
            f = concurrent.futures.Future()
            f.set_running_or_notify_cancel()
            self._p.apply_async(fn, args, kw, callback=f.set_result,
                                error_callback=f.set_exception)
            return f

        def shutdown(self, wait=True, *, cancel_futures=False):
            self._p.close()
            if wait:
                self._p.join()
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor

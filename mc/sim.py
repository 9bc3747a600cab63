"""Controlled scheduler: complete CPNest runs in one process, every interleaving decided by the explorer.

install() replaces multiprocessing (Value, Pipe, Process, Lock, SyncManager, ...), signal.signal, os.getpid, time.time and tqdm;
it must run before cpnest is imported.  Each simulated process is a thread; only one runs at a time and control
changes hands only at operations on shared objects.  A fork is emulated by copying everything the child can reach,
messages are pickled.  Switching away from the running process, or picking another than the default successor when
it blocks, is a deviation.
"""
import collections, copy, ctypes, os, pickle, signal as _signal, sys, threading, time as _time, traceback, types
import multiprocessing as mp
import multiprocessing.managers, multiprocessing.sharedctypes, multiprocessing.synchronize, multiprocessing.process
import tqdm as _tqdm, tqdm.std
from mc import rng
from mc.explore import Violation, Divergence, Prune

_real_time, _real_getpid, _real_cpus = _time.time, os.getpid, os.cpu_count
_tls = threading.local()


CPUS = 2


class Killed(BaseException):
    """Unwinds a simulated process when the execution is over."""


def me(): return getattr(_tls, 'proc', None)


class Proc:
    def __init__(self, sim, idx, pid, fn, src, parent=None, handlers=None):
        self.sim, self.idx, self.pid, self.fn, self.src = sim, idx, pid, fn, src
        self.parent = parent
        self.handlers = dict(handlers or {})
        self.sem = threading.Semaphore(0)
        self.done = False
        self.wait = None           # predicate while blocked
        self.what = ''
        self.pending = []          # signals to deliver
        self.exitcode = None
        self.error = None
        self.target = None
        self.kill = False
        self.writes_seen = None    # writes by main up to the last poll
        self.nlike = 0
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        _tls.proc = self
        rng.set_thread(self.src)
        try:
            if self.sim.over: raise Killed()
            try:
                self.result = self.fn()
                self.exitcode = 0
            except SystemExit as e:
                self.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except (Killed, Violation, Divergence, Prune):
                raise
            except KeyboardInterrupt:
                self.exitcode = -2
            except BaseException as e:
                self.exitcode, self.error = 1, e
                self.trace = traceback.format_exc()
            if self.idx == 0:
                # like multiprocessing at exit: wait for the children
                self.sim.point('exit', wait=lambda: all(p.done for p in self.sim.procs[1:]), signals=False)
        except Killed:
            pass
        except BaseException as e:
            self.sim.fail(e)
        finally:
            self.done = True
            self.sim.leave(self)


class Sim:
    """One execution."""
    def __init__(self, ch, seed=0, horizon=20000, signals=None, like_horizon=20000, rng_for=None, tick=0.0,
                 sched=True):
        self.ch, self.seed = ch, seed
        self.procs, self.over, self.failure = [], False, None
        self.horizon, self.like_horizon = horizon, like_horizon
        self.signals = signals            # None, or function(sim, proc) -> list of (name, [procs], signum)
        self.nsig = 0
        self.maxsig = 1
        self.main_writes = 0
        self.npoints = 0
        self.rng_for = rng_for or (lambda idx: rng.Stream(self.seed * 1000 + idx))
        self.finished = threading.Semaphore(0)
        self.pids = 1000
        self.clock, self.tick = 1e9, tick
        self.sched = sched                # False: no scheduling deviations (default schedule only)
        self.trace = []
        self.monitors = []                # called after every shared operation

    # -- running
    def run(self, fn):
        global CUR
        CUR = self
        p = self._new(fn, None)
        p.thread.start()
        p.sem.release()
        self.finished.acquire()
        for q in self.procs:
            q.thread.join(20)
            if q.thread.is_alive(): raise RuntimeError('simulated process did not end')
        CUR = None
        if self.failure is not None: raise self.failure
        return p

    def _new(self, fn, parent):
        idx = len(self.procs)
        src = self.rng_for(idx)
        if parent is not None and hasattr(src, 'np_lineage'):
            src.np_lineage = parent.src.np_lineage           # numpy's state is inherited by a fork
            src.py_lineage = ('child', idx)                  # python reseeds `random` in the child
        p = Proc(self, idx, self.pids + idx, fn, src, parent, parent.handlers if parent else {})
        self.procs.append(p)
        return p

    def fail(self, e):
        if self.failure is None: self.failure = e
        self.over = True

    def leave(self, p):
        """p has finished: hand over."""
        if not self.over:
            try:
                nxt = self._select(p, 'end')
                if nxt is not None:
                    nxt.sem.release()
                    return
            except BaseException as e:
                self.fail(e)
        # over or nobody left: wake everyone so that they unwind
        alive = [q for q in self.procs if not q.done]
        if alive:
            self.over = True
            alive[0].sem.release()
        else:
            self.finished.release()

    def enabled(self):
        return [q for q in self.procs if not q.done and (q.wait is None or q.pending or q.wait())]

    def _select(self, p, label):
        en = self.enabled()
        if not en:
            if all(q.done for q in self.procs): return None
            self.deadlock()
        k = p.idx
        order = sorted(en, key=lambda q: (q.idx - k) % len(self.procs))
        i = self.ch.choose(len(order), label + ':' + ','.join(str(q.idx) for q in order), dev=True) if self.sched else 0
        return order[i]

    def deadlock(self):
        w = ['process %d (%s) waits at %s' % (q.idx, 'main' if q.idx == 0 else 'sampler', q.what)
             for q in self.procs if not q.done]
        w += ['process %d has failed: %s: %s' % (q.idx, type(q.error).__name__, q.error) for q in self.procs if q.error is not None]
        raise Violation('deadlock: ' + '; '.join(w), key='deadlock', detail=''.join(getattr(q, 'trace', '') for q in self.procs)[-2500:])

    def point(self, label, wait=None, signals=True):
        """Scheduling point before an operation of the running process; with wait, the operation blocks until it holds."""
        p = me()
        if p is None: return                     # outside a simulated run
        if self.over: raise Killed()
        self.npoints += 1
        self.ch.step()
        self.clock += self.tick
        if self.npoints > self.horizon:
            raise Violation('no end after %d scheduling points (livelock)' % self.npoints, key='horizon')
        if self.signals and signals and self.nsig < self.maxsig:
            opts = self.signals(self, p)
            if opts:
                i = self.ch.choose(1 + len(opts), 'signal@' + label, dev=True)
                if i:
                    self.nsig += 1
                    for q in opts[i - 1][1]: q.pending.append(opts[i - 1][2])
                    self.trace.append(('signal', opts[i - 1][0], label, p.idx))
        p.wait, p.what = wait, label
        q = self._select(p, label)
        if q is not p:
            q.sem.release()
            p.sem.acquire()
            if self.over: raise Killed()
        p.wait = None
        if p.kill: raise SystemExit(-15)
        if p.pending: self.deliver(p)
        if wait is not None and not wait():
            # woken by an ignored signal
            return self.point(label, wait, signals)

    def deliver(self, p):
        s = p.pending.pop(0)
        h = p.handlers.get(s)
        if callable(h): h(s, sys._getframe())
        elif h is None and s == _signal.SIGINT: raise KeyboardInterrupt()
        elif h is None: raise SystemExit(-int(s))

    def wrote(self):
        p = me()
        if p is None or p.idx == 0: self.main_writes += 1

    def observe(self, what):
        for m in self.monitors: m(self, what)


CUR = None


def point(label, wait=None):
    p = me()
    if p is not None: p.sim.point(label, wait)


# ---- shared objects ---------------------------------------------------------------------------------------------
class Lock:
    def __init__(self, ctx=None, recursive=False):
        self.owner, self.count, self.recursive = None, 0, recursive
    def __deepcopy__(self, memo): return self
    def free(self): return self.owner is None or (self.recursive and self.owner is me())
    def acquire(self, block=True, timeout=None):
        p = me()
        if block: point('acquire', wait=lambda: self.owner is None or (self.recursive and self.owner is p))
        else:
            point('try-acquire')
            if not self.free(): return False
        self.owner, self.count = p, self.count + 1
        return True
    def release(self):
        self.count -= 1
        if self.count <= 0: self.owner, self.count = None, 0
        point('release')
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release(); return False


def RLock(ctx=None): return Lock(recursive=True)


_conv = dict(d=ctypes.c_double, f=ctypes.c_float, i=ctypes.c_int, l=ctypes.c_long, b=ctypes.c_byte, B=ctypes.c_ubyte,
             I=ctypes.c_uint, L=ctypes.c_ulong, q=ctypes.c_longlong, h=ctypes.c_short)


class Value:
    """Shared value; reading and writing take its lock, like multiprocessing's."""
    def __init__(self, typ='d', *args, lock=True, **k):
        self.typ = _conv.get(typ, typ)
        self.lock = lock if isinstance(lock, Lock) else RLock()
        self.sync = lock is not False
        self._v = self.typ(*args).value
        self.history = []
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise RuntimeError('Synchronized objects should only be shared between processes through inheritance')
    def _wait(self):
        p = me()
        return (lambda: self.lock.owner is None or self.lock.owner is p) if self.sync else None
    def get(self):
        point('get', self._wait())
        return self._v
    def set(self, x):
        point('set', self._wait())
        old, self._v = self._v, self.typ(x).value
        p = me()
        self.history.append((p.idx if p else None, old, self._v))
        if p is not None:
            p.sim.wrote()
            p.sim.observe(('set', self, old, self._v))
    value = property(get, set)
    def get_lock(self): return self.lock
    def get_obj(self): return self
    def acquire(self, *a, **k): return self.lock.acquire(*a, **k)
    def release(self): return self.lock.release()
    def __enter__(self): self.lock.acquire(); return self
    def __exit__(self, *a): self.lock.release(); return False


def RawValue(typ, *args): return Value(typ, *args, lock=False)


class Conn:
    """One end of a duplex pipe."""
    def __init__(self): self.inbox, self.peer, self.closed = collections.deque(), None, False
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise RuntimeError('connections cannot be pickled here')
    def send(self, o):
        b = pickle.dumps(o)
        point('send')
        self.peer.inbox.append(b)
        p = me()
        if p is not None: p.sim.observe(('send', self, o, p))
    def recv(self):
        point('recv', wait=lambda: bool(self.inbox))
        if not self.inbox: raise EOFError
        return pickle.loads(self.inbox.popleft())
    def poll(self, timeout=0.0):
        p = me()
        before = p.writes_seen if p is not None else None
        if p is not None: p.writes_seen = p.sim.main_writes
        point('poll')
        if self.inbox or p is None or timeout: return bool(self.inbox)
        sim = p.sim
        # nothing to do: stay idle until something changes (default), or go on at once (deviation)
        if sim.main_writes != before: return False      # main changed something since the last time round
        if sim.ch.choose(2, 'idle', dev=True) if sim.sched else 0: return False
        sim.point('idle', wait=lambda: bool(self.inbox) or sim.main_writes != before)
        return bool(self.inbox)
    def close(self): pass
    def fileno(self): return 0


def Pipe(duplex=True):
    a, b = Conn(), Conn()
    a.peer, b.peer = b, a
    return a, b


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.target, self.args, self.kwargs, self.daemon, self.name = target, args, kwargs, daemon, name or 'Process'
        self.proc = None
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise TypeError('cannot pickle a process object')
    def start(self):
        point('start')
        parent = me()
        sim = parent.sim
        memo = {}
        target, args, kwargs = clone((self.target, tuple(self.args), dict(self.kwargs)), memo)
        self.proc = sim._new((lambda: target(*args, **kwargs)) if target else (lambda: None), parent)
        self.proc.target = target
        self.proc.thread.start()
        sim.observe(('start', self.proc))
    def run(self):
        if self.target: self.target(*self.args, **self.kwargs)
    def join(self, timeout=None):
        if self.proc is None: raise AssertionError('can only join a started process')
        if timeout is None: point('join', wait=lambda: self.proc.done)
        else: point('join-timeout')
    def is_alive(self):
        point('is_alive')
        return self.proc is not None and not self.proc.done
    def terminate(self):
        point('terminate')
        if self.proc and not self.proc.done:
            self.proc.kill = True; self.proc.pending.append(_signal.SIGTERM)
    kill = terminate
    @property
    def exitcode(self): return self.proc.exitcode if self.proc else None
    @property
    def pid(self): return self.proc.pid if self.proc else None
    ident = pid


class SyncManager:
    def __init__(self, *a, **k): self._started = False
    def start(self, *a, **k):
        point('manager')
        self._started = True
    def shutdown(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def Value(self, typ, v=0): return Value(typ, v)
    def Lock(self): return Lock()
    def RLock(self): return RLock()


def active_children():
    p = me()
    return [] if p is None else [q for q in p.sim.procs[1:] if not q.done]


# ---- copying the reachable state of a process ----------------------------------------------------------------
_atomic = (int, float, complex, str, bytes, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType,
           types.ModuleType, range, types.GeneratorType, property)


def clone(o, memo):
    """Copy as fork does: also what pickle would leave out."""
    if isinstance(o, _atomic): return o
    k = id(o)
    if k in memo: return memo[k][0]
    t = type(o)
    if t is tuple:
        r = tuple(clone(x, memo) for x in o)
    elif t is list:
        r = []; memo[k] = (r, o)
        r.extend(clone(x, memo) for x in o)
    elif t is dict:
        r = {}; memo[k] = (r, o)
        for a, b in o.items(): r[clone(a, memo)] = clone(b, memo)
    elif t is set: r = set(clone(x, memo) for x in o)
    elif t is collections.deque:
        r = collections.deque(maxlen=o.maxlen); memo[k] = (r, o)
        r.extend(clone(x, memo) for x in o)
    elif t is types.MethodType:
        r = types.MethodType(o.__func__, clone(o.__self__, memo))
    elif hasattr(o, '__deepcopy__') and not isinstance(o, __import__('numpy').ndarray):
        r = o.__deepcopy__(memo)
    elif hasattr(o, '__dict__') and isinstance(t, type) and not t.__module__.startswith(('numpy', 'scipy', 'logging')):
        r = t.__new__(t); memo[k] = (r, o)
        if isinstance(o, list): list.extend(r, [clone(x, memo) for x in o])
        for a, b in o.__dict__.items(): r.__dict__[a] = clone(b, memo)
    elif t.__module__.startswith('logging'): r = o
    else:
        import numpy as np
        if isinstance(o, np.ndarray) and o.dtype == object:
            r = np.empty(o.shape, dtype=object); memo[k] = (r, o)
            for i in np.ndindex(*o.shape): r[i] = clone(o[i], memo)
        else: r = copy.deepcopy(o)
    memo[k] = (r, o)
    return r


# ---- installation ---------------------------------------------------------------------------------------------
class Bar:
    """Stands for tqdm."""
    def __init__(self, it=None, *a, **k): self.it = it
    def __iter__(self): return iter(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def update(self, *a): pass
    def close(self): pass
    def set_description(self, *a, **k): pass
    def refresh(self, *a): pass


def _signal_signal(s, h):
    p = me()
    if p is None: return _real_signal(s, h)
    old = _signal_get(s)
    if h == _signal.SIG_DFL and s != _signal.SIGINT or h is _signal.default_int_handler and s == _signal.SIGINT: p.handlers.pop(s, None)
    else: p.handlers[s] = h
    return old


def _signal_get(s):
    p = me()
    if p is None: return _real_getsignal(s)
    return p.handlers.get(s, _signal.default_int_handler if s == _signal.SIGINT else _signal.SIG_DFL)


_real_signal, _real_getsignal = _signal.signal, _signal.getsignal
_done = False


def install():
    global _done
    if _done: return
    _done = True
    rng.install()
    for n, f in dict(Value=Value, RawValue=RawValue, Pipe=Pipe, Process=Process, Lock=Lock, RLock=RLock,
                     active_children=active_children, cpu_count=lambda: CPUS).items():
        setattr(mp, n, f)
    mp.sharedctypes.Value = Value
    mp.sharedctypes.RawValue = RawValue
    mp.managers.SyncManager = SyncManager
    _signal.signal, _signal.getsignal = _signal_signal, _signal_get
    os.getpid = lambda: me().pid if me() is not None else _real_getpid()
    _time.time = lambda: me().sim.clock if me() is not None else _real_time()
    os.cpu_count = lambda: CPUS if me() is not None else _real_cpus()
    _tqdm.tqdm = Bar
    tqdm.std.tqdm = Bar
    import logging
    logging.logProcesses = False
    logging.logMultiprocessing = False

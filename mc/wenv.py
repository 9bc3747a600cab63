"""One real sampler (worker) against a scripted main process: every answer it sends is judged as it is sent."""
import array, logging, math, os, sys
from mc import rng
rng.install()
import tqdm


class Bar:
    """Stands for tqdm."""
    def __init__(self, it=None, *a, **k): self.it = it
    def __iter__(self): return iter(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def update(self, *a): pass
    def close(self): pass


if tqdm.tqdm.__name__ != 'Bar': tqdm.tqdm = tqdm.std.tqdm = Bar
import numpy as np
import cpnest, cpnest.sampler as SAm, cpnest.proposal as PRm, cpnest.model as MODm, cpnest.cpnest as CPm
from cpnest.parameter import LivePoint
from mc.explore import Violation
from mc.nsenv import Val

logging.disable(logging.CRITICAL)
INF, NAN = float('inf'), float('nan')
TYPES = dict(mhs=SAm.MetropolisHastingsSampler, hmc=SAm.HamiltonianMonteCarloSampler, sli=SAm.SliceSampler)
REAL = dict(mhs=PRm.DefaultProposalCycle, hmc=PRm.HamiltonianProposalCycle, sli=PRm.EnsembleSliceProposalCycle)


class Model(MODm.Model):
    """x (, y) in (0,1).  The prior may vanish in a part of the box, the likelihood may be invalid in another one."""
    def __init__(self, kind='quad', dim=2, hole=None, limit=100000):
        self.names, self.bounds = ['x', 'y', 'z', 'u', 'v', 'w'][:dim], [[0.0, 1.0]] * dim
        self.kind, self.hole, self.limit, self.calls = kind, hole, limit, 0
    def __deepcopy__(self, memo): return self
    def __reduce__(self): return (Model, (self.kind, len(self.names), self.hole))
    def value(self, v):
        k, x = self.kind, v[0]
        if k == 'quad': return -sum((a - 0.5) ** 2 for a in v)
        if k == 'ramp': return x
        if k == 'steps': return math.floor(4 * x) / 4.0
        if k == 'minusinf': return -INF if x < 0.3 else x
        if k == 'nan': return NAN if x < 0.3 else x
        raise ValueError(k)
    def prior(self, v):
        if not all(0.0 < a < 1.0 for a in v): return -INF
        if self.hole and self.hole[0] <= v[-1] <= self.hole[1]: return -INF
        return -v[0]
    def log_likelihood(self, p):
        self.calls += 1
        if self.calls > self.limit: raise Violation('the sampler does not come back: %d likelihood calls' % self.calls, key='horizon')
        return self.value(list(p.values))
    def log_prior(self, p):
        if not np.isfinite(super().log_prior(p)): return -INF
        return self.prior(list(p.values))
    def force(self, p):
        f = np.zeros(1, dtype={'names': list(self.names), 'formats': ['f8' for _ in self.names]})
        f['x'] = 1.0                      # gradient of the potential
        return f


class Dev(rng.Stream):
    """A deterministic stream in which the explorer may replace any draw by an extreme one."""
    def __init__(self, ch, seed=0, stop=10 ** 9, start=0):
        rng.Stream.__init__(self, seed)
        self.ch, self.n, self.start, self.stop, self.on = ch, 0, start, stop, True
    def _alt(self, v, alts, kind):
        self.n += 1
        if not self.on or not self.start < self.n <= self.stop: return v
        i = self.ch.choose(1 + len(alts), kind, True)
        return v if i == 0 else alts[i - 1]
    def u01(self): return self._alt(rng.Stream.u01(self), (0.0, 1 - 2.0 ** -53), 'u')
    def gauss(self): return self._alt(rng.Stream.gauss(self), (1e-300, 7.0, -7.0), 'g')
    def expo(self): return self._alt(rng.Stream.expo(self), (1e-300, 30.0), 'e')
    def index(self, n):
        v = rng.Stream.index(self, n)
        alts = tuple(sorted({0, n - 1} - {v}))
        return self._alt(v, alts, 'i%d' % len(alts)) if alts else v


class Manager:
    def __init__(self, drv):
        self.logLmin, self.logLmax = Val(-INF), Val(-INF)
        self.checkpoint_flag = Val(0)
        self.periodic_checkpoint_interval = INF
        self.nthreads = 1
        self.drv = drv
    def connect_producer(self): return self.drv, 0


def key(p): return tuple(p.values)
def full(p): return (tuple(p.values), p.logL, p.logP)
def same(a, b): return a == b or (a != a and b != b)


class Driver:
    """Plays the main process at the worker's end of the pipe.

    script(driver) is called whenever the worker looks for a request and returns 'idle', 'request', 'none', 'inf' or 'flag'.
    Thresholds follow the rule of the nested sampler with nlive points and this worker alone.
    """
    interrupted = False
    foreign = None
    def __init__(self, model, script, nlive=3, seed=1, population=None, idle_max=60):
        self.model, self.script, self.nlive = model, script, nlive
        self.m = Manager(self)
        self.live, self.queue, self.inflight, self.answers = [], [], None, []
        self.asked = self.answered = 0
        self.idle = 0
        self.ended = False
        self.rng = rng.Stream(seed)
        self.idle_max = idle_max
        self.trouble = None
        self.src = None
        self.worker = None
        self.on_answer = None
        self.population = population
        self.thr = -INF

    # --- main's side
    def _next(self):
        """The point main sends next, and the threshold it sets before."""
        if len(self.live) < self.nlive:
            if self.population is not None and self.asked < len(self.population):
                p = LivePoint(self.model.names, d=array.array('d', self.population[self.asked]))
            else:
                while True:
                    p = LivePoint(self.model.names, d=array.array('d', [self.rng.u01() for _ in self.model.names]))
                    if self.model.prior(list(p.values)) > -INF: break
            p.logP, p.logL = -INF, -INF           # as the model draws it: not evaluated
            self.m.logLmin.value = -INF
        else:
            x = self.foreign(self.asked) if self.foreign else None
            if x is not None:                     # other samplers have moved the live points in the meantime
                self.live = []
                for k in range(self.nlive):
                    p = LivePoint(self.model.names, d=array.array('d', [x + 1e-6 * k] * len(self.model.names)))
                    h = self.model.hole
                    if h and h[0] <= p.values[-1] <= h[1]: p.values[-1] = h[1] + 0.01 - 1e-6 * k
                    p.logP, p.logL = self.model.prior(list(p.values)), self.model.value(list(p.values))
                    self.live.append(p)
            self.live.sort(key=lambda q: q.logL)
            p = self.live[0].copy()
            self.m.logLmin.value = p.logL
        self.thr = self.m.logLmin.value
        return p

    def _act(self):
        if self.queue: return True
        a = self.script(self)
        if a == 'idle':
            self.idle += 1
            return False
        self.idle = 0
        if a == 'request':
            self.queue.append(self._next())
            self.asked += 1
        elif a == 'none':
            self.queue.append(None)
        elif a == 'inf': self.m.logLmin.value = INF; return False
        elif a == 'flag': self.m.checkpoint_flag.value = 1; return False
        else: raise AssertionError(a)
        return True

    # --- the pipe
    def poll(self, timeout=None):
        if self.ended: raise Violation('the worker goes on after it was told to stop', key='stop')
        if self.m.logLmin.value == INF: raise Violation('the worker goes on after the end of sampling', key='stop')
        if self.m.checkpoint_flag.value: raise Violation('the worker goes on after it was told to write a checkpoint and stop', key='stop')
        return self._act()

    def recv(self):
        if not self.queue:
            while not self._act(): pass
        p = self.queue.pop(0)
        if p is None:
            self.ended = True
            return None
        if self.inflight is not None: raise Violation('a second request is taken before the first has been answered', key='order')
        before = {}
        for q in self.worker.evolution_points: before[key(q)] = full(q)
        before[key(p)] = full(p)
        self.inflight = (p, self.m.logLmin.value, before)
        return p

    def send(self, msg):
        if self.inflight is None: raise Violation('an answer was sent that nobody had asked for', key='order')
        req, thr, before = self.inflight
        self.inflight = None
        self.answered += 1
        acc, sub, nmcmc, p = msg
        check_point(self.model, p, thr, before)
        for n, v in (('overall', acc), ('last', sub)):
            # the two counters of the overall acceptance may differ by one sample after an interruption between them
            if not (0.0 <= v and (v <= 1.0 or self.interrupted and n == 'overall')): raise Violation('the %s acceptance is %r' % (n, v), key='acceptance')
        new = key(p) not in before
        if new and self.m.logLmax.value < p.logL:
            raise Violation('shared largest likelihood %r below the returned %r' % (self.m.logLmax.value, p.logL), key='logLmax')
        self.answers.append(dict(acc=acc, sub=sub, nmcmc=nmcmc, point=full(p), new=new, thr=thr))
        if self.on_answer: self.on_answer(self, req, self.answers[-1])
        # main keeps the point if it is above the threshold
        q = p.copy()
        if q.logP > -INF and q.logL > self.m.logLmin.value:
            if len(self.live) >= self.nlive: self.live.pop(0)
            self.live.append(q)

    def close(self): pass


def check_point(model, p, thr, before):
    v = list(p.values)
    if key(p) in before:
        f = before[key(p)]
        ok = same(p.logL, model.value(v)) or p.logL == -INF
        if same(p.logL, f[1]) and same(p.logP, f[2]) or ok and same(p.logP, model.prior(v)): return
        raise Violation('the point %r was known as %r and is returned as %r' % (v, f, full(p)), key='changed')
    lp, ll = model.prior(v), model.value(v)
    if lp == -INF: raise Violation('returned point %r lies where the prior is zero' % v, key='prior')
    if abs(p.logP - lp) > 1e-12: raise Violation('log-prior of %r is %r, returned as %r' % (v, lp, p.logP), key='logP')
    if not same(p.logL, ll): raise Violation('log-likelihood of %r is %r, returned as %r' % (v, ll, p.logL), key='logL')
    if not p.logL > thr: raise Violation('new point with log-likelihood %r, threshold %r' % (p.logL, thr), key='threshold')


def worker(kind, model, drv, prop, poolsize=4, maxmcmc=2, seed=3, verbose=0, sample_prior=False, out=None):
    s = TYPES[kind](model, maxmcmc, seed=seed, output=out or os.environ['MC_TMP'], verbose=verbose, sample_prior=sample_prior,
                    poolsize=poolsize, proposal=prop, manager=drv.m,
                    resume_file=os.path.join(out or os.environ['MC_TMP'], 'w%d_%s.pkl' % (os.getpid(), kind)))
    drv.worker = s
    return s


def life(s, drv):
    """The whole life of the worker.  Returns its exit status."""
    try:
        s.produce_sample()
        rc = 0
    except SystemExit as e:
        rc = e.code
    if drv.inflight is not None: raise Violation('the worker ended without answering its last request', key='answer')
    if drv.asked != drv.answered + len(drv.queue):
        raise Violation('%d requests, %d answers' % (drv.asked, drv.answered), key='count')
    told = drv.ended or drv.m.logLmin.value == INF or drv.m.checkpoint_flag.value
    if not told: raise Violation('the worker ended by itself', key='stop')
    want = 130 if drv.m.checkpoint_flag.value else 0
    if rc != want: raise Violation('the worker ended with status %r' % rc, key='status')
    return rc


def plan(n, idles=(), end='none', limit=80):
    """Requests until the live set is full and n more have been made; idle turns before those listed in idles."""
    left = dict(idles)
    def f(d):
        if d.asked and left.get(d.asked, 0) > 0:
            left[d.asked] -= 1
            return 'idle'
        if d.asked >= limit or d.asked >= n: return end
        return 'request'
    return f


def choose_plan(ch, n, ends=('none', 'inf', 'flag'), idles=1):
    """The explorer decides on idling and on the end."""
    st = dict(idle=0)
    def f(d):
        if d.asked >= n: return ends[ch.choose(len(ends), 'end')]
        if st['idle'] < idles and ch.choose(2, 'idle'):
            st['idle'] += 1
            return 'idle'
        return 'request'
    return f


def key_of(a): return a['point'][0]

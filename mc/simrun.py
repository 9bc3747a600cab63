"""Complete CPNest runs under the controlled scheduler."""
from mc import sim as S
S.install()
import array, logging, math, os, random, shutil
import numpy as np
import cpnest, cpnest.cpnest as CPm, cpnest.NestedSampling as NSm, cpnest.sampler as SAm, cpnest.model as MODm, cpnest.proposal as PRm
from cpnest.parameter import LivePoint
from mc import rng
from mc.explore import Violation

logging.disable(logging.CRITICAL)
INF, NAN = float('inf'), float('nan')


_seen = [set()]


class Model(MODm.Model):
    """x in (0,1).  Shapes chosen so that threshold, ties and invalid regions all occur."""
    def __init__(self, kind='flat', dim=1, names=None):
        self.names = names or ['x', 'y', 'z'][:dim]
        self.bounds = [[0.0, 1.0]] * dim
        self.kind = kind
        self.seen = _seen[0] = set()          # likelihoods that were really evaluated
        self.calls = 0
    def __deepcopy__(self, memo): return self
    def __reduce__(self): return (_model, (self.kind, len(self.names)))
    def value(self, x):
        k = self.kind
        if k == 'ramp': return x
        if k in ('flat', 'tilt'): return 0.1 * x
        if k == 'quad': return -(x - 0.5) ** 2
        if k == 'steps': return math.floor(8 * x) / 8.0
        if k == 'minusinf': return -INF if x < 0.4 else x
        if k == 'nan': return NAN if x < 0.4 else x
        if k == 'both': return NAN if x < 0.25 else (-INF if x < 0.5 else x)
        raise ValueError(k)
    def log_likelihood(self, p):
        q = S.me()
        if q is not None:
            q.nlike += 1
            if q.nlike > q.sim.like_horizon:
                raise Violation('process %d does not come back: more than %d likelihood calls' % (q.idx, q.sim.like_horizon), key='horizon')
        v = self.value(p.values[0])
        self.seen.add(v)
        self.calls += 1
        return v
    def log_prior(self, p):
        v = super().log_prior(p)
        return v - 6.0 * p.values[0] if self.kind == 'tilt' and v == 0.0 else v
    def force(self, p):
        return np.zeros(1, dtype={'names': list(self.names), 'formats': ['f8' for _ in self.names]})


def _model(kind, dim):
    seen = _seen[0]
    m = Model(kind, dim)
    # a copy in a proposal that was unpickled counts with the original
    m.seen = _seen[0] = seen
    return m


def threshold_x():
    """Where the likelihood reaches the present threshold (no scheduling point)."""
    sim = S.me().sim
    c = sim.box.get('c')
    t = c.NS.logLmin._v if c is not None else -INF
    return min(1.0, max(0.0, t / sim.box['scale'])) if t == t and abs(t) < INF else 0.0


def draw_point(old):
    """Anywhere, or above the threshold: runs stay short also near the maximum."""
    new = old.copy()
    up = random.random() < 0.5
    for i in range(new.dimension):
        u = random.random()
        t = threshold_x() if up and i == 0 else 0.0
        new.values[i] = t + (1 - t) * (0.001 + 0.998 * u)
    return new


class MHJump(PRm.EnsembleProposal):
    log_J = 0.0
    def get_sample(self, old, **k): return draw_point(old)


class HMCJump(PRm.EnsembleProposal):
    log_J = 0.0
    def __init__(self, model=None): self.model, self.proposals = model, [self._Part()]
    class _Part:
        def update_time_step(self, a): pass
        def update_trajectory_length(self, n): pass
    def get_sample(self, old, logLmin=-INF, **k):
        new = draw_point(old)
        new.logP = self.model.log_prior(new)
        new.logL = self.model.log_likelihood(new)
        return new


class SliceJump(PRm.EnsembleProposal):
    log_J = 0.0
    def get_direction(self, mu=1.0, **k):
        d = LivePoint(self.ensemble[0].names)
        s = max(1e-9, 1 - threshold_x()) ** random.random()
        for i in range(d.dimension): d.values[i] = s
        return d


STUBS = dict(mhs=MHJump, hmc=HMCJump, sli=SliceJump)
REAL = dict(mhs=PRm.DefaultProposalCycle, hmc=PRm.HamiltonianProposalCycle, sli=PRm.EnsembleSliceProposalCycle)


def fresh(tag=''):
    d = os.path.join(os.environ['MC_TMP'], 's%d%s' % (os.getpid(), tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


import cpnest.plot as PLm
_plots = {n: getattr(PLm, n) for n in dir(PLm) if n.startswith('plot_')}
_stateplot = NSm._NSintegralState.plot


def plots(on):
    for n, f in _plots.items(): setattr(PLm, n, f if on else (lambda *a, **k: None))
    NSm._NSintegralState.plot = _stateplot if on else (lambda *a, **k: None)


plots(False)


def run(ch, model, out, nlive=3, nthreads=2, nham=0, nsl=0, poolsize=4, maxmcmc=2, verbose=0, seed=11, resume=False,
        prior_sampling=False, proposals=None, sched=True, signals=None, maxsig=1, horizon=20000, monitors=(),
        interval=None, tick=0.0, simseed=0, like_horizon=20000, before=None, after=None, rng_for=None):
    """Returns (sim, main process, CPNest object or None)."""
    sim = S.Sim(ch, seed=simseed, horizon=horizon, like_horizon=like_horizon, signals=signals, sched=sched, tick=tick, rng_for=rng_for)
    sim.maxsig = maxsig
    sim.monitors = list(monitors)
    box = dict(scale=0.1 if model.kind in ('flat', 'tilt') else 1.0)
    sim.box = box

    def body():
        box['phase'] = 'init'
        c = cpnest.CPNest(model, nlive=nlive, poolsize=poolsize, output=out, verbose=verbose, seed=seed, maxmcmc=maxmcmc,
                          nthreads=nthreads, nhamiltonian=nham, nslice=nsl, resume=resume, proposals=proposals or STUBS,
                          periodic_checkpoint_interval=interval, prior_sampling=prior_sampling)
        box['c'] = c
        box['phase'] = 'run'
        if before: before(sim, c)
        c.run()
        box['phase'] = 'done'
        if after: after(sim, c)
        return c
    p = sim.run(body)
    return sim, p, box.get('c')


class Default:
    """Takes the default everywhere; steps are counted in ch."""
    def __init__(self, ch=None, signal=None): self.ch, self.signal = ch, signal
    def choose(self, n, label='', dev=False):
        self.step()
        return min(n - 1, 1 + self.signal) if self.signal is not None and label.startswith('signal') else 0
    def step(self, k=1):
        if self.ch is not None: self.ch.step(k)
    def state(self, *a): pass


def workers(sim): return sim.procs[1:]


def sampler(proc): return getattr(proc.target, '__self__', None)


def main_signals(sim, p):
    """Interrupt of the main process only, or of every process, at any point of run()."""
    m = sim.procs[0]
    if sim.box.get('phase') != 'run' or m.done or 15 not in m.handlers: return []
    live = [q for q in sim.procs if not q.done]
    late = sim.box['c'].NS.logLmin._v == INF          # sampling is over
    out = [('late-main' if late else 'main', [m], 15)]
    if len(live) > 1: out.append(('late-all' if late else 'all', live, 2))
    return out


def main_only(sim, p): return main_signals(sim, p)[:1]


def check_ends(sim, p, what=''):
    """No unexpected failure, every process ended; exit status 0 when there was no signal, else 130."""
    sig = [t for t in sim.trace if t[0] == 'signal']
    for q in sim.procs:
        if q.error is not None and not (sig and isinstance(q.error, CPm.CheckPoint)):
            raise Violation('%s failed: %s: %s' % ('main' if q.idx == 0 else 'sampler %d' % q.idx, type(q.error).__name__, q.error),
                            key='exception', detail=getattr(q, 'trace', '')[-2500:])
    if not sig:
        for q in sim.procs:
            if q.exitcode != 0:
                raise Violation('%s ended with status %r' % ('main' if q.idx == 0 else 'sampler %d' % q.idx, q.exitcode), key='status')

from mc import wenv as W, rng
from mc.explore import Violation
import numpy as np, os, random
from mc.wenv import LivePoint, PRm, INF
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of draws, proposal outcomes, idle turns and ways to end for a real sampler process driven by a '
             'scripted main process; every answer is judged when it is sent')
NOTE = 'Short lives exhaustively with finite draws; long lives with the built-in proposals and every single draw replaced by extreme values; pools of 200 points in up to six dimensions on fixed draws.'
ASSUME = ['one request is outstanding at a time (the main process never sends a second one)', 'Hamiltonian proposals get at least 14 distinct finite points']

GRID = (0.8, 0.4, 0.1, 0.95, 1.5)     # 0.95: prior zero, 1.5: out of bounds


class Grid(PRm.EnsembleProposal):
    """Jumps to one of a few places, as the explorer decides."""
    log_J = 0.0
    def __init__(self, model=None): self.model, self.proposals, self.ch, self.n = model, [self], None, 0
    def __getstate__(self): return {}
    def update_time_step(self, a): pass
    def update_trajectory_length(self, n): pass
    def get_sample(self, old, logLmin=None, **k):
        new = old.copy()
        self.n += 1
        i = self.ch.choose(len(GRID), 'jump') if self.ch else 1
        # never twice the same point
        new.values[0] = GRID[i] + (self.n * 1e-4 if i < 3 else 0.0)
        for j in range(1, new.dimension): new.values[j] = new.values[0]
        if logLmin is not None:
            new.logP = self.model.log_prior(new)
            new.logL = self.model.log_likelihood(new)
            if not new.logP > -INF: self.log_J = -INF
            else: self.log_J = 0.0
        return new
    def get_direction(self, mu=1.0, **k):
        i = self.ch.choose(2, 'direction') if self.ch and len(self.model.names) > 1 else 0
        return np.array([(0.5, 2.0)[i]] * len(self.ensemble[0].names))


class Quiet:
    def choose(self, n, label='', dev=False): return 1 if label == 'jump' else 0


quiet = Quiet()


def short(case, ch):
    kind, mk, n, poolsize, maxmcmc, dim, start, vary, far = case
    model = W.Model(mk, dim=dim, hole=(0.9, 0.97), limit=5000)
    plan = W.choose_plan(ch, n, idles=2) if vary == 'plan' else W.plan(n, idles=((1, 1),))
    src = rng.Enum(ch, u=[(0.4, .5), (0.97, .5)] if kind == 'sli' else [(0.3, .5), (0.9, .5)], e=[(0.5, 1.0)])

    def script(d):
        a = plan(d)
        # idle turns follow the default: their choices would multiply the others
        src.ch, g.ch = (quiet, quiet) if a == 'idle' or vary == 'plan' else (ch, ch)
        return a
    drv = W.Driver(model, script, nlive=1, population=[[x] * dim for x in start])
    if far is not None: drv.foreign = lambda k: far[k - 1] if k - 1 < len(far) else None
    g = Grid(model)
    s = W.worker(kind, model, drv, g, poolsize=poolsize, maxmcmc=maxmcmc)
    with rng.using(rng.Stream(5)): s.reset()
    with rng.using(src):
        rc = W.life(s, drv)
    ch.outcome = (case, rc, tuple((a['new'], a['nmcmc'], a['point'][1]) for a in drv.answers))
    ch.state((kind, tuple(W.full(p) for p in s.evolution_points)))


def real(case, ch):
    kind, mk, n, poolsize, maxmcmc, dim, seed, hole, end, phase, far = case
    model = W.Model(mk, dim=dim, hole=hole, limit=200000)
    drv = W.Driver(model, W.plan(n, idles=((4, 2), (5, 1)), end=end), nlive=3, seed=seed)
    if far is not None: drv.foreign = lambda k: far[k - 3] if k - 3 < len(far) else None
    src = W.Dev(ch, seed)
    src.on = phase == 'reset'
    with rng.using(src):
        s = W.worker(kind, model, drv, W.REAL[kind](model=model) if kind != 'mhs' else W.REAL[kind](), poolsize=poolsize, maxmcmc=maxmcmc, seed=seed)
        s.reset()
        src.on = phase == 'life'
        rc = W.life(s, drv)
    pool(s, model, poolsize)
    ch.outcome = (case[:2], rc, tuple(round(a['point'][1], 6) for a in drv.answers), tuple(a['new'] for a in drv.answers))
    ch.state((case, ch.outcome))


def pool(s, model, n):
    """The pool keeps its size and only holds possible points."""
    if len(s.evolution_points) != n: raise Violation('the pool has %d points instead of %d' % (len(s.evolution_points), n), key='pool')
    for p in s.evolution_points:
        if model.prior(list(p.values)) == -INF: raise Violation('a point without prior in the pool: %r' % (W.full(p),), key='pool')
        if p.logL != -INF and not W.same(p.logL, model.value(list(p.values))):
            raise Violation('a point in the pool has a wrong likelihood: %r' % (W.full(p),), key='pool')


def main(ctx):
    q = ctx.quick
    A, B = (0.1, 0.4), (0.8, 0.5)
    sh = []
    for kind in ('mhs', 'hmc', 'sli'):
        for mk in ('quad', 'steps', 'nan'):
            for st in (A, B):
                m = 2 if kind != 'sli' else 1
                sh.append((kind, mk, 2, 4, m, 1, st, 'jumps', None))
                sh.append((kind, mk, 4 if q else 6, 4, m, 1, st, 'plan', None))
                # other samplers raise the threshold: above many or all points of the pool
                for far in ((0.35,), (0.47,)): sh.append((kind, mk, 2, 4, m, 1, st, 'jumps', far))
                if not q: sh += [(kind, mk, 3, 4, m, 2, st, 'jumps', None), (kind, mk, 2, 4, m + 1, 1, st, 'jumps', None), (kind, mk, 3, 4, m, 1, st, 'jumps', (0.35, 0.45))]
    ctx.explore_cases('short lives', short, sh, budget=ctx.budget(120, 900),
                      rule='all jumps on a grid with forbidden places, acceptance draws, idle turns, ways to end')
    cs = []
    for kind in ('mhs', 'sli', 'hmc'):
        ps, mm = (24, 10) if kind == 'hmc' else (8, 5)
        for mk in (('quad', 'steps', 'minusinf', 'nan') if kind != 'hmc' else ('quad',)):
            for seed in ((1,) if q else (1, 2, 3)):
                for dim, hole in ((2, (0.3, 0.6)), (1, None)):
                    for ph in ('life', 'reset'):
                        if kind == 'hmc' and ph == 'reset' and q: continue
                        for far in (None,) + ((() if ph == 'reset' else ((0.4, 0.45, 0.47),)) if q else ((0.4, 0.45, 0.47), (0.62, 0.6, 0.495, 0.497))):
                            cs.append((kind, mk, 6 if q else 9, ps, mm, dim, seed, hole, 'none' if seed % 2 else 'inf', ph, far))
    ls = [(k, mk, 30, 200, 40, d, 3, None, 'none', 'off', far) for k in ('mhs', 'sli', 'hmc') for mk in ('quad', 'steps') for d in (1, 6) for far in (None, (0.4, 0.45, 0.47))]
    ctx.for_all('large pools', real, ls, budget=ctx.budget(60, 300), rule='a pool of 200 points, up to six parameters')
    ctx.explore_cases('built-in proposals', real, cs, bound=1, budget=ctx.budget(150, 1500),
                      rule='every draw replaced by extreme values, one at a time')

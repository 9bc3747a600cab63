from mc import wenv as W, rng
from mc.explore import Violation
from fractions import Fraction as F
import itertools, math
import numpy as np
from mc.wenv import PRm, INF, NAN, LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('explicit construction of the complete transition matrix of the real sampler on every small finite state space (all proposal '
             'outcomes and acceptance draws with exact rational probabilities), checked for detailed balance and against powers of the reference kernel')
NOTE = ('Priors and proposal ratios are powers of two so that the acceptance probabilities are multiples of 1/16 and a grid of 16 '
        'acceptance draws measures them exactly; log ratios up to 1e6 that cancel are judged at the draws of a grid.')
ASSUME = ['acceptance depends on the draw only by comparison with the acceptance ratio']
GRID = 16                             # acceptance draws (2j+1)/32


class Space(W.Model):
    """States 0..n-1 as points of a line."""
    def __init__(self, prior, like):
        self.names, self.bounds, self.p, self.l = ['x'], [[-1.0, len(prior)]], prior, like
    def at(self, p): return int(round(p.values[0]))
    def log_prior(self, p): return math.log(self.p[self.at(p)]) if self.p[self.at(p)] else -INF
    def log_likelihood(self, p): return self.l[self.at(p)]


class Matrix(PRm.EnsembleProposal):
    """Proposes according to a matrix of exact probabilities and declares the density ratio."""
    log_J = 0.0
    def __init__(self, Q, src, inplace): self.Q, self.src, self.inplace = Q, src, inplace
    def get_sample(self, old, **k):
        x = int(round(old.values[0]))
        y, w = self.src.target(x)
        new = old if self.inplace else old.copy()      # built-in jumps may work in place
        new.values[0] = y
        self.log_J = math.log(self.Q[y][x] / self.Q[x][y]) if self.Q[y][x] else -INF
        return new


class Script(rng.Source):
    """Given acceptance draws; proposal targets likewise."""
    def __init__(self): self.us, self.ys = [], []
    def u01(self): return self.us.pop(0)
    def target(self, x): return self.ys.pop(0), None


QS3 = [
    [[0, F(1, 2), F(1, 2)], [F(1, 2), 0, F(1, 2)], [F(1, 2), F(1, 2), 0]],
    [[F(1, 2), F(1, 4), F(1, 4)], [F(1, 2), F(1, 4), F(1, 4)], [F(1, 4), F(1, 4), F(1, 2)]],
    [[0, 1, 0], [F(1, 2), 0, F(1, 2)], [0, 1, 0]],
    [[F(1, 4), F(1, 2), F(1, 4)], [F(1, 4), F(1, 4), F(1, 2)], [F(1, 2), F(1, 4), F(1, 4)]],
    [[F(3, 4), F(1, 4), 0], [0, F(1, 2), F(1, 2)], [1, 0, 0]],
]


def sampler(prior, like, Q, steps):
    src = Script()
    model = Space(prior, like)
    drv = W.Driver(model, lambda d: 'none')
    s = W.worker('mhs', model, drv, Matrix(Q, src, QS3.index(Q) % 2 == 0), poolsize=4, maxmcmc=steps)
    s.Nmcmc = steps
    return s, src, model


def chain(s, src, model, x, ys, us, thr):
    """The state after the steps given by proposals and acceptance draws."""
    p = LivePoint(model.names)
    p.values[0] = x
    p.logP, p.logL = model.log_prior(p), model.log_likelihood(p)
    s.evolution_points.clear()
    for _ in range(4): s.evolution_points.append(p.copy())
    src.us, src.ys = list(us), list(ys)
    with rng.using(src):
        n, q = next(s.yield_sample(thr))
    y = model.at(q)
    if q.logP != model.log_prior(q) or not W.same(q.logL, model.l[y]): raise Violation('state %d carries (%r, %r)' % (y, q.logP, q.logL), key='values')
    return y, n


US = [(2 * j + 1) / (2.0 * GRID) for j in range(GRID)]


def kernel(case, ch):
    prior, like, thr, qi = case
    Q = QS3[qi]
    n = len(prior)
    ok = [prior[i] > 0 and like[i] > thr for i in range(n)]
    if not any(ok): return
    s, src, model = sampler(prior, like, Q, 1)
    P = [[F(0)] * n for _ in range(n)]
    for x in range(n):
        if not ok[x]: continue
        for y in range(n):
            if not Q[x][y]: continue
            for u in US + [0.0]:
                z, k = chain(s, src, model, x, [y], [u], thr)
                ch.step()
                if z not in (x, y): raise Violation('from %d, proposal %d, the chain is at %d' % (x, y, z), key='jump')
                if not ok[z]: raise Violation('the chain left the region: %d -> %d' % (x, z), key='left')
                if u: P[x][z] += F(Q[x][y]) / GRID
    for x in range(n):
        if ok[x] and sum(P[x]) != 1: raise Violation('row sum %r' % (P[x],), key='sum')
        for y in range(n):
            if ok[x] and ok[y] and prior[x] * P[x][y] != prior[y] * P[y][x]:
                raise Violation('no detailed balance between %d and %d: %s*%s != %s*%s' % (x, y, prior[x], P[x][y], prior[y], P[y][x]), key='balance')
        # the acceptance probability is the Metropolis one
        for y in range(n):
            if ok[x] and ok[y] and x != y and Q[x][y]:
                a = min(F(1), F(prior[y]) * Q[y][x] / (F(prior[x]) * Q[x][y]))
                if P[x][y] != Q[x][y] * a: raise Violation('%d -> %d is accepted with probability %s instead of %s' % (x, y, P[x][y] / Q[x][y], a), key='ratio')
    ch.state(case)
    ch.outcome = tuple(map(tuple, P))


def powers(case, ch):
    """Several steps: the distribution of the end point is the power of the kernel of one step."""
    prior, like, thr, qi, steps = case
    Q = QS3[qi]
    n = len(prior)
    ok = [prior[i] > 0 and like[i] > thr for i in range(n)]
    if not any(ok): return
    ref = [[F(0)] * n for _ in range(n)]
    for x in range(n):
        for y in range(n):
            if ok[x] and ok[y] and x != y and Q[x][y]: ref[x][y] = Q[x][y] * min(F(1), F(prior[y]) * Q[y][x] / (F(prior[x]) * Q[x][y]))
        ref[x][x] = 1 - sum(ref[x])
    s, src, model = sampler(prior, like, Q, steps)
    # acceptance probabilities are multiples of 1/4 here: 4 draws per step are exact
    us = [1 / 8., 3 / 8., 5 / 8., 7 / 8.]
    for x in range(n):
        if not ok[x]: continue
        row = [F(0)] * n
        def rec(k, ys, uss, states):
            if k == steps:
                z, m = chain(s, src, model, x, ys, uss, thr)
                w = F(1)
                c = x
                # probability of the proposals along the reference path
                for y, u in zip(ys, uss):
                    w *= F(Q[c][y]) / 4
                    if w == 0: return
                    if ok[y] and u < min(F(1), F(prior[y]) * Q[y][c] / (F(prior[c]) * Q[c][y])): c = y
                row[z] += w
                if c != z: raise Violation('proposals %r with draws %r lead from %d to %d, not %d' % (ys, uss, x, z, c), key='path')
                ch.step()
                return
            for y in range(n):
                for u in us: rec(k + 1, ys + [y], uss + [u], None)
        rec(0, [], [], None)
        dist = [F(1) if i == x else F(0) for i in range(n)]
        for _ in range(steps): dist = [sum(dist[i] * ref[i][j] for i in range(n)) for j in range(n)]
        if row != dist: raise Violation('after %d steps from %d: %r instead of %r' % (steps, x, row, dist), key='power')
    ch.state(case)
    ch.outcome = (case[:2],)


class Steep(Space):
    """Two states with the given log priors."""
    def log_prior(self, p): return self.p[self.at(p)]


class Declared(PRm.EnsembleProposal):
    """Goes to the other state and declares the given log ratio, or its negative on the way back."""
    log_J = 0.0
    def __init__(self, J): self.J = J
    def get_sample(self, old, **k):
        new = old.copy()
        x = int(round(old.values[0]))
        new.values[0] = 1 - x
        self.log_J = self.J if x == 0 else -self.J
        return new


def steep(case, ch):
    """Prior and proposal ratios of any size: the decisions are those of the Metropolis-Hastings rule."""
    l0, l1, J, steps = case
    src = Script()
    model = Steep((l0, l1), (1.0, 2.0))
    drv = W.Driver(model, lambda d: 'none')
    s = W.worker('mhs', model, drv, Declared(J), poolsize=4, maxmcmc=steps)
    s.Nmcmc = steps
    r = (l1 - l0) + J
    us = (1e-300, 1e-30, .01, .07, .2, .3, .4, .55, .7, .8, .95, 1 - 1e-12)
    for uu in itertools.product(us if steps == 1 else us[::2], repeat=steps):
        x = 0
        for u in uu:
            a = r if x == 0 else -r
            if abs(a - math.log(u)) < 1e-6: break
            if a > math.log(u): x = 1 - x
        else:
            z, _ = chain(s, src, model, 0, [None] * steps, uu, 0.0)
            ch.step()
            if z != x: raise Violation('log priors %r and %r, log Jacobian %r, draws %r: the chain is at %d instead of %d' % (l0, l1, J, uu, z, x), key='steep')
    ch.state(case)
    ch.outcome = (r > 0, steps)


def main(ctx):
    q = ctx.quick
    A = (0.0, -0.5, 1.5, -3.0, 30.0, -700.0, 1e4, -1e6)
    D = (-2.0, -1.0, -0.1, 0.5, 3.0, -60.0)
    # the sum of both is of order one although each may be large
    ss = [(b, b + a, d - a, k) for b in (0.0, -5.0, 1e3) for a in A for d in D for k in (1, 2)]
    ctx.for_all('large ratios', steep, ss, budget=ctx.budget(40, 200), rule='log priors and log Jacobians from 0 to 1e6 that (nearly) cancel, all draws of a grid')
    pr = list(itertools.product((0, 1, 2, 4), repeat=3))
    li = list(itertools.product((NAN, -INF, 0.0, 1.0), repeat=3))
    ks = [(p, l, t, qi) for p in pr for l in li for t in (-INF, 0.0) for qi in range(len(QS3))]
    ctx.for_all('kernels', kernel, ks, budget=ctx.budget(60, 900), rule='all priors, likelihoods, thresholds and proposal matrices on three states')
    ps = [(p, l, t, qi, 2) for p in itertools.product((0, 1, 2), repeat=3) for l in ((1.0, 1.0, 1.0), (1.0, 0.0, 1.0), (0.0, 1.0, 2.0), (1.0, NAN, 1.0))
          for t in (-INF, 0.0) for qi in (0, 1, 2, 3)]
    if not q: ps += [(p, l, t, qi, 3) for p in itertools.product((1, 2), repeat=3) for l in ((1.0, 1.0, 1.0), (1.0, 0.0, 1.0)) for t in (0.0,) for qi in (0, 1, 2)]
    ctx.for_all('several steps', powers, ps, budget=ctx.budget(60, 900), rule='two (three) steps, all proposals and acceptance draws')

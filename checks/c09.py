from mc import wenv as W, rng, explore as X
from mc.explore import Violation
import array, itertools, math
from collections import deque
import numpy as np
from mc.wenv import PRm, INF, LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of ensembles, old points and random draws (symmetric finite atoms with probabilities) of every built-in '
             'jump; the probability of every jump is compared with that of the reverse jump, the Jacobian with the determinant of the map')
NOTE = 'Gaussian and uniform draws are replaced by symmetric atoms; matching of a jump with its reverse is exact up to rounding.'
ASSUME = ['symmetric continuous distributions are represented by symmetric atoms', 'the ensemble has at least as many points as the jump needs']
NAMES = list('abcdefgh')
JUMPS = dict(walk=PRm.EnsembleWalk, stretch=PRm.EnsembleStretch, de=PRm.DifferentialEvolution, eigen=PRm.EnsembleEigenVector)
G = dict(walk=[(1.0, .5), (-1.0, .5)], stretch=[(1.0, .5), (-1.0, .5)], de=[(.5, .5), (-.5, .5)], eigen=[(.5, .25), (-.5, .25), (1.5, .25), (-1.5, .25)])


def lp(v, logL=0.0):
    p = LivePoint(NAMES[:len(v)], d=array.array('d', [float(x) for x in v]))
    p.logL, p.logP = logL, -1.0
    return p


def snapshot(e): return [(list(p.values), p.logL, p.logP, list(p.names)) for p in e]


def runs(jump, old, g):
    """[(point, log_J, weight, choices)] for all draws."""
    out, stack = [], [[]]
    while stack:
        pre = stack.pop()
        ch = X.Chooser(pre)
        src = rng.Enum(ch, g=g)
        with rng.using(src):
            o = lp(old)
            y = jump.get_sample(o)
            out.append((tuple(float(v) for v in y.values), float(jump.log_J), float(src.weight), list(ch.choices), y))
        stack += X.children(ch, len(pre), 0)
    return out


def rnd(v): return tuple(round(x, 7) + 0.0 for x in v)


def table(rs):
    t = {}
    for y, j, w, _, _ in rs:
        k = (rnd(y), round(j, 7) + 0.0)
        t[k] = t.get(k, 0.0) + w
    return t


def reversible(case, ch):
    kind, ens, old = case
    ensemble = deque(lp(v, i) for i, v in enumerate(ens))
    jump = JUMPS[kind]()
    jump.set_ensemble(ensemble)
    before = snapshot(ensemble)
    fwd = runs(jump, old, G[kind])
    if abs(sum(r[2] for r in fwd) - 1) > 1e-9: raise AssertionError('weights')
    d = len(old)
    for y, j, w, c, obj in fwd:
        ch.step()
        if list(obj.names) != NAMES[:d] or len(y) != d: raise Violation('the proposed point has names %r' % (list(obj.names),), key='names')
        if any(obj is p for p in ensemble): raise Violation('the proposed point is a member of the ensemble', key='ensemble')
    # the Jacobian is that of the map at fixed draws
    for y, j, w, c, _ in fwd:
        cols = []
        for k in range(d):
            o2 = list(old); o2[k] += 1.0
            with rng.using(rng.Enum(X.Chooser(c), g=G[kind])): z = jump.get_sample(lp(o2))
            if abs(jump.log_J - j) > 1e-12: raise Violation('the Jacobian depends on the old point', key='jacobian')
            cols.append([a - b for a, b in zip(z.values, y)])
            ch.step()
        det = abs(np.linalg.det(np.array(cols)))
        if abs(math.exp(j) - det) > 1e-6 * max(1, det):
            raise Violation('%s from %r to %r declares the log-Jacobian %r, the map has %r' % (kind, old, y, j, math.log(det) if det else -INF), key='jacobian')
    # same draws, same jump
    for y, j, w, c, _ in fwd[::5]:
        with rng.using(rng.Enum(X.Chooser(c), g=G[kind])): z = jump.get_sample(lp(old))
        if tuple(z.values) != y or jump.log_J != j: raise Violation('the same draws give %r and %r' % (y, tuple(z.values)), key='memory')
    if snapshot(ensemble) != before or len(ensemble) != len(ens): raise Violation('the jump modified the ensemble', key='ensemble')
    # reversibility
    F = table(fwd)
    seen = {}
    for (y, j), w in F.items():
        if y not in seen: seen[y] = table(runs(jump, [r[0] for r in fwd if rnd(r[0]) == y][0], G[kind]))
        back = seen[y].get((rnd(old), round(-j, 7) + 0.0), 0.0)
        ch.step(len(seen[y]))
        if abs(back - w) > 1e-9:
            raise Violation('%s: the jump %r -> %r (log_J %r) has probability %r, the reverse jump %r' % (kind, old, y, j, w, back), key='reverse')
    ch.state((kind, ens, old))
    ch.outcome = (kind, d, len(F))


def eigen(case, ch):
    """The eigenvector jump follows the ensemble it was given last."""
    d, seq = case
    jump = PRm.EnsembleEigenVector()
    g = [(1.0, .5), (-1.0, .5)]
    old = [0.25] * d
    for ens in seq:
        e = deque(lp(v) for v in ens)
        jump.set_ensemble(e)
        before = snapshot(e)
        rs = runs(jump, old, g)
        cov = np.zeros((d, d))
        for y, j, w, c, _ in rs:
            s = np.array(y) - np.array(old)
            cov += w * np.outer(s, s)
            ch.step()
            if j != 0: raise Violation('log-Jacobian %r' % j, key='jacobian')
        A = np.array(ens, float).T
        ref = np.atleast_2d(np.cov(A, ddof=1)) / d
        pop = np.atleast_2d(np.cov(A, ddof=0)) / d
        if not (np.allclose(cov, ref, atol=1e-9) or np.allclose(cov, pop, atol=1e-9)):
            raise Violation('the jumps have covariance %s, the ensemble %s/d' % (cov.tolist(), (ref * d).tolist()), key='covariance')
        if snapshot(e) != before: raise Violation('the ensemble was modified', key='ensemble')
    ch.state(case)
    ch.outcome = (d, len(seq))


def direction(case, ch):
    """Slice directions."""
    kind, ens, mu = case
    d = len(ens[0])
    jump = dict(diff=PRm.EnsembleSliceDifferential, gauss=PRm.EnsembleSliceGaussian, corr=PRm.EnsembleSliceCorrelatedGaussian)[kind]()
    e = deque(lp(v) for v in ens)
    jump.set_ensemble(e)
    before = snapshot(e)
    stack, got, one = [[]], {}, {}
    while stack:
        pre = stack.pop()
        for m, t in ((mu, got), (1.0, one)):
            c = X.Chooser(pre)
            src = rng.Enum(c, g=[(.5, .25), (-.5, .25), (1.5, .25), (-1.5, .25)])
            with rng.using(src): v = jump.get_direction(mu=m)
            v = tuple(float(x) for x in (v.values if isinstance(v, LivePoint) else v))
            t[tuple(c.choices)] = (v, float(src.weight))
            ch.step()
        if len(v) != d: raise Violation('direction %r in %d dimensions' % (v, d), key='dim')
        stack += X.children(c, len(pre), 0)
    if snapshot(e) != before: raise Violation('the ensemble was modified', key='ensemble')
    for k in one:
        if not np.allclose(np.array(one[k][0]) * mu, got[k][0], atol=1e-12): raise Violation('direction %r for length 1 and %r for length %r' % (one[k][0], got[k][0], mu), key='scale')
    A = np.array(ens, float)
    if kind == 'diff':
        t, ref = {}, {}
        n = len(ens)
        for v, w in one.values(): t[rnd(v)] = t.get(rnd(v), 0) + w
        for i in range(n):
            for j in range(n):
                if i != j: ref[rnd(A[i] - A[j])] = ref.get(rnd(A[i] - A[j]), 0) + 1.0 / n / (n - 1)
        if set(t) != set(ref) or any(abs(t[k] - ref[k]) > 1e-9 for k in t):
            raise Violation('the directions are not the differences of pairs of ensemble points with equal probabilities', key='direction')
    elif kind == 'gauss':
        t = {}
        for v, w in one.values():
            if abs(math.sqrt(sum(x * x for x in v)) - 1) > 1e-9: raise Violation('direction %r is not of unit length' % (v,), key='direction')
            t[rnd(v)] = t.get(rnd(v), 0) + w
        if any(abs(t.get(rnd([-x for x in v]), 0) - w) > 1e-9 for v, w in t.items()): raise Violation('directions are not symmetric', key='direction')
    else:
        V = np.array([v for v, w in one.values()]); Wt = np.array([w for v, w in one.values()])
        mean = Wt @ V
        cov = (V - mean).T @ ((V - mean) * Wt[:, None]) / 1.25      # variance of the atoms
        ref, pop = np.atleast_2d(np.cov(A.T, ddof=1)), np.atleast_2d(np.cov(A.T, ddof=0))
        if not (np.allclose(cov, ref, atol=1e-8) or np.allclose(cov, pop, atol=1e-8)):
            raise Violation('the directions have covariance %s, the ensemble %s' % (cov.tolist(), ref.tolist()), key='covariance')
    ch.state(case)
    ch.outcome = (kind, d, len(set(got.values())))


def ensembles(d, n, vals):
    pts = list(itertools.product(vals, repeat=d))
    return list(itertools.combinations_with_replacement(pts, n))


def main(ctx):
    q = ctx.quick
    V = (0.0, 1.0, 2.5)
    D3 = [(0., 0., 0.), (1., 0., 0.), (0., 1., 2.), (1., 1., 1.), (2.5, 0., 1.)]
    olds = {1: [(0.5,), (2.0,)], 2: [(0.5, 0.25), (3.0, -1.0)], 3: [(0.5, 0.25, 2.0)]}
    E = {1: ensembles(1, 3, V) + ensembles(1, 4, V), 2: ensembles(2, 3, V), 3: list(itertools.combinations_with_replacement(D3, 3))}
    E[2] = E[2] + ensembles(2, 4, V)
    E[3] = E[3] + list(itertools.combinations_with_replacement(D3, 4))
    if not q:
        E[1] = E[1] + ensembles(1, 4, (0.0, 1.0, 2.5, -3.0, 4.25)) + ensembles(1, 5, V)
        E[2] = E[2] + ensembles(2, 4, (0.0, 1.0, 2.5, -3.0))[::2]
        E[3] = E[3] + list(itertools.combinations_with_replacement(D3, 5))
    cs = []
    for d in (1, 2, 3):
        for e in E[d]:
            for o in olds[d]:
                for k in JUMPS: cs.append((k, e, o))
    ctx.for_all('jumps', reversible, cs, budget=ctx.budget(120, 1500), rule='every jump, ensemble, old point and outcome of the draws, and back')
    es = []
    for d in (1, 2, 3):
        L = E[d] if q else E[d][:400]
        es += [(d, (a, L[(i * 7 + 3) % len(L)], a)) for i, a in enumerate(L) for i in ((i,) if ctx.quick else (i, i + 1))]
    ctx.for_all('eigenvectors', eigen, es, budget=ctx.budget(60, 300), rule='covariance of the jumps after every change of the ensemble')
    ds = [(k, e, mu) for d in (1, 2, 3) for e in E[d] for k in ('diff', 'gauss', 'corr') for mu in (0.5, 3.0)]
    ctx.for_all('slice directions', direction, ds, budget=ctx.budget(60, 300), rule='every ensemble and draw')

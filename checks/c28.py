from mc import wenv as W, rng, explore as X
from mc.explore import Violation
import itertools, math
from collections import deque
import numpy as np
from mc.wenv import PRm, INF, LivePoint
from checks.c09 import JUMPS, G, lp, snapshot, runs, rnd, ensembles
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of ensembles, their orderings, affine maps, ways to update them and of all random draws of every built-in jump and '
             'direction: the exact laws (symmetric finite atoms) are compared with each other')
NOTE = 'Gaussian and uniform draws are replaced by symmetric atoms; laws are compared up to rounding; ensembles of up to 130 (260) points, up to eight dimensions.'
ASSUME = ['symmetric continuous distributions are represented by symmetric atoms', 'the ensemble has at least three points']
DIRS = dict(diff=PRm.EnsembleSliceDifferential, sgauss=PRm.EnsembleSliceGaussian, corr=PRm.EnsembleSliceCorrelatedGaussian)
G2 = [(.5, .25), (-.5, .25), (1.5, .25), (-1.5, .25)]


# what the members of the ensemble carry beside their position is of no interest to the jumps
LOGL = [0.0, -INF, 2.0, float('nan'), 7.0]


def law(obj, old, unit=1.0):
    """{jump relative to old (or direction), in the given unit, log_J: probability}"""
    t = {}
    if hasattr(obj, 'get_direction'):
        stack = [[]]
        while stack:
            pre = stack.pop()
            c = X.Chooser(pre)
            src = rng.Enum(c, g=G2)
            with rng.using(src): v = obj.get_direction(mu=1.0)
            k = (rnd(float(x) / unit for x in (v.values if isinstance(v, LivePoint) else v)), 0.0)
            t[k] = t.get(k, 0.0) + float(src.weight)
            stack += X.children(c, len(pre), 0)
        return t
    kind = [k for k in JUMPS if type(obj) is JUMPS[k]][0]
    for y, j, w, _, _ in runs(obj, old, G[kind]):
        k = (rnd((a - b) / unit for a, b in zip(y, old)), round(j, 7) + 0.0)
        t[k] = t.get(k, 0.0) + w
    return t


def make(kind): return (JUMPS.get(kind) or DIRS[kind])()


def fresh(kind, ens):
    o = make(kind)
    o.set_ensemble(deque(lp(v, LOGL[i % 5]) for i, v in enumerate(ens)))
    return o


def close(a, b, tol=1e-9):
    """Equal up to rounding of the keys."""
    if len(a) != len(b): return match(a, b)
    return all(abs(b.get(k, -1) - w) < tol for k, w in a.items()) or match(a, b)


def match(a, b):
    b = dict(b)
    for (v, j), w in a.items():
        left = w
        for (u, i), x in list(b.items()):
            if left > 1e-9 and x > 1e-12 and abs(i - j) < 1e-5 and all(abs(p - q) < 1e-5 * max(1, abs(p)) for p, q in zip(u, v)):
                m = min(left, x)
                left -= m
                b[(u, i)] -= m
        if left > 1e-9: return False
    return all(x < 1e-9 for x in b.values())


def moments(t):
    V = np.array([k[0] for k in t]); w = np.array(list(t.values()))
    m = w @ V
    return m, (V - m).T @ ((V - m) * w[:, None])


def same(kind, a, b, how, key):
    if kind in ('eigen', 'corr'):
        # eigenvectors are only defined up to their sign and, for equal eigenvalues, their basis
        ok = all(np.allclose(x, y, atol=1e-6 * max(1.0, np.abs(y).max())) for x, y in zip(moments(a), moments(b)))
    else: ok = close(a, b)
    if not ok: raise Violation('%s: %s\n%r\n%r' % (kind, how, sorted(a.items())[:6], sorted(b.items())[:6]), key=key)


def case_law(case, ch):
    kind, ens, old, full = case
    d = len(old)
    base = law(fresh(kind, ens), old)
    ch.step(len(base))
    if abs(sum(base.values()) - 1) > 1e-9: raise AssertionError('weights')
    # order does not matter
    perms = list(itertools.permutations(range(len(ens)))) if full else [tuple(range(len(ens)))[::-1], tuple(range(1, len(ens))) + (0,)]
    for p in perms:
        same(kind, law(fresh(kind, [ens[i] for i in p]), old), base, 'the jumps depend on the order of the ensemble', 'order')
        ch.step()
    # affine maps
    maps = [(np.eye(d), 3.0), (2.0 * np.eye(d), 0.0), (-np.eye(d), 1.0)]
    if d > 1: maps += [(np.eye(d)[::-1], 0.5), (np.diag([(-1.0) ** i for i in range(d)]), 0.0)]
    if d > 1 and kind not in ('eigen', 'sgauss'): maps += [(np.eye(d) + np.diag([0.5] * (d - 1), 1), -1.0), (np.diag([4.0] + [1.0] * (d - 1)), 2.0)]
    for A, b in maps:
        ens2 = [tuple(A @ np.array(v) + b) for v in ens]
        old2 = tuple(A @ np.array(old) + b)
        got = law(fresh(kind, ens2), old2)
        ch.step()
        if kind == 'sgauss': want = base
        elif kind == 'corr':
            # the covariance follows the map
            m, c = moments(base)
            m2, c2 = moments(got)
            if not np.allclose(c2, A @ c @ A.T, atol=1e-6 * max(1.0, np.abs(c2).max())): raise Violation('%s: the directions do not follow the map %s of the ensemble' % (kind, A.tolist()), key='affine')
            continue
        else:
            want = {}
            for (v, j), w in base.items():
                k = (rnd(A @ np.array(v)), j)
                want[k] = want.get(k, 0.0) + w
        same(kind, got, want, 'the jumps do not follow the map %s + %s of the ensemble' % (A.tolist(), b), 'affine')
    # nor do the units matter
    if kind != 'sgauss':
        for unit in (2.0 ** -30, 2.0 ** 30):
            got = law(fresh(kind, [tuple(unit * x for x in v) for v in ens]), tuple(unit * x for x in old), unit)
            ch.step()
            same(kind, got, base, 'the jumps are not the same in units of %g' % unit, 'units')
    ch.state((kind, ens, old))
    ch.outcome = (kind, d, len(base))


class Ordered(rng.Enum):
    """Gaussian draws of fixed, different sizes."""
    G = (1.0, -0.5, 0.7)
    def __init__(self, ch): super().__init__(ch); self.k = 0
    def gauss(self):
        self.k += 1
        return self.G[(self.k - 1) % 3]


def many(case, ch):
    """Large ensembles: all members take part alike."""
    kind, n, d = case
    ens = [tuple(i + i * i / 1021.0 + 3 * ((i * (7 + k)) % (5 if d < 4 else 13)) for k in range(d)) for i in range(n)]
    old = (0.5,) * d
    o = fresh(kind, ens)
    V = np.array(ens)
    if kind in ('de', 'diff', 'stretch'):
        t, stack = {}, [[]]
        while stack:
            pre = stack.pop()
            c = X.Chooser(pre)
            src = rng.Enum(c, g=[(0.0, 1.0)], u=[(0.75, 1.0)])
            with rng.using(src):
                v = o.get_direction(mu=1.0) if kind == 'diff' else o.get_sample(lp(old))
            k = rnd(float(x) for x in v.values)
            t[k] = t.get(k, 0.0) + float(src.weight)
            ch.step()
            stack += X.children(c, len(pre), 0)
        want = {}
        if kind == 'stretch':
            Z = math.exp(0.5 * math.log(2.0))
            for a in V:
                k = rnd(a + (np.array(old) - a) * Z)
                want[k] = want.get(k, 0.0) + 1.0 / n
        else:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        k = rnd(V[i] - V[j] + (np.array(old) if kind == 'de' else 0.0))
                        want[k] = want.get(k, 0.0) + 1.0 / (n * (n - 1))
        a, b = sorted(t.items()), sorted(want.items())
        if len(a) != len(b) or any(abs(x[1] - y[1]) > 1e-9 or max(abs(p - q) for p, q in zip(x[0], y[0])) > 1e-5 for x, y in zip(a, b)):
            raise Violation('%s: of %d points in %d dimensions not all take part alike: %d different jumps instead of %d' % (kind, n, d, len(t), len(want)), key='many')
    elif kind == 'walk':
        def one(pre):
            c = X.Chooser(pre)
            src = Ordered(c)
            with rng.using(src): v = o.get_sample(lp(old))
            ch.step()
            return c, rnd(v.values), float(src.weight)
        if n <= 12:
            t, want, stack = {}, {}, [[]]
            while stack:
                pre = stack.pop()
                c, k, w = one(pre)
                t[k] = t.get(k, 0.0) + w
                stack += X.children(c, len(pre), 0)
            for q in itertools.permutations(V, 3):
                m = sum(q) / 3.0
                k = rnd(np.array(old) + sum((x - m) * g for x, g in zip(q, Ordered.G)))
                want[k] = want.get(k, 0.0) + 1.0 / (n * (n - 1) * (n - 2))
            if not close({(k, 0.0): w for k, w in t.items()}, {(k, 0.0): w for k, w in want.items()}):
                raise Violation('walk: of %d points not all take part alike' % n, key='many')
        else:
            for pos in range(3):
                got = {one([0] * pos + [i])[1] for i in range(n - pos)}
                if len(got) < n - pos: raise Violation('walk: of %d points only %d can be drawn' % (n, len(got)), key='many')
    else:
        m, cv = moments(law(o, old))
        want = np.atleast_2d(np.cov(V.T)) if d > 1 else np.atleast_2d(np.var(V[:, 0]))
        want = want * (0.25 * 0.5 + 2.25 * 0.5)
        if kind == 'eigen': want = want / d
        pop = want * ((n - 1.0) / n if d > 1 else n / (n - 1.0))
        if not (np.allclose(cv, want, rtol=1e-6) or np.allclose(cv, pop, rtol=1e-6)): raise Violation('%s: the covariance of the jumps is %r, that of the %d points gives %r' % (kind, cv.tolist(), n, want.tolist()), key='many')
    ch.state(case)
    ch.outcome = (kind, n)


def updates(case, ch):
    """After an update the jumps are those of the new ensemble, however it is given."""
    kind, e1, e2, old, way = case
    o = make(kind)
    d1 = deque((lp(v, i) for i, v in enumerate(e1)), maxlen=len(e1))
    o.set_ensemble(d1)
    law(o, old)
    if way == 'new': o.set_ensemble(deque(lp(v, i) for i, v in enumerate(e2)))
    elif way == 'turned':
        # as a sampler does: points leave on one side and enter on the other
        for i, v in enumerate(e2): d1.popleft(); d1.append(lp(v, i))
        o.set_ensemble(d1)
    elif way == 'in place':
        for p, v in zip(d1, e2): p.values[:] = lp(v).values
        o.set_ensemble(d1)
    same(kind, law(o, old), law(fresh(kind, e2), old), 'after an update (%s) the jumps are not those of the new ensemble' % way, 'update')
    ch.step()
    # jumps that draw points from the ensemble follow it without being told
    if kind in ('walk', 'stretch', 'de', 'diff'):
        for p, v in zip(o.ensemble, e1): p.values[:] = lp(v).values
        same(kind, law(o, old), law(fresh(kind, e1), old), 'the jumps do not follow the points of the ensemble', 'follow')
    ch.state(case)
    ch.outcome = (kind, way)


def main(ctx):
    q = ctx.quick
    V = (0.0, 1.0, 2.5)
    D3 = [(0., 0., 0.), (1., 0., 0.), (0., 1., 2.), (1., 1., 1.), (2.5, 0., 1.)]
    olds = {1: [(0.5,)], 2: [(0.5, 0.25)], 3: [(0.5, 0.25, 2.0)]}
    E = {1: ensembles(1, 3, V) + ensembles(1, 4, V), 2: ensembles(2, 3, V)[::2 if q else 1], 3: list(itertools.combinations_with_replacement(D3, 3))}
    E[2] = E[2] + [e for i, e in enumerate(ensembles(2, 4, V)) if i % (12 if q else 3) == 5]
    cs = [(k, e, o, not q or d == 1) for d in (1, 2, 3) for e in E[d] for o in olds[d] for k in list(JUMPS) + list(DIRS)]
    ctx.for_all('laws', case_law, cs, budget=ctx.budget(120, 1500), rule='every jump and direction, ensemble, ordering and affine map')
    ms = [(k, n, d) for n in ((7, 12, 130) if q else (7, 12, 130, 260)) for d in (1, 2) for k in list(JUMPS) + list(DIRS) if k != 'sgauss']
    ms += [(k, 30, d) for d in (5, 8) for k in list(JUMPS) + list(DIRS) if k != 'sgauss' and (k, d) != ('corr', 8)]
    ctx.for_all('many points', many, ms, budget=ctx.budget(120, 900), rule='ensembles of 7 to 130 (260) points, all pairs drawn from them (triples up to 12), one, two, five and eight dimensions')
    us = []
    for d in (1, 2, 3):
        L = [e for e in E[d] if len(e) == 3]
        for i, a in enumerate(L):
            for b in (L[(i * 7 + 3) % len(L)], L[(i * 5 + 1) % len(L)]):
                us += [(k, a, b, olds[d][0], w) for k in list(JUMPS) + list(DIRS) for w in ('new', 'turned', 'in place')]
    ctx.for_all('updates', updates, us, budget=ctx.budget(120, 1500), rule='every jump and direction, pairs of ensembles, ways to update')

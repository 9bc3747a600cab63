from mc import rng
rng.install()
import itertools, logging, math, warnings
import numpy as np
from fractions import Fraction as F
from mc import measure as M
from mc.explore import Violation, Prune
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
import cpnest.model as MO
from cpnest.parameter import LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of points on grids with the bounds, their neighbouring doubles, infinities and NaN, and of every outcome '
             'of the draws of a new point (with retries) from grids with the extreme random numbers')
NOTE = 'Up to 3 parameters jointly, 9 and 40 one or two at a time; up to 4 attempts per new point; 14 pairs of bounds over many scales.'
ASSUME = ['bounds are finite, in ascending order, with a double between them and a finite distance', 'a prior given by the user is a number or minus infinity and vanishes outside the bounds']
INF, NAN = float('inf'), float('nan')
up, dn = (lambda x: np.nextafter(x, INF).item()), (lambda x: np.nextafter(x, -INF).item())
B = [(0.0, 1.0), (-1.0, 1.0), (-10.0, -3.0), (1e-300, 2e-300), (-1e150, 1e300), (1.0, up(up(1.0))), (1e15, 1e15 + 1), (0.0, 5e-324 * 4),
     (-0.1, 0.3), (5.0, 1e6), (-math.pi, math.pi), (1e-22, 1e-20), (-0.0, 1e-5), (123.456, 123.457)]


class Plain(MO.Model):
    def __init__(self, bounds, form=list, names=None):
        self.names = names or ['abc'[i] if i < 3 else 'p%d' % i for i in range(len(bounds))]
        self.bounds = form(form(b) if form is not np.array else b for b in bounds) if form is not np.array else np.array(bounds)
    def log_likelihood(self, p): return 0.0


def values(b):
    lo, hi = b
    out = [lo, hi, up(lo), dn(lo), up(hi), dn(hi), lo + (hi - lo) / 2, lo + (hi - lo) * 0.3, lo - abs(hi - lo), hi + abs(hi - lo), INF, -INF, NAN]
    if lo <= 0 <= hi: out += [0.0, -0.0, 5e-324, -5e-324]
    return list(dict.fromkeys(out)) if NAN not in out else out


def membership(case, ch):
    bs, form = case
    m = Plain(bs, form)
    for vs in itertools.product(*[values(b) if len(bs) < 3 else values(b)[:6] + [NAN] for b in bs]):
        p = LivePoint(m.names, d=__import__('array').array('d', vs))
        want = all(b[0] < v and v < b[1] for v, b in zip(vs, bs))
        ch.step()
        got, lp, pot = m.in_bounds(p), m.log_prior(p), m.potential(p)
        if bool(got) != want: raise Violation('in_bounds(%r) is %r for bounds %r' % (vs, got, bs), key='in_bounds')
        if not (lp == 0.0 if want else lp == -INF): raise Violation('default log_prior(%r) is %r for bounds %r' % (vs, lp, bs), key='log_prior')
        if pot != -lp: raise Violation('potential(%r) is %r, log_prior %r' % (vs, pot, lp), key='potential')
        if tuple(p.values) != tuple(vs) and not any(v != v for v in vs): raise Violation('the point was modified', key='input')
    for name in PRIORS:
        m = User(bs, PRIORS[name])
        for vs in itertools.product(*[[lo + (hi - lo) * t for t in (0.0, 0.25, 0.5, 0.75, 1.0)] for lo, hi in bs]):
            p = LivePoint(m.names, d=__import__('array').array('d', vs))
            lp, pot = m.log_prior(p), m.potential(p)
            ch.step()
            if pot != -lp: raise Violation('potential(%r) is %r, log_prior %r' % (vs, pot, lp), key='potential')
    ch.state((bs, str(form)))
    ch.outcome = len(bs)


class User(Plain):
    """A prior of the user: vanishes where f is None."""
    def __init__(self, bounds, f): super().__init__(bounds); self.f = f
    def log_prior(self, p):
        if not self.in_bounds(p): return -INF
        v = self.f([(x - b[0]) / (b[1] - b[0]) for x, b in zip(p.values, self.bounds)])
        return -INF if v is None else v


PRIORS = dict(flat=lambda u: 0.0, hole=lambda u: None if u[0] < 0.5 else -3.0, middle=lambda u: 1.0 if 0.2 < u[-1] < 0.6 else None,
              simplex=lambda u: -2 * sum(u) if sum(u) < 1 else None, tiny=lambda u: -1e300 if u[0] > .2 else None, pos=lambda u: 1e300)
GRID = [0.125, 0.375, 0.625, 0.875]
EDGE = [0.0, 2.0 ** -53, 0.5, M.TOP]


class Draw(rng.Source):
    def __init__(self, ch, atoms, limit): self.ch, self.atoms, self.limit, self.n = ch, atoms, limit, 0
    def u01(self):
        self.n += 1
        if self.n > self.limit: raise Prune()
        return self.atoms[self.ch.choose(len(self.atoms), 'u')]
    def index(self, n): return self.ch.choose(n, 'i')


def new(case, ch):
    bs, name, attempts = case
    m = User(bs, PRIORS[name])
    with rng.using(Draw(ch, EDGE, attempts * len(bs))): p = m.new_point()
    check(m, p)
    ch.state((bs, name, tuple(p.values)))
    ch.outcome = (len(bs), name)


def check(m, p):
    if list(p.names) != list(m.names) or p.dimension != len(m.names): raise Violation('a new point has the parameters %r' % (p.names,), key='names')
    if not all(b[0] < x < b[1] for x, b in zip(p.values, m.bounds)): raise Violation('a new point %r is not within %r' % (list(p.values), m.bounds), key='bounds')
    if m.log_prior(p) == -INF: raise Violation('a new point %r has zero prior' % (list(p.values),), key='prior')


def law(case, ch):
    """The exact law of a new point on a grid: uniform on the cells where the prior does not vanish."""
    bs, name = case
    m = User(bs, PRIORS[name])
    d = len(bs)
    cells = {}
    for us in itertools.product(GRID, repeat=d):
        q = LivePoint(m.names, d=__import__('array').array('d', [b[0] + u * (b[1] - b[0]) for u, b in zip(us, bs)]))
        if m.log_prior(q) > -INF: cells[tuple(q.values)] = us
    total = len(GRID) ** d
    got, lost = {}, F(0)
    attempts = 2
    def walk(prefix):
        nonlocal lost
        class S(rng.Source):
            k = 0
            def u01(self):
                self.k += 1
                if self.k > len(prefix): raise Stop()
                return GRID[prefix[self.k - 1]]
            def index(self, n): return int(self.u01() * n)
        try:
            with rng.using(S()) as s: p = m.new_point()
        except Stop:
            if len(prefix) >= attempts * d: lost += F(1, 4) ** len(prefix); return
            for i in range(4): walk(prefix + [i])
            return
        ch.step()
        check(m, p)
        k = tuple(p.values)
        got[k] = got.get(k, F(0)) + F(1, 4) ** len(prefix)
    walk([])
    if set(got) != set(cells): raise Violation('new points take the values %r, expected %r' % (sorted(got)[:5], sorted(cells)[:5]), key='law')
    c = set(got.values())
    if len(c) != 1: raise Violation('new points are not uniform on the allowed part of the box: %r' % ({k: float(v) for k, v in got.items()},), key='law')
    ch.state(case)
    ch.outcome = (d, name, len(cells))


class Stop(Exception): pass


def near(a, b, scale): return a == b or abs(a - b) <= 8 * 2.0 ** -53 * scale


def maps(case, ch):
    bs, form = case
    m = Plain(bs, form)
    U = [0.0, 1.0, 0.5, 2.0 ** -53, M.TOP, 0.3, 0.75]
    for us in itertools.product(U if len(bs) < 3 else U[:4], repeat=len(bs)):
        for wrap in (list, tuple, np.array):
            p = m.from_normalised(wrap(us))
            ch.step()
            if list(p.names) != list(m.names): raise Violation('from_normalised gives parameters %r' % (p.names,), key='names')
            for x, u, b in zip(p.values, us, bs):
                ref = F(b[0]) + F(u) * (F(b[1]) - F(b[0]))
                s = max(abs(b[0]), abs(b[1]))
                if not near(x, float(ref), s) and abs(x - float(ref)) > 1e-323: raise Violation('from_normalised maps %r to %r in %r' % (u, x, b), key='from')
        n = m.to_normalised(p)
        if len(n) != len(bs): raise Violation('to_normalised gives %d values' % len(n), key='to')
        for x, u, b in zip(n, us, bs):
            s = max(abs(b[0]), abs(b[1])) / (b[1] - b[0])
            if abs(x - u) > 16 * 2.0 ** -53 * s + 1e-323 / (b[1] - b[0]): raise Violation('to_normalised(from_normalised(%r)) is %r in %r' % (u, x, b), key='round trip')
        if any(x < 0 or x > 1 for x, v, b in zip(n, p.values, bs) if b[0] <= v <= b[1]): raise Violation('normalised coordinates %r of a point in the box' % (list(n),), key='cube')
    vs = [[b[0], b[1], up(b[0]), dn(b[1]), b[0] + (b[1] - b[0]) / 3] + [x for x in (-1.0, 0.5, 10.0) if b[0] < x < b[1]] for b in bs]
    for xs in itertools.product(*vs):
        p = LivePoint(m.names, d=__import__('array').array('d', xs))
        n = m.to_normalised(p)
        ch.step()
        if tuple(p.values) != xs: raise Violation('to_normalised modified the point', key='input')
        for u, x, b in zip(n, xs, bs):
            if not 0 <= u <= 1: raise Violation('normalised coordinate %r of %r in %r' % (u, x, b), key='cube')
            if (x == b[0] and u != 0) or (x == b[1] and u != 1): raise Violation('the bound %r of %r has the normalised coordinate %r' % (x, b, u), key='cube')
            ref = (F(x) - F(b[0])) / (F(b[1]) - F(b[0]))
            if abs(u - float(ref)) > 1e-15: raise Violation('normalised coordinate of %r in %r is %r instead of %r' % (x, b, u, float(ref)), key='to')
        back = m.from_normalised(n)
        for y, x, b in zip(back.values, xs, bs):
            if not near(y, x, max(abs(b[0]), abs(b[1]))) and abs(y - x) > 1e-323: raise Violation('from_normalised(to_normalised(%r)) is %r in %r' % (x, y, b), key='round trip')
    ch.state((bs, str(form)))
    ch.outcome = len(bs)


def wide(case, ch):
    """Many parameters: one (or two) of them at a special place, the others inside."""
    d, shift, form = case
    bs = [B[(i + shift) % len(B)] for i in range(d)]
    m = Plain(bs, form)
    inner = [b[0] + (b[1] - b[0]) / 2 for b in bs]
    for j in range(d):
        for v in values(bs[j]):
            for k in (None, (j + 1) % d):
                vs = list(inner)
                vs[j] = v
                if k is not None: vs[k] = up(bs[k][0])
                p = LivePoint(m.names, d=__import__('array').array('d', vs))
                want = all(b[0] < x < b[1] for x, b in zip(vs, bs))
                ch.step()
                if bool(m.in_bounds(p)) != want: raise Violation('in_bounds(%r) is %r for bounds %r' % (vs, m.in_bounds(p), bs), key='in_bounds')
                if m.log_prior(p) != (0.0 if want else -INF): raise Violation('default log_prior(%r) is %r for bounds %r' % (vs, m.log_prior(p), bs), key='log_prior')
    for j in range(d):
        for t in (0.0, 1.0, 0.25):
            us = [0.5] * d
            us[j] = t
            p = m.from_normalised(us)
            n = m.to_normalised(p)
            ch.step()
            if len(p.values) != d or len(n) != d: raise Violation('%d parameters: %d values, %d normalised' % (d, len(p.values), len(n)), key='from')
            for x, y, u, b in zip(p.values, n, us, bs):
                s = max(abs(b[0]), abs(b[1]))
                if not near(x, float(F(b[0]) + F(u) * (F(b[1]) - F(b[0]))), s): raise Violation('from_normalised maps %r to %r in %r' % (u, x, b), key='from')
                if abs(y - u) > 16 * 2.0 ** -53 * s / (b[1] - b[0]) + 1e-323 / (b[1] - b[0]): raise Violation('to_normalised(from_normalised(%r)) is %r in %r' % (u, y, b), key='round trip')
    # each parameter of a new point has its own draw
    m = Plain([(float(i), float(i) + 1.0) for i in range(d)], form)
    def at(k, u):
        class S(rng.Source):
            n = 0
            def u01(self): self.n += 1; return u if self.n - 1 == k else 0.5
            def index(self, n): return int(self.u01() * n)
        with rng.using(S()) as s: p = m.new_point()
        ch.step()
        check(m, p)
        return list(p.values), s.n
    base, n = at(None, 0.5)
    if n < d: raise Violation('a new point of %d parameters is made of %d random numbers' % (d, n), key='law')
    if n == d:
        hit = []
        for k in range(d):
            v, _ = at(k, 0.25)
            c = [j for j in range(d) if v[j] != base[j]]
            if len(c) != 1: raise Violation('draw %d of a new point decides on the parameters %r' % (k, c), key='law')
            hit += c
        if sorted(hit) != list(range(d)): raise Violation('the draws of a new point decide on the parameters %r' % sorted(hit), key='law')
    ch.state(case)
    ch.outcome = d


def main(ctx):
    q = ctx.quick
    one = [((b,), f) for b in B for f in (list, tuple, np.array)]
    two = [(bs, list) for bs in itertools.product(B, repeat=2)]
    three = [(bs, tuple) for bs in itertools.product(B[:3] if q else B[:6], repeat=3)]
    ctx.for_all('membership', membership, one + two + three, budget=ctx.budget(60, 900), rule='all points of the grids')
    ctx.for_all('maps', maps, one + two + three, budget=ctx.budget(60, 900), rule='all points of the grids')
    cs = [((b,), p, 4) for b in B for p in PRIORS if p in ('flat', 'pos') or (b[1] - b[0] > 1e-30 and b != B[5])]
    cs += [((a, b), p, 2 if q else 3) for a, b in [(B[0], B[2]), (B[2], B[9]), (B[1], B[11]), (B[5], B[6])] for p in (PRIORS if a != B[5] else ('flat',))]
    ctx.explore_cases('new point', new, cs, budget=ctx.budget(60, 900), rule='every outcome of extreme draws and retries')
    cs = [((b,), p) for b in (B[0], B[2], B[4], B[9], B[11]) for p in PRIORS]
    cs += [((a, b), p) for a, b in [(B[0], B[2]), (B[2], B[9]), (B[1], B[11])] for p in PRIORS]
    if not q: cs += [((B[0], B[2], B[9]), 'hole')]
    cs = [c for c in cs if c[1] != 'middle' or True]
    ctx.for_all('law of new points', law, cs, budget=ctx.budget(60, 900), rule='all draws on a grid, two attempts, exact weights')
    ctx.for_all('many parameters', wide, [(d, s, f) for d in (9, 40) for s in range(len(B)) for f in (list, tuple, np.array)], budget=ctx.budget(40, 100), rule='9 and 40 parameters: one or two at a special place, each draw of a new point by itself')

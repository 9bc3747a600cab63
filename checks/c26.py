from mc import wenv as W, rng
from mc.explore import Violation
from fractions import Fraction as F
import itertools, math
import numpy as np
from mc.wenv import PRm, INF, NAN, LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('explicit construction of the complete transition matrix of the real slice sampler on lattices: every outcome of the slice height, the '
             'placement of the interval, the split of the steps out, the direction and every position drawn while the interval shrinks, with exact '
             'rational probabilities; checked for detailed balance')
NOTE = ('Lattices of 4 to 8 places on a line or 9 in a plane; priors are powers of two; positions drawn from an interval are uniform on the places in it; the extent of the interval alone on a line of 801 places.')
ASSUME = ['the length scale is adapted between answers, which is judged by itself, not as part of the transition',
          'uniform draws are represented by the midpoints of a grid that is exact for everything decided by them']
LN2 = math.log(2.0)


class Offgrid(Exception): pass


class Lattice(W.Model):
    """Places with integer coordinates."""
    def __init__(self, shape, prior, like):
        self.names = ['x', 'y'][:len(shape)]
        self.bounds = [[-0.75, n - 0.25] for n in shape]
        self.shape, self.p, self.l = shape, prior, like
    def at(self, v):
        """The place; between two of them, the lower one."""
        i = 0
        for a, n in zip(v, self.shape): i = i * n + min(max(int(math.floor(a)), 0), n - 1)
        return i
    def place(self, i):
        out = []
        for n in reversed(self.shape):
            out.insert(0, float(i % n))
            i //= n
        return out
    def log_prior(self, p):
        if not self.in_bounds(p): return -INF
        w = self.p[self.at(p.values)]
        return w * LN2 if w is not None else -INF
    def log_likelihood(self, p): return self.l[self.at(p.values)]


class Direction(PRm.EnsembleProposal):
    """One of a few directions, not necessarily with its opposite."""
    log_J = 0.0
    def __init__(self, dirs, src): self.dirs, self.src, self.proposals = dirs, src, [self]
    def set_ensemble(self, e): self.ensemble = e
    def get_direction(self, mu=1.0, **k): return np.array(self.dirs[self.src.pick([F(1, len(self.dirs))] * len(self.dirs))], float) * mu


class Odometer(rng.Source):
    """Runs through all outcomes, with their probabilities."""
    expos = False
    def __init__(self, m, M, levels): self.m, self.M, self.levels, self.stack, self.at, self.w = m, M, levels, [], 0, F(1)
    def start(self): self.at, self.w, self.boxes = 0, F(1), []
    def pick(self, ps):
        if self.at == len(self.stack): self.stack.append([0, len(ps)])
        i = self.stack[self.at][0]
        if self.stack[self.at][1] != len(ps): raise RuntimeError('not deterministic')
        self.at += 1
        self.w *= ps[i]
        return i
    def advance(self):
        del self.stack[self.at:]
        while self.stack:
            self.stack[-1][0] += 1
            if self.stack[-1][0] < self.stack[-1][1]: return True
            self.stack.pop()
        return False
    def u01(self): return (2 * self.pick([F(1, self.M)] * self.M) + 1) / (2.0 * self.M)
    def index(self, n): return self.pick([F(1, n)] * n)
    def expo(self):
        self.expos = True
        n = self.levels
        return (self.pick([F(1, 2 ** (i + 1)) for i in range(n)] + [F(1, 2 ** n)]) + 0.5) * LN2
    def uniform(self, a, b):
        if (a, b) == (0.0, 1.0): return self.u01()
        # the places strictly between
        lo, hi = math.floor(a * self.m) + 1, math.ceil(b * self.m) - 1
        if lo > hi: raise Offgrid()
        x = (lo + self.pick([F(1, hi - lo + 1)] * (hi - lo + 1))) / float(self.m)
        self.boxes.append((a, b, x))
        return x


def scale(src, limit, mu, after, tuned):
    """The length scale after an answer follows from the changes of its last interval."""
    last, prev = [], None
    for b in src.boxes:
        if not (prev and prev[0] <= b[0] and b[1] <= prev[1] and (b[0] == prev[2] or b[1] == prev[2])): last = []
        last.append(b)
        prev = b
    if not last: return
    out = int(round(last[0][1] - last[0][0])) - 1
    # the last position may have been refused, too, if no more were allowed
    want = [mu * 2.0 * max(1, out) / (max(1, out) + max(1, c)) for c in (len(last) - 1, len(last))[:2 if len(last) >= limit else 1]] if tuned else [mu]
    if not any(abs(after - w) <= 1e-12 * w for w in want):
        raise Violation('length scale %r becomes %r after %d steps out and %d refused positions (%s)' % (mu, after, out, len(last) - 1, 'tuning' if tuned else 'no longer tuning'), key='scale')


def rows(case, ch):
    """The transition matrix of `steps` slices."""
    src, P = table(case, ch, 1)
    # the height of the slice does not come from an exponential variate: every uniform one must resolve it
    if P and not src.expos: src, P = table(case, ch, 2 ** src.levels)
    return P


def table(case, ch, fine):
    shape, prior, like, m, S, dirs, steps, slices = case[:8]
    mu = case[8] if len(case) > 8 else 1.0
    ok = [p is not None and l > 0.0 for p, l in zip(prior, like)]
    vals = [p for p, k in zip(prior, ok) if k]
    if not vals: return None, None
    M = math.lcm(m, S, fine)
    known = [p for p in prior if p is not None]
    src = Odometer(m, M, max(known) - min(known))
    model = Lattice(shape, [1] * len(prior), [1.0] * len(prior))
    drv = W.Driver(model, lambda d: 'none')
    g = Direction([[c / mu for c in d] for d in dirs], Fixed())
    s = W.worker('sli', model, drv, g, poolsize=4, maxmcmc=S)
    with rng.using(rng.Stream(3)): s.reset()
    model.p, model.l = prior, like
    g.src = src
    s.Nmcmc = s.maxmcmc = steps - 1
    if slices: s.max_slices = slices
    s.mu = mu
    tuned = len(shape) == 1
    s.tuning_steps = s.mcmc_counter + steps + tuned
    base = dict(s.__dict__)
    P = {}
    for x in range(len(prior)):
        if not ok[x]: continue
        row = {}
        while True:
            s.__dict__.update(base)
            p = LivePoint(model.names)
            for j, a in enumerate(model.place(x)): p.values[j] = a
            p.logP, p.logL = model.log_prior(p), model.log_likelihood(p)
            s.evolution_points.clear()
            for _ in range(4): s.evolution_points.append(p.copy())
            src.start()
            drv.m.logLmax.value = INF
            with rng.using(src): n, q = next(s.yield_sample(0.0))
            ch.step()
            if n != steps: raise Violation('%d steps instead of %d' % (n, steps), key='steps')
            if any(a != math.floor(a) for a in q.values): raise Offgrid()
            y = model.at(q.values)
            if not model.in_bounds(q) or not ok[y]: raise Violation('from %r the chain goes to %r, which is not allowed' % (model.place(x), list(q.values)), key='left')
            if q.logP != model.log_prior(q) or q.logL != model.l[y]: raise Violation('the point at %r carries (%r, %r)' % (list(q.values), q.logP, q.logL), key='values')
            if steps == 1: scale(src, s.max_slices, mu, s.mu, tuned)
            row[y] = row.get(y, F(0)) + src.w
            if not src.advance(): break
        if sum(row.values()) != 1: raise RuntimeError('probabilities add up to %s' % sum(row.values()))
        P[x] = row
    return src, P


class Fixed:
    """Before the places are known: any direction."""
    def pick(self, ps): return 0


def kernel(case, ch):
    shape, prior, like, m, S, dirs, steps, slices = case[:8]
    try: P = rows(case, ch)
    except Offgrid:
        ch.outcome = 'not judged'
        return
    if P is None: return
    at = Lattice(shape, prior, like).place
    for x in P:
        for y in P:
            a, b = F(2) ** prior[x] * P[x].get(y, 0), F(2) ** prior[y] * P[y].get(x, 0)
            if steps == 1 and a != b:
                raise Violation('no detailed balance between %r and %r: the flows are %s and %s' % (at(x), at(y), a, b), key='balance')
    # stationary in any case
    for y in P:
        f = sum(F(2) ** prior[x] * P[x].get(y, 0) for x in P)
        if f != F(2) ** prior[y]: raise Violation('the constrained prior is not stationary: %s instead of %s at %r' % (f, F(2) ** prior[y], at(y)), key='stationary')
    if steps == 1:
        # places which the interval may contain from the start can be reached at once
        for x in P:
            for y in P:
                for d in dirs:
                    t = [(b - a) for a, b in zip(at(x), at(y))]
                    k = [round(m * c / e) for c, e in zip(t, d) if e]
                    if k and all(c == k[0] * e / float(m) for c, e in zip(t, d)) and abs(k[0]) < m and not P[x].get(y, 0):
                        raise Violation('%r cannot be reached from %r' % (at(y), at(x)), key='reach')
        if len(shape) == 1 and len(dirs) == 1 and len(set(prior)) == 1 and prior[0] is not None and not slices:
            d = abs(dirs[0][0]) * S
            for x in P:
                for y in P:
                    # (the grid of the draws has m positions per step)
                    if abs(x - y) < d and (x - y) * m % abs(dirs[0][0]) == 0 and not P[x].get(y, 0): raise Violation('%d cannot be reached from %d by %d steps out' % (y, x, S), key='reach')
    if steps > 1:
        one = rows((shape, prior, like, m, S, dirs, 1, slices) + case[8:], ch)
        pw = {x: {x: F(1)} for x in P}
        for _ in range(steps):
            pw = {x: {y: sum(r.get(z, 0) * one[z].get(y, 0) for z in P) for y in P} for x, r in pw.items()}
        for x in P:
            for y in P:
                if pw[x][y] != P[x].get(y, 0): raise Violation('%d steps from %r to %r have probability %s instead of %s' % (steps, at(x), at(y), P[x].get(y, 0), pw[x][y]), key='power')
    ch.state(case)
    ch.outcome = tuple(sorted((x, tuple(sorted(r.items()))) for x, r in P.items()))


class First(Odometer):
    """Takes the middle of the first interval; only the draws before are enumerated."""
    def uniform(self, a, b):
        if (a, b) == (0.0, 1.0): return self.u01()
        self.boxes.append((a, b))
        return 0.5 * (max(a, -1e300) + b) if len(self.boxes) > 1 else 0.0


def wide(case, ch):
    """Nothing stops the interval: it is as long as the maximal number of steps allows, and lies anywhere around the start."""
    S, x, dx = case
    src = First(1, 10, 0)
    n = 801
    model = Lattice((n,), (0,) * n, (1.0,) * n)
    drv = W.Driver(model, lambda d: 'none')
    g = Direction([[dx]], Fixed())
    s = W.worker('sli', model, drv, g, poolsize=4, maxmcmc=S)
    with rng.using(rng.Stream(3)): s.reset()
    s.Nmcmc = s.maxmcmc = 0
    s.mu = 1.0
    base = dict(s.__dict__)
    left = set()
    while True:
        s.__dict__.update(base)
        p = LivePoint(model.names)
        p.values[0] = float(x)
        p.logP, p.logL = model.log_prior(p), 1.0
        s.evolution_points.clear()
        for _ in range(4): s.evolution_points.append(p.copy())
        src.start()
        drv.m.logLmax.value = INF
        with rng.using(src): k, q = next(s.yield_sample(0.0))
        ch.step()
        if not src.boxes: raise Violation('no position was drawn', key='wide')
        a, b = src.boxes[0]
        ext = [x + dx * a, x + dx * b]
        lo, hi = model.bounds[0]
        # beyond the bounds there is nothing to be found: one step may reach over them
        inside = all(lo < v < hi for v in ext)
        if not a <= 0 <= b or b - a > S + 1e-9: raise Violation('the interval [%r, %r] with up to %d steps' % (a, b, S), key='wide')
        if inside and abs(b - a - S) > 1e-9: raise Violation('the interval [%r, %r] has the length %r where nothing stops it after %d' % (a, b, b - a, S), key='wide')
        if inside: left.add(round(-a / S, 1))
        if not src.advance(): break
    if lo < x - S * abs(dx) and x + S * abs(dx) < hi and len(left) < 9: raise Violation('the part of the interval before the start only takes the values %r' % sorted(left), key='wide')
    ch.state(case)
    ch.outcome = (S, len(left))


def main(ctx):
    q = ctx.quick
    L = (1.0, 0.0)
    ks = []
    for p in itertools.product((0, 1, 2), repeat=4):
        for l in itertools.product(L, repeat=4): ks.append(((4,), p, l, 2, 2, ((2.0,),), 1, None))
    for p in itertools.product((0, 1, None), repeat=5):
        for l in ((1.0,) * 5, (1.0, 1.0, 0.0, 1.0, 1.0), (1.0, NAN, 1.0, -INF, 1.0)):
            ks.append(((5,), p, l, 2, 2, ((-2.0,),), 1, None))
            ks.append(((5,), p, l, 1, 3, ((1.0,),), 1, None))
            if not q: ks.append(((5,), p, l, 1, 4, ((2.0,),), 1, None)); ks.append(((5,), p, l, 2, 4, ((2.0,),), 1, None))
    for p in itertools.product((0, 2), repeat=6 if q else 7):
        ks.append(((len(p),), p, (1.0,) * len(p), 4, 2, ((4.0,),), 1, 9))
        ks.append(((len(p),), p, (1.0, 0.0) * 3 + (1.0,) * (len(p) - 6), 2, 2, ((2.0,),), 1, 9))
    ctx.for_all('on a line', kernel, ks, budget=ctx.budget(120, 1500), rule='all priors and likelihoods on a line of places')
    ps = []
    for p in itertools.product((0, 1), repeat=4):
        for l in ((1.0, 1.0, 1.0, 1.0), (1.0, 0.0, 1.0, 1.0), (NAN, 1.0, 1.0, 1.0)):
            for dirs in (((2.0, 0.0), (0.0, 2.0)), ((2.0, 2.0), (-2.0, 0.0)), ((2.0, 2.0), (2.0, -2.0), (0.0, 2.0))):
                ps.append(((2, 2), p, l, 2, 2, dirs, 1, None))
    for p in itertools.product((0, 1), repeat=6 if q else 9):
        ps.append(((2, 3) if q else (3, 3), p, (1.0,) * len(p), 1, 2, ((1.0, 1.0), (1.0, 0.0), (0.0, -1.0)), 1, 5))
    ctx.for_all('in a plane', kernel, ps, budget=ctx.budget(120, 1500), rule='all priors on a rectangle of places, several directions')
    ms = [((5,), p, l, 2, 2, ((2.0,),), 1, None, mu) for mu in (0.125, 2.0) for p in itertools.product((0, 1, 3), repeat=5) for l in ((1.0,) * 5, (1.0, 0.0, 1.0, 1.0, 0.0))]
    ctx.for_all('length scales', kernel, ms, budget=ctx.budget(120, 1500), rule='as on a line, with length scales that have been adapted (the step itself has the same size)')
    ss = [((3,), p, l, 1, 2, ((1.0,),), n, sl) for p in itertools.product((0, 1), repeat=3) for l in ((1.0, 1.0, 1.0), (1.0, 0.0, 1.0), (1.0, 1.0, 0.0)) for n in ((2,) if q else (2, 3)) for sl in (None, 1)]
    ctx.for_all('wide', wide, [(S, x, dx) for S in (10, 64, 100, 300) for x in (150, 400, 640) for dx in (1.0, -2.0)], budget=ctx.budget(60, 300), rule='a flat line of 801 places, up to 300 steps out: the extent of the interval for every region of the draws')
    ctx.for_all('several steps', kernel, ss, budget=ctx.budget(120, 1500), rule='two (three) steps in a row')

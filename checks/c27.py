from mc import wenv as W, rng, explore as X
from mc.explore import Violation
import array, collections, itertools, math
from collections import deque
import numpy as np
from mc.wenv import PRm, INF, NAN, LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of positions, momenta, step sizes, boundaries and constraints for the single steps of the real integrator (each undone '
             'by the reversed step), and of all draws of complete proposals; every outcome and its probability compared with a reference trajectory')
NOTE = 'One to three parameters (five in some cases), quadratic and linear potentials; grids include the bounds, several reflections in one step and invalid likelihoods.'
ASSUME = ['the first ensemble spans all dimensions (a proposal that has never seen one has no masses)', 'the estimated normal of the contour is taken as it is',
          'a force is the gradient of the potential']
N3 = ['x', 'y', 'z', 'u', 'v']


class Model(W.Model):
    """-log prior = k/2 |q-c|^2 + s.q inside the bounds"""
    def __init__(self, d, k=1.0, s=0.0, like='disc', width=1.0):
        self.names, self.bounds = N3[:d], [[-width * (j + 1), width * (j + 1)] for j in range(d)]
        self.k, self.s, self.like, self.asked = k, s, like, []
    def __deepcopy__(self, memo): return self
    def value(self, v):
        if self.like == 'disc': return -sum(a * a for a in v)
        if self.like == 'ramp': return v[0]
        if self.like == 'nan': return NAN if v[0] < 0 else -v[0]
        if self.like == 'inf': return -INF if v[0] < 0 else -v[0]
    def lprior(self, v): return -sum(0.5 * self.k * a * a + self.s * a for a in v)
    def log_likelihood(self, p):
        self.asked.append(tuple(p.values))
        return self.value(list(p.values))
    def log_prior(self, p):
        v = list(p.values)
        return self.lprior(v) if all(l <= a <= u for a, (l, u) in zip(v, self.bounds)) else -INF
    def grad(self, v): return [self.k * a + self.s for a in v]
    def force(self, p):
        f = np.zeros(1, dtype={'names': list(self.names), 'formats': ['f8' for _ in self.names]})
        for n, a in zip(self.names, self.grad(list(p.values))): f[n] = a
        return f


def pt(v):
    p = LivePoint(N3[:len(v)], d=array.array('d', [float(a) for a in v]))
    return p


def ensemble(model, seed, n=24):
    r = rng.Stream(seed)
    e = deque()
    while len(e) < n:
        v = [l + (u - l) * (0.05 + 0.9 * r.u01()) for l, u in model.bounds]
        if seed % 2: v = [0.5 * (a + v[0]) if j else a for j, a in enumerate(v)]    # correlated
        p = pt(v)
        p.logL, p.logP = -sum(a * a for a in v), model.lprior(v)
        e.append(p)
    return e


def prop(model, seed):
    h = PRm.ConstrainedLeapFrog(model=model)
    e = ensemble(model, seed)
    h.set_ensemble(e)
    return h, e


def near(a, b, tol=1e-9): return all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b)) and len(a) == len(b)


def fold(x, l, u):
    """Reflected into [l, u]; and the sign of the momentum."""
    s = 1
    while not l <= x <= u:
        if x > u: x, s = 2 * u - x, -s
        elif x < l: x, s = 2 * l - x, -s
    return x, s


def drift(h, model, q, p, dt):
    m = np.diag(np.atleast_2d(h.inverse_mass_matrix))
    out = [fold(a + dt * b * c, l, u) for a, b, c, (l, u) in zip(q, p, m, model.bounds)]
    return [o[0] for o in out], [b * o[1] for b, o in zip(p, out)]


# ---- single steps --------------------------------------------------------------------------------------------------
def position(case, ch):
    d, seed, dt, q, p = case
    model = Model(d)
    h, e = prop(model, seed)
    h.dt = dt
    x = pt(q)
    p1, q1 = h.evolve_trajectory_one_step_position(np.array(p), x)
    ch.step()
    v = [float(a) for a in q1.values]
    if not all(l <= a <= u for a, (l, u) in zip(v, model.bounds)): raise Violation('the trajectory leaves the bounds: %r -> %r' % (q, v), key='bounds')
    rq, rp = drift(h, model, q, p, dt)
    if not near(v, rq) or not near(list(p1), rp): raise Violation('a step from %r with momentum %r leads to %r, %r instead of %r, %r' % (q, p, v, list(p1), rq, rp), key='drift')
    p2, q2 = h.evolve_trajectory_one_step_position(-np.array(p1), q1.copy())
    # on a bound either sign of the momentum means the same
    p2 = [-abs(b) * math.copysign(1, a) if min(abs(c - m) for m in bd) < 1e-9 else b for a, b, c, bd in zip(p, p2, q, model.bounds)]
    if not near(list(q2.values), q, 1e-7) or not near(list(p2), [-a for a in p], 1e-7):
        raise Violation('the reversed step from %r leads to %r, not back to %r' % (v, list(q2.values), q), key='reverse')
    ch.state(case)
    ch.outcome = (d, tuple(round(a, 6) for a in v))


def momentum(case, ch):
    d, seed, dt, q, p, like, thr, k = case
    model = Model(d, k=k, s=0.25, like=like)
    h, e = prop(model, seed)
    h.dt = dt
    g = np.array(model.grad(list(q)))
    for half in (True, False):
        x = pt(q)
        p1, q1, r = h.evolve_trajectory_one_step_momentum(np.array(p, float), x, thr, half=half)
        ch.step()
        if list(q1.values) != list(q): raise Violation('a step in momentum moves the point', key='moved')
        L = model.value(list(q))
        if half: want = np.array(p) - 0.5 * dt * g
        elif L > thr: want = np.array(p) - dt * g
        else:
            n = np.array(h.unit_normal(x), float)
            if abs(np.dot(n, n) - 1) > 1e-9: raise Violation('the normal at %r is %r' % (q, n), key='normal')
            want = np.array(p) - 2 * np.dot(p, n) * n
            if abs(np.dot(p1, p1) - np.dot(p, p)) > 1e-9 * max(1, np.dot(p, p)): raise Violation('the reflection changes the length of the momentum', key='length')
        if bool(r) != (not half and not L > thr): raise Violation('reflected: %r for likelihood %r, threshold %r' % (r, L, thr), key='reflected')
        if not near(list(p1), list(want)): raise Violation('at %r momentum %r becomes %r instead of %r' % (q, p, list(p1), list(want)), key='kick')
        p2, q2, r2 = h.evolve_trajectory_one_step_momentum(-np.array(p1), pt(q), thr, half=half)
        if not near(list(p2), [-a for a in p]): raise Violation('the reversed step in momentum gives %r, not %r' % (list(p2), [-a for a in p]), key='reverse')
        if not half and (not W.same(q1.logL, L) or not near([q1.logP], [model.lprior(list(q))])):
            raise Violation('the point at %r carries (%r, %r)' % (q, q1.logP, q1.logL), key='values')
    ch.state(case)
    ch.outcome = (d, like, bool(r))


def slack(L):
    """Rounding errors grow along a trajectory, most of all with reflections."""
    return 1e-7 if L <= 5 else 1e-4


# ---- complete proposals --------------------------------------------------------------------------------------------
def reference(h, model, q0, p0, L, dt, thr):
    """The points after the start, forward and backward, with their momenta; None if some likelihood is too close to the threshold to tell."""
    out = []
    for s in (1.0, -1.0):
        q = list(q0)
        p = [s * a for a in p0]
        p = [a - 0.5 * dt * b for a, b in zip(p, model.grad(q))]
        for _ in range(L):
            q, p = drift(h, model, q, p, dt)
            l = model.value(q)
            if abs(l - thr) < slack(L): return None
            if l > thr: p = [a - dt * b for a, b in zip(p, model.grad(q))]
            else:
                n = np.array(h.unit_normal(pt(q)), float)
                p = list(np.array(p) - 2 * np.dot(p, n) * n)
            out.append((list(q), list(p)))
    return out


GRID = 64


class Draws(rng.Source):
    """Given normal draws; the choice of the point is enumerated."""
    def __init__(self, gs): self.gs, self.n, self.choice, self.law = gs, 0, None, None
    def gauss(self):
        self.n += 1
        return self.gs[(self.n - 1) % len(self.gs)]
    def weighted(self, p):
        self.law = list(p)
        return self.choice if self.choice is not None else int(np.argmax(p))
    def u01(self):
        self.law = [1.0 / GRID] * GRID
        self.grid = True
        return ((self.choice or 0) + 0.5) / GRID
    grid = False


def whole(case, ch):
    d, seed, dt, L, q, gs, like, thr, k = case
    model = Model(d, k=k, s=0.25, like=like)
    h, e = prop(model, seed)
    h.dt, h.L = dt, L
    T0 = float(h.kinetic_energy(np.zeros(d)))
    cov = np.cov(np.array([list(p.values) for p in e]).T).reshape(d, d)
    # momenta: linear in the normal draws, with the inverse covariance
    A = []
    for j in range(d):
        src = Draws([1.0 if i == j else 0.0 for i in range(d)])
        with rng.using(src): A.append(np.atleast_1d(h.momenta_distribution.rvs()))
    A = np.array(A).T
    if np.allclose(A @ A.T, np.linalg.inv(cov), rtol=1e-6): pop = 1.0
    elif np.allclose(A @ A.T, np.linalg.inv(cov * (len(e) - 1.0) / len(e)), rtol=1e-6): pop = (len(e) - 1.0) / len(e)
    else: raise Violation('the momenta have covariance %s, the inverse of that of the ensemble is %s' % ((A @ A.T).tolist(), np.linalg.inv(cov).tolist()), key='mass')
    p0 = A @ np.array(gs[:d])
    def H(q, p): return 0.5 * float(np.dot(p, cov @ np.array(p))) * pop + T0 - model.lprior(q)
    ref = reference(h, model, q, p0, L, dt, thr)
    if ref is None: return
    src = Draws(gs)
    i, tot, law, seen = 0, None, None, []
    while tot is None or i < tot:
        src.n, src.choice = 0, i
        x = pt(q)
        x.logL, x.logP = model.value(list(q)), model.lprior(list(q))
        with rng.using(src): y = h.get_sample(x, logLmin=thr)
        ch.step()
        if law is None: law, tot = src.law, len(src.law)
        if list(x.values) != list(q): raise Violation('the old point was changed', key='changed')
        v = [float(a) for a in y.values]
        if not all(l <= a <= u for a, (l, u) in zip(v, model.bounds)): raise Violation('proposed %r out of bounds' % (v,), key='bounds')
        if not W.same(y.logL, model.value(v)) or not near([y.logP], [model.lprior(v)]): raise Violation('the proposed point at %r carries (%r, %r)' % (v, y.logP, y.logL), key='values')
        js = [j for j, (a, b) in enumerate(ref) if near(v, a, slack(L))]
        if not js: raise Violation('the proposed point %r is not on the trajectory through %r with momentum %r' % (v, q, list(p0)), key='trajectory')
        Hs = [H(*ref[j]) for j in js]
        dE = [min(0.0, H(q, p0) - a) for a in Hs]
        if not any(abs(a - h.log_J) <= 10 * slack(L) * max(1.0, abs(a)) for a in dE): raise Violation('the proposal to %r declares %r, the energy changes by %r' % (v, h.log_J, [H(q, p0) - a for a in Hs]), key='energy')
        seen.append((js, Hs))
        i += 1
    # with which probabilities
    if src.grid:
        # chosen by a uniform draw
        if all(len(js) == 1 for js, _ in seen):
            m = min(Hs[0] for js, Hs in seen)
            n = collections.Counter(js[0] for js, _ in seen)
            w = {js[0]: math.exp(m - Hs[0]) for js, Hs in seen}
            for j in n:
                if abs(n[j] / float(GRID) - w[j] / sum(w.values())) > 2.5 / GRID: raise Violation('point %d of the trajectory is proposed with probability %r instead of %r' % (j, n[j] / float(GRID), w[j] / sum(w.values())), key='law')
        return
    if tot < 2 * L - 1: raise Violation('%d points of a trajectory of %d steps in each direction can be proposed' % (tot, L), key='law')
    used = {j for js, _ in seen for j in js}
    if len(used) < 2 * L - 1: raise Violation('only %d of %d points of the trajectory can be proposed' % (len(used), 2 * L), key='law')
    # (where two points of a trajectory coincide any of them may be meant)
    hs = [Hs[0] for js, Hs in seen]
    if all(len(js) == 1 for js, _ in seen):
        m = min(hs)
        w = [math.exp(m - a) for a in hs]
        for a, b in zip(law, w):
            if abs(a - b / sum(w)) > slack(L): raise Violation('the points are proposed with probabilities %r instead of %r' % (law, [c / sum(w) for c in w]), key='law')
    ch.state(case)
    ch.outcome = (d, L, tot, tuple(round(a, 4) for a in law))


def adapt(case, ch):
    """Step size and length."""
    seq, seed = case
    model = Model(2)
    h, e = prop(model, 0)
    base, L0 = h.dt, h.base_L
    prev = None
    with rng.using(rng.Stream(seed)):
        for a in seq:
            before = h.dt if prev is not None else None
            h.update_time_step(a)
            ch.step()
            if not h.dt > 0: raise Violation('step size %r' % h.dt, key='dt')
            if before is not None:
                r = h.dt / before
                if (a > h.TARGET and not r > 1) or (a < h.TARGET and not r < 1) or (a == h.TARGET and abs(r - 1) > 1e-12):
                    raise Violation('at an acceptance of %r (target %r) the step size changes by a factor of %r' % (a, h.TARGET, r), key='dt')
                if abs(math.log(r) - h.ADAPTATIONSIZE * (a - h.TARGET)) > 1e-9: raise Violation('the step size changes by a factor of %r' % r, key='dt')
            prev = a
    ch.outcome = round(h.dt, 12)
    ch.state(case)


class Idx(rng.Stream):
    def __init__(self, i): rng.Stream.__init__(self, 0); self.i, self.n = i, None
    def index(self, n):
        self.n = n
        return min(self.i, n - 1)


def length(case, ch):
    n, = case
    h, e = prop(Model(2), 0)
    got = set()
    src = Idx(0)
    while src.n is None or src.i < src.n:
        with rng.using(src): h.update_trajectory_length(n)
        got.add(int(h.L) - h.base_L)
        src.i += 1
        ch.step()
    if got != set(range(n, 5 * n)): raise Violation('for %d steps the trajectory gets %d to %d more (%d values)' % (n, min(got), max(got), len(got)), key='length')
    ch.state(case)
    ch.outcome = n


def statistics(case, ch):
    """After an update everything follows the new ensemble."""
    d, a, b, way = case
    model = Model(d)
    h, e = prop(model, a)
    f = ensemble(model, b)
    if way == 'new': h.set_ensemble(f)
    else:
        for p in list(f): e.popleft(); e.append(p)
        h.set_ensemble(e)
    ch.step()
    g, _ = prop(model, b)
    for n in ('covariance', 'mass_matrix', 'inverse_mass_matrix', 'inverse_mass'):
        x, y = np.atleast_1d(getattr(h, n)), np.atleast_1d(getattr(g, n))
        if x.shape != y.shape or not np.allclose(x, y): raise Violation('%s is %s instead of %s after an update' % (n, x.tolist(), y.tolist()), key='update')
    src = Draws([1.0, -0.5, 0.25])
    with rng.using(src): x = np.atleast_1d(h.momenta_distribution.rvs())
    src.n = 0
    with rng.using(src): y = np.atleast_1d(g.momenta_distribution.rvs())
    if not np.allclose(x, y): raise Violation('momenta of an old ensemble', key='update')
    for q in itertools.product((-0.5, 0.25), repeat=d):
        if not np.allclose(h.unit_normal(pt(q)), g.unit_normal(pt(q))): raise Violation('normal vectors of an old ensemble', key='update')
        p = np.array([1.0, 2.0, -1.0][:d])
        if abs(h.kinetic_energy(p) - h.kinetic_energy(0 * p) - 0.5 * p @ np.atleast_2d(h.inverse_mass_matrix) @ p) > 1e-9: raise Violation('kinetic energy', key='kinetic')
        if abs(h.hamiltonian(p, pt(q)) - h.kinetic_energy(p) + model.lprior(q)) > 1e-9: raise Violation('hamiltonian', key='kinetic')
    ch.state(case)
    ch.outcome = case


# ---- ensembles that are hard to describe -----------------------------------------------------------------------------
ROWS = ('wide', 'same', 'two', 'line', 'ridge', 'thin ridge', 'tiny', 'scales', 'repeats', 'pairs', 'twins', 'ulps')
LIKES = ('slope', 'flat', 'mostly -inf', 'all -inf', 'mostly nan', 'steps', 'few')


def rows_of(kind, d, n, r):
    u = [[0.05 + 0.9 * r.u01() for _ in range(d)] for _ in range(n)]
    if kind == 'wide': return u
    if kind == 'same': return [[0.3] * d] * n
    if kind == 'two': return [[0.3 if i % 2 else 0.6] * d for i in range(n)]
    if kind == 'line': return [[(i + 1.0) / (n + 2)] * d for i in range(n)]
    if kind in ('ridge', 'thin ridge'): return [[(i + 1.0) / (n + 2) + (1e-3 if kind == 'ridge' else 1e-5) * (a - 0.5) for a in u[i]] for i in range(n)]
    if kind == 'tiny': return [[0.5 + 1e-9 * a for a in v] for v in u]
    if kind == 'scales': return [[a * s for a, s in zip(v, (1.0, 1e-6, 1e-3))] for v in u]
    if kind == 'repeats': return [u[i % 5] for i in range(n)]
    # the largest (or every) value appears twice, but for the last digit; all values are next to one another
    if kind == 'pairs':
        m = [max(v[j] for v in u) for j in range(d)]
        return u[:-1] + [[np.nextafter(a, 1) for a in m]]
    if kind == 'twins': return [u[i // 2] if i % 2 else [float(np.nextafter(a, 1)) for a in u[i // 2]] for i in range(n)]
    if kind == 'ulps': return [[0.5 + (i * (j + 3) % n) * 2.0 ** -53 for j in range(d)] for i in range(n)]


def likes_of(kind, n):
    if kind == 'slope': return [0.1 * i - 3 for i in range(n)]
    if kind == 'flat': return [-1.0] * n
    if kind == 'mostly -inf': return [-1.0 - i if i % 4 == 0 else -INF for i in range(n)]
    if kind == 'all -inf': return [-INF] * n
    if kind == 'mostly nan': return [-1.0 - i if i % 4 == 0 else NAN for i in range(n)]
    if kind == 'steps': return [-1.0 if i % 2 else -2.0 for i in range(n)]
    if kind == 'few': return [-0.1 * i if i < 11 else -INF for i in range(n)]


PRIORS = ('flat', 'heavy', 'hole', 'nan', 'speck')


class Box(Model):
    """A constant prior: with a large constant, only on one side, or only close to 0.3"""
    def __init__(self, d, prior='flat'):
        Model.__init__(self, d, k=0.0, s=0.0, like='disc')
        self.bounds, self.prior = [[0.0, 1.0]] * d, prior
    def __reduce__(self): return (Box, (len(self.names), self.prior))
    def lprior(self, v):
        if self.prior == 'heavy': return -1e9 + 0.125 * v[0]
        if self.prior == 'hole': return -INF if v[0] > 0.62 else 0.0
        if self.prior == 'nan': return NAN if v[0] > 0.62 else 0.0
        if self.prior == 'speck': return 0.0 if abs(v[0] - 0.3) < 1e-7 else -INF
        return 0.0


def made(rows, likes):
    e = deque()
    for v, l in zip(rows, likes):
        p = pt(v)
        p.logL, p.logP = l, 0.0
        e.append(p)
    return e


def law_of(h, d):
    """The matrix that turns normal draws into momenta."""
    A = []
    for j in range(d):
        src = Draws([1.0 if i == j else 0.0 for i in range(d)])
        with rng.using(src): A.append(np.atleast_1d(h.momenta_distribution.rvs()))
    return np.array(A).T


def inverse_of(A, rows):
    """Whether A A^T is the inverse of the covariance of the rows, in units in which that is one (None if it has none)."""
    X = np.array(rows)
    s = X.std(axis=0)
    if np.any(s < 1e-12): return None
    w, V = np.linalg.eigh(np.atleast_2d(np.cov((X / s).T)))
    if w.min() < 1e-7 * w.max(): return None        # (its inverse has no correct digits in some direction)
    B = np.sqrt(w)[:, None] * (V.T @ (A * s[:, None]))
    Q = B @ B.T
    # (the precision that is left where the covariance has been computed and inverted in floating point)
    return any(np.allclose(Q, f * np.eye(len(Q)), atol=1e-2) for f in (1.0, len(X) / (len(X) - 1.0)))


def unusual(case, ch):
    d, kinds, like, n, copied, prior = case
    model = Box(d, prior)
    r = rng.Stream(5)
    h = PRm.ConstrainedLeapFrog(model=model)
    last = None
    for kind in kinds:
        rows, lk = rows_of(kind, d, n, r), likes_of(like, n)
        e = made(rows, lk)
        try: h.set_ensemble(e)
        except Exception as ex: raise Violation('the ensemble %r with likelihoods %r is refused: %s: %s' % (kind, like, type(ex).__name__, str(ex)[:80]), key='refused')
        ch.step()
        A = law_of(h, d)
        ok = inverse_of(A, rows)
        if kind in ('same',) or (d > 1 and kind in ('two', 'line')): ok = None
        if ok is False: raise Violation('the momenta for the ensemble %r do not follow the inverse of its covariance' % (kind,), key='mass')
        if ok: last = rows
        elif not np.all(np.isfinite(A)) or not np.any(A): raise Violation('the momenta for %r are %r' % (kind, A.tolist()), key='mass')
        for v in ([0.5] * d, [0.25, 0.5, 0.75][:d], rows[0]):
            u = np.array(h.unit_normal(pt(v)), float)
            if u.shape != (d,) or not np.all(np.isfinite(u)) or abs(np.dot(u, u) - 1) > 1e-9: raise Violation('the normal at %r is %r' % (v, u.tolist()), key='normal')
    if copied:
        import pickle
        h = pickle.loads(pickle.dumps(h))
    for i in (0, n // 2):
        for thr in (-INF, -0.4 * d):
            at = rows[i] if math.isfinite(model.lprior(rows[i])) else [0.3] * d
            x = pt(at)
            x.logL, x.logP = model.value(at), model.lprior(at)
            with rng.using(rng.Stream(7 + i)):
                try: y = h.get_sample(x, logLmin=thr)
                except Exception as ex: raise Violation('no proposal from the ensemble %r with likelihoods %r: %s: %s' % (kinds, like, type(ex).__name__, str(ex)[:80]), key='refused')
            ch.step()
            v = [float(a) for a in y.values]
            if not all(0 <= a <= 1 for a in v): raise Violation('proposed %r out of bounds' % (v,), key='bounds')
            if not W.same(y.logL, model.value(v)) or not near([y.logP], [model.lprior(v)]): raise Violation('the proposed point at %r carries (%r, %r)' % (v, y.logP, y.logL), key='values')
            if not math.isfinite(model.lprior(v)): raise Violation('proposed %r where the prior vanishes' % (v,), key='prior')
            if prior == 'speck' and abs(v[0] - 0.3) > 2e-7: raise Violation('proposed %r' % (v,), key='prior')
            if not (h.log_J <= 0): raise Violation('declares %r' % h.log_J, key='energy')
    ch.state(case)
    ch.outcome = (d, kinds, like)


def main(ctx):
    q = ctx.quick
    xs, ps = (-1.0, -0.75, 0.0, 0.5, 1.0), (-40.0, -3.0, -0.5, 0.0, 1.0, 7.0)
    A = [(1, s, dt, (x,), (p,)) for s in (0, 1) for dt in (0.05, 0.3, 2.0) for x in xs for p in ps]
    A += [(2, s, dt, (x, y), (p, r)) for s in (0, 1) for dt in (0.05, 0.7) for x in xs[::2] for y in (-2.0, -1.0, 0.3, 2.0) for p in ps for r in ps[::2]]
    if not q: A += [(3, s, dt, (x, y, -3.0), (p, r, 11.0)) for s in (0, 1) for dt in (0.05, 0.7) for x in xs for y in (-2.0, -1.0, 0.3, 2.0) for p in ps for r in ps]
    A += [(5, s, dt, (x, 0.5, -3.0, y, 2.5), (p, -7.0, 1.0, r, p)) for s in (0, 1) for dt in (0.05, 0.7) for x in xs for y in (-4.0, -1.0, 0.3) for p in ps for r in ps[::2]]
    ctx.for_all('steps in position', position, A, budget=ctx.budget(60, 600), rule='all positions, momenta and step sizes of a grid with the bounds')
    B = [(d, s, dt, x[:d], p[:d], like, thr, k) for d in ((1, 2) if q else (1, 2, 3)) for s in (0, 1) for dt in (0.05, 0.7)
         for x in itertools.product((-0.75, 0.0, 0.5), (-1.0, 0.3), (2.0,)) for p in itertools.product((-3.0, 0.0, 1.0), (0.5, -2.0), (1.0,))
         for like in ('disc', 'ramp', 'nan', 'inf') for thr in (-INF, -0.5, 0.25) for k in (1.0,)]
    B += [(5, s, 0.3, (x, 0.5, -2.0, y, 1.5), (p, -2.0, 1.0, r, 0.25), like, thr, 1.0) for s in (0, 1) for x in (-0.75, 0.5) for y in (-3.0, 0.25) for p in (-3.0, 1.0) for r in (0.5, -2.0)
          for like in ('disc', 'ramp', 'nan', 'inf') for thr in (-INF, -0.5, 0.25)]
    ctx.for_all('steps in momentum', momentum, sorted(set(B), key=repr), budget=ctx.budget(90, 600), rule='all positions, momenta, step sizes and constraints of a grid')
    Cs = []
    for d in (1, 2, 3):
        for s in (0, 1):
            for dt in (0.1, 0.5):
                for L in ((1, 2, 5) if q else (1, 2, 4, 9)):
                    for x in ((-0.7, 0.4, 1.0), (0.3, -1.1, -2.0), (0.05, 0.05, 0.3)):
                        for gs in itertools.product((-1.3, 0.4), (0.7, -0.2), (1.1,)):
                            for like, thr in (('disc', -INF), ('disc', -0.6), ('ramp', -0.75), ('disc', -0.1)):
                                Cs.append((d, s, dt, L, x[:d], gs, like, thr, 1.0))
    Cs += [(5, s, 0.2, L, x, gs, like, thr, 1.0) for s in (0, 1) for L in (2, 5) for x in ((-0.7, 0.4, 1.0, 3.0, -2.0), (0.05, 0.05, 0.3, -0.1, 0.2))
           for gs in itertools.product((-1.3, 0.4), (0.7,), (1.1,), (-0.3, 0.9), (-1.0, 0.5)) for like, thr in (('disc', -INF), ('disc', -0.6), ('ramp', -0.75))]
    ctx.for_all('proposals', whole, sorted(set(Cs), key=repr), budget=ctx.budget(120, 1500), rule='all starts, momenta, trajectories and every point that may be chosen from them')
    ctx.for_all('adaptation', adapt, [(s, 1) for n in range(1, 6) for s in itertools.product((0.0, 0.5, 0.8, 1.0), repeat=n)], budget=60, rule='all sequences of acceptances')
    ctx.for_all('length', length, [(n,) for n in (1, 2, 5, 20, 100)], budget=60, rule='every draw')
    ctx.for_all('updates', statistics, [(d, a, b, w) for d in (1, 2, 3) for a in range(4) for b in range(4) for w in ('new', 'turned')], budget=60, rule='pairs of ensembles')
    D = [(d, k, l, n, c, pr) for d in (1, 2, 3) for k in [('wide',), ('ridge',), ('tiny',), ('scales',)] + [('wide', b) for b in ROWS] + ([('wide', b, g) for b in ROWS for g in ROWS] if not q else [('wide', b, 'wide') for b in ROWS])
         for l in LIKES for n in ((12, 24) if q else (12, 16, 24, 60)) for c in (False, True) for pr in (PRIORS if c or not q else PRIORS[:1])]
    ctx.for_all('unusual ensembles', unusual, D, budget=ctx.budget(90, 900), rule='all shapes of ensembles and of their likelihoods, one after another')

from mc import rng
rng.install()
import itertools, logging, math, warnings
import numpy as np
from fractions import Fraction as F
from mc import exact as E
from mc.explore import Violation
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
from cpnest import nest2pos as N2
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of likelihood and volume sequences over small alphabets (zero, ties, ratios beyond the exponent range, '
             'shifts), each compared with exact rational arithmetic')
NOTE = 'Likelihoods are powers of two times a common factor up to exp(+-10000); all lists of up to 7 samples with 1 to 4 live points, six shapes of 70 to 900 samples with up to 300.'
ASSUME = ['at least one sample has a positive likelihood', 'at least as many samples as live points']
INF = float('inf')
SHIFTS = (0.0, 700.0, -800.0, 12345.678, -1e4)


def weights(case, ch):
    ks, N = case
    if all(k is None for k in ks): return
    Z, W = E.weights(ks, N)
    base = None
    for a in SHIFTS:
        data = np.array(E.logs(ks, a))
        keep = data.copy()
        lz, lw = N2.compute_weights(data, N)
        ch.step()
        if not np.array_equal(data, keep): raise Violation('the likelihoods were modified', key='input')
        if len(lw) != len(ks): raise Violation('%d weights for %d samples' % (len(lw), len(ks)), key='count')
        if not abs(lz - a - E.logF(Z)) < 1e-9 * max(1, abs(lz), abs(a)): raise Violation('log-evidence %r instead of %r (N=%d, %r)' % (lz, a + E.logF(Z), N, list(data)), key='evidence')
        for i, w in enumerate(W):
            if not (lw[i] == -INF if w == 0 else abs(lw[i] - E.logF(w)) < 1e-8 * max(1, abs(E.logF(w)), abs(a) * 1e-2)):
                raise Violation('weight %d is %r instead of %r (N=%d, %r)' % (i, lw[i], E.logF(w), N, list(data)), key='weight')
    ch.state(case)
    ch.outcome = (N, len(ks), sum(k is None for k in ks))


def trapezium(case, ch):
    ks, vs = case
    v = [F(1)]
    for x in vs: v.append(v[-1] * x)
    Z = E.trap([E.like(k) for k in ks], v)
    for a in SHIFTS:
        f, s = np.array(E.logs(ks, a)), np.array([E.logF(x) for x in v])
        z = N2.log_integrate_log_trap(f, s)
        ch.step()
        r = E.logF(Z)
        if not (z == -INF if Z == 0 else abs(z - a - r) < 1e-9 * max(1, abs(z), abs(a))): raise Violation('integral of %r over %r is %r instead of %r' % (list(f), list(s), z, a + r), key='trap')
    ch.state(case)
    ch.outcome = (len(ks), Z == 0)


def difference(case, ch):
    """log(2^i + c) - log(2^j): the helper on scalars and arrays."""
    x, y = case
    lx, ly = E.logF(x), E.logF(y)
    ch.step()
    for wrap in (lambda t: t, np.float64, lambda t: np.array([t, t])):
        try:
            r = N2.logsubexp(wrap(lx), wrap(ly))
            ok = True
        except AssertionError: ok = False
        if lx < ly:
            if ok: raise Violation('exp(%r)-exp(%r) was accepted' % (lx, ly), key='refuse')
            continue
        if not ok: raise Violation('exp(%r)-exp(%r) was refused' % (lx, ly), key='refuse')
        if x == 0: continue               # zero minus zero: no value is promised
        r = float(np.atleast_1d(r)[0])
        ref = E.logF(x - y)
        # the inputs are rounded: an error of one unit in lx-ly is magnified by x/(x-y)
        tol = 1e-9 + (4e-16 * max(1, abs(lx)) * float(x / (x - y)) if x != y else 0)
        if not (r == ref if ref == -INF or r == -INF else abs(r - ref) <= tol * max(1, abs(ref))): raise Violation('log(exp(%r)-exp(%r)) = %r instead of %r' % (lx, ly, r, ref), key='difference')
    if lx > ly:
        # one wrong pair in an array is refused
        try:
            N2.logsubexp(np.array([lx, ly]), np.array([ly, lx]))
        except AssertionError: pass
        else: raise Violation('an array with one wrong pair was accepted', key='refuse')
    ch.state(case)
    ch.outcome = (lx > ly, lx == ly)


def main(ctx):
    q = ctx.quick
    A = (None, 0, 1, 3, 1100, -1100)
    cs = []
    for n in range(1, 6 if q else 7):
        for ks in itertools.product(A if n < 5 else A[:5], repeat=n):
            for N in range(2, min(n, 4 if q else 5) + 1): cs.append((ks, N))
    for n in (6, 7) if q else (7, 8, 9):
        for ks in itertools.combinations_with_replacement((-1100, 0, 1, 2, 1100), n):
            for N in range(2, min(n, 4) + 1): cs.append((ks, N))
    ctx.for_all('weights', weights, cs, budget=ctx.budget(90, 900), rule='all likelihood sequences and numbers of live points, five shifts each')
    ls = []
    for n in (70, 400) if q else (70, 400, 900):
        for N in (2, 10, 60, 300):
            if N > n: continue
            for k, f in enumerate((lambda i: i // 3, lambda i: 0, lambda i: None if i < n // 3 else i // 7, lambda i: (i * i) // 50, lambda i: -1100 if i < n - 5 else i, lambda i: min(i, n - N) // 2)):
                ls.append((tuple(f(i) for i in range(n)), N))
    ctx.for_all('long runs', weights, ls, budget=ctx.budget(60, 400), rule='runs of 70 to 400 (900) samples, 2 to 300 live points, six shapes')
    V = (F(1, 2), F(1), F(2, 3), F(1, 1 << 60), F(999999, 1000000), F(0))
    ts = []
    for n in range(2, 5 if q else 6):
        for ks in itertools.product((None, 0, 1, 900, -900), repeat=n):
            for vs in itertools.product(V if n < 5 else V[:4], repeat=n - 1):
                if any(v == 0 for v in vs[:-1]): continue
                ts.append((ks, vs))
    ctx.for_all('trapezium', trapezium, ts, budget=ctx.budget(90, 900), rule='all likelihood sequences and shrinkages')
    X = [F(0), F(1), F(2), F(3, 7), F(1) + F(1, 1 << 30), F(1) - F(1, 1 << 20), F(2) ** 1200, F(2) ** -1200, F(2) ** 1200 + F(2) ** 1170, F(10) ** 5, F(2) ** -40]
    ctx.for_all('differences', difference, list(itertools.product(X, repeat=2)), rule='all pairs')

from mc import rng
rng.install()
import itertools, logging, math, warnings
import numpy as np
from fractions import Fraction as F
from mc import exact as E, measure as M
from mc.explore import Violation
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
from cpnest import nest2pos as N2
from checks.c14 import table, shapes
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small runs and numbers of draws and, for each, of all regions of the random draws on which the result '
             'is constant: the exact joint distribution of the drawn samples compared with exact rational weights')
NOTE = 'Up to 5 samples, up to 3 draws jointly; larger numbers of draws one at a time and at extreme values; 1 to 3 runs; runs of 70 and 400 samples with up to 5000 evenly spread draws.'
ASSUME = ['random numbers are uniform on [0,1)', 'at least one sample of each run has a positive likelihood', 'at least two live points']


def idents(rows, tables, n=None, order=False):
    ref = {r['x'].item(): tuple(r.item()) for t in tables for r in t}
    ids = []
    for r in np.atleast_1d(np.asarray(rows)).ravel():
        t = tuple(r.item())
        if ref.get(t[0]) != t: raise Violation('%r was returned, which is no input sample' % (t,), key='altered')
        ids.append(int(t[0]))
    if n is not None and len(ids) != n: raise Violation('%d samples instead of %d' % (len(ids), n), key='count')
    return tuple(ids) if order else tuple(sorted(ids))


def sequences(probs, n):
    return {s: math.prod(probs[i] for i in s) for s in itertools.product(sorted(probs), repeat=n)}


def multinomial(probs, n):
    out = {}
    for s in itertools.product(sorted(probs), repeat=n):
        p = 1.0
        for i in s: p *= probs[i]
        k = tuple(sorted(s))
        out[k] = out.get(k, 0.0) + p
    return out


def convolve(a, b):
    out = {}
    for x, p in a.items():
        for y, q in b.items():
            k = tuple(sorted(x + y))
            out[k] = out.get(k, 0.0) + p * q
    return out


def compare(d, want, what, tol=4e-6):
    for s in sorted(set(d) | set(want)):
        if abs(d.get(s, 0.0) - want.get(s, 0.0)) > tol:
            raise Violation('%s: the samples %r are drawn with probability %.9g instead of %.9g' % (what, s, d.get(s, 0.0), want.get(s, 0.0)), key='probability')


def cumulative(ws):
    out, t = [], 0.0
    for w in ws: t += w; out.append(t)
    return out


def single(case, ch):
    ks, a, n = case
    W = [E.like(k) for k in ks]
    tot = sum(W)
    if not tot: return
    w = [float(x / tot) for x in W]
    t = table([0.0] * len(ks))
    lw = np.array(E.logs(ks, a))
    keep, keept = lw.copy(), t.copy()
    f = lambda: idents(N2.draw_N_posterior(t, lw, n), [t], n, order=True)
    never = [i for i, x in enumerate(W) if x == 0]
    if n <= 3:
        d, _ = M.distribution(f, cumulative(w) + cumulative(w[::-1]), ch.step)
        compare(d, sequences(dict(enumerate(w)), n), 'weights %r, %d draws' % (list(lw), n))
    if n:
        for u in (0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -52, M.TOP):
            for k in range(min(n, 4)):
                s, _ = M.call(f, [0.5] * k + [u], 0.5)
                ch.step()
                for i in never:
                    if i in s and W[i] == 0: raise Violation('a sample of zero weight was drawn (draw %d = %r)' % (k, u), key='never')
    if not np.array_equal(lw, keep) or not np.array_equal(t, keept): raise Violation('the input was modified', key='input')
    ch.state(case)
    ch.outcome = (len(ks), n, len(never))


def large(case, ch):
    """Many draws: each draw governs one returned sample, with the weights as measure, whatever the others are."""
    ks, n = case
    W = [E.like(k) for k in ks]
    tot = sum(W)
    w = [float(x / tot) for x in W]
    t = table([0.0] * len(ks))
    lw = np.array(E.logs(ks, -50.0))
    f = lambda: idents(N2.draw_N_posterior(t, lw, n), [t], n)
    atoms = M.pieces(cumulative(w) + cumulative(w[::-1]))
    for rest in (0.5, 2.0 ** -40, 1 - 2.0 ** -40):
        T = M.draws(f, rest)
        if T < n: raise Violation('%d samples from %d random numbers' % (n, T), key='independent')
        for k in range(T):
            base, got = None, {}
            for u, p in atoms:
                s, _ = M.call(f, [rest] * k + [u], rest)
                ch.step()
                got[s] = got.get(s, 0.0) + p
            # the n-1 others do not change
            others = None
            for s in got:
                m = list(s)
                others = _common(others, m)
            if len(others) < n - 1: raise Violation('draw %d decides on several of %d samples' % (k, n), key='independent')
            rest_of = sorted(others)[:]
            if len(got) == 1: continue
            per = {}
            for s, p in got.items():
                m = list(s)
                for x in rest_of: m.remove(x)
                for x in m: per[x] = per.get(x, 0.0) + p
            for i, x in enumerate(w):
                if abs(per.get(i, 0.0) - x) > 1e-6: raise Violation('draw %d of %d gives sample %d with probability %r instead of %r' % (k, n, i, per.get(i, 0.0), x), key='probability')
    ch.state(case)
    ch.outcome = (len(ks), n)


def long(case, ch):
    """Long runs and many draws: draws spread evenly over [0,1) give every sample its share."""
    n, k, a, draws, off = case
    lw = [x + a for x in shapes(n)[k]]
    w = np.exp(np.array(lw) - max(lw))
    w /= w.sum()
    t = table([0.0] * n)
    for order in (lambda i: i, lambda i: (i * 7919) % draws, lambda i: draws - 1 - i):
        us = [(order(i) + off) / draws for i in range(draws)]
        f = lambda: idents(N2.draw_N_posterior(t, np.array(lw), draws), [t], draws)
        s, m = M.call(f, us, 0.5)
        ch.step()
        if m < draws: raise Violation('%d draws from a run of %d made with %d random numbers' % (draws, n, m), key='few draws')
        if m > draws: return               # draws are made in another way: judged with shorter runs
        c = np.bincount(s, minlength=n)
        bad = np.abs(c - draws * w) > 2.0 + 1e-6
        if bad.any():
            i = int(np.argmax(np.abs(c - draws * w)))
            raise Violation('%d evenly spread draws from %d samples give sample %d %d times instead of %.3f' % (draws, n, i, c[i], draws * w[i]), key='share')
        if any(c[i] for i in range(n) if w[i] == 0): raise Violation('a sample of zero weight was drawn', key='never')
    ch.state(case)
    ch.outcome = (n, draws)


def _common(a, b):
    if a is None: return list(b)
    b, out = list(b), []
    for x in a:
        if x in b: b.remove(x); out.append(x)
    return out


def many(case, ch):
    runs, n = case
    Zs = [E.weights(ks, N)[0] * E.like(a) for ks, N, a in runs]
    tot = sum(Zs)
    tables = [table(E.logs(ks, a * E.LN2 - 3.0), r) for r, (ks, N, a) in enumerate(runs)]
    keep = [t.copy() for t in tables]
    shares = []
    for Z in Zs:
        x = n * Z / tot
        lo = x.numerator // x.denominator
        shares.append([lo] if x - lo < F(1, 2) - F(1, 10**9) else [lo + 1] if x - lo > F(1, 2) + F(1, 10**9) else [lo, lo + 1])
    f = lambda: idents(N2.draw_N_posterior_many(list(tables), [N for _, N, _ in runs], n), tables)
    ws, cand = [], []
    for r, (ks, N, a) in enumerate(runs):
        w = E.weights(ks, N)[1]
        s = sum(w)
        w = [float(x / s) for x in w]
        ws.append({100 * r + i: x for i, x in enumerate(w)})
        cand += cumulative(w) + cumulative(w[::-1])
    got = None
    for rest in (0.5, 0.0, M.TOP, 2.0 ** -40):
        s, _ = M.call(f, [], rest)
        ch.step()
        c = [sum(1 for i in s if i // 100 == r) for r in range(len(runs))]
        for r, x in enumerate(c):
            if x not in shares[r]: raise Violation('run %d of %r gives %d samples of %d, its share is %s' % (r, runs, x, n, shares[r]), key='share')
        if got is not None and c != got: raise Violation('the shares depend on the random draws', key='share')
        got = c
    if sum(got) <= 3:
        d, _ = M.distribution(f, cand, ch.step)
        want = {(): 1.0}
        for r, c in enumerate(got): want = convolve(want, multinomial(ws[r], c))
        compare(d, want, 'runs %r, %d draws' % (runs, n))
    if not all(np.array_equal(a, b) for a, b in zip(tables, keep)): raise Violation('the input was modified', key='input')
    ch.state(case)
    ch.outcome = tuple(got)


def main(ctx):
    q = ctx.quick
    A = (None, 0, -1, -3, 2)
    cs = [(ks, a, n) for L in range(1, 5 if q else 6) for ks in (itertools.product(A, repeat=L) if L < 4 else itertools.combinations_with_replacement(A, L)) for a in ((0.0, -1000.0, 2000.0) if L < 4 else (3.0,)) for n in range(0, (4 if L < 3 else 3))]
    cs = [c for c in cs if any(k is not None for k in c[0])]
    ctx.for_all('one run', single, cs, budget=ctx.budget(60, 900), rule='all sequences of weights, up to three draws, all regions of the draws')
    cs = [(ks, n) for ks in itertools.product((None, 0, 1, -2), repeat=3) if any(k is not None for k in ks) for n in ((4, 17) if q else (4, 7, 17, 40))]
    ctx.for_all('many draws', large, cs, budget=ctx.budget(60, 900), rule='each of many draws over all its regions, the others at three values')
    cs = [(n, k, a, d, o) for n in (70, 400) for k in range(5) for a in (0.0, -900.0, 2000.0) for d in (100, 1001, 5000) for o in (0.5, 0.01)]
    ctx.for_all('long runs', long, cs, budget=ctx.budget(40, 200), rule='runs of 70 and 400 samples, 100 to 5000 evenly spread draws in three orders')
    L = [((0, 1), 2), ((None, 0), 2), ((0, 0), 2), ((0, 1, 3), 2), ((None, 0, 1), 2), ((2, 2, 2), 3), ((3, None), 2)]
    L = [(ks, N) for ks, N in L if E.weights(ks, N)[0] > 0 and sum(E.weights(ks, N)[1]) > 0]
    rs = [(ks, N, a) for ks, N in L for a in (0, 2, -3)]
    sets = [(r,) for r in rs] + list(itertools.product(rs, repeat=2)) + list(itertools.product(rs[:4], repeat=3))
    sets += [(r, (r[0], r[1], 1500)) for r in rs] + [((r[0], r[1], 1500), r) for r in rs]
    cs = [(s, n) for s in sets for n in ((0, 1, 2, 3, 10, 101) if len(s) < 3 or not q else (0, 1, 2, 11))]
    if q: cs = [c for c in cs if c[1] != 3 or len(c[0][0][0]) == 2]
    ctx.for_all('several runs', many, cs, budget=ctx.budget(90, 1500), rule='all combinations of up to three small runs, shares for all numbers of draws, all regions of the draws for up to three samples')

from mc import simrun as R
import itertools, logging, math, warnings
import numpy as np
from fractions import Fraction as F
from mc import exact as E, measure as M
from mc.explore import Violation
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
from cpnest import nest2pos as N2
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small runs and, for each, of all regions of the random draws on which the result is constant: the '
             'exact joint distribution of the drawn subsets compared with exact rational weights')
NOTE = 'Up to 5 samples in one run, 2 to 3 runs of 1 to 4 samples; runs of 70 to 1500 samples at 13 levels of the draws; single draws of complete runs of the real sampler by bisection.'
ASSUME = ['at least two live points (one more than sampler processes)', 'random numbers are uniform on [0,1)', 'at least one sample of each run has a positive likelihood']
INF = float('inf')


def table(logs, tag=0):
    d = np.zeros(len(logs), dtype=[('x', float), ('y', float), ('logL', float), ('logPrior', float)])
    d['x'] = [100 * tag + i for i in range(len(logs))]
    d['y'] = [-(100 * tag + i) * 1.25 for i in range(len(logs))]
    d['logL'] = logs
    d['logPrior'] = 0.5
    return d


def ident(rows, tables, what):
    """Which samples were drawn; they are unaltered."""
    ref = {r['x'].item(): tuple(r.item()) for t in tables for r in t}
    ids = []
    for r in np.atleast_1d(np.asarray(rows)).ravel():
        t = tuple(r.item())
        if ref.get(t[0]) != t: raise Violation('%s contains %r, which is no input sample' % (what, t), key='altered')
        ids.append(int(t[0]))
    if len(set(ids)) != len(ids): raise Violation('%s contains a sample twice: %r' % (what, ids), key='repeated')
    return tuple(sorted(ids))


def compare(dist, probs, what, tol=2e-6):
    """dist against independent Bernoulli draws."""
    ids = sorted(probs)
    total = 0.0
    for k in range(len(ids) + 1):
        for s in itertools.combinations(ids, k):
            p = 1.0
            for i in ids: p *= probs[i] if i in s else 1 - probs[i]
            total += abs(dist.pop(s, 0.0) - p)
            if total > tol: raise Violation('%s: the set %r is drawn with a wrong probability (expected %.9g); inclusion probabilities should be %r' % (what, s, p, probs), key='probability')
    if dist: raise Violation('%s: unexpected results %r' % (what, dist), key='probability')


def rel(ks, N):
    Z, W = E.weights(ks, N)
    m = max(W)
    return Z, [w / m for w in W]


def single(case, ch):
    """draw_posterior with given weights (any normalisation)."""
    ks, a = case
    if all(k is None for k in ks): return
    W = [E.like(k) for k in ks]
    m = max(W)
    t = table([0.0] * len(ks))
    lw = np.array(E.logs(ks, a))
    keep, keept = lw.copy(), t.copy()
    probs = {i: float(w / m) for i, w in enumerate(W)}
    d, n = M.distribution(lambda: ident(N2.draw_posterior(t, lw), [t], 'the posterior'), sorted(set(probs.values())), ch.step)
    if not np.array_equal(lw, keep) or not np.array_equal(t, keept): raise Violation('the input was modified', key='input')
    compare(d, probs, 'weights %r' % (list(lw),))
    edges(lambda: ident(N2.draw_posterior(t, lw), [t], 'the posterior'), probs, [i for i, w in enumerate(W) if w == m], [i for i, w in enumerate(W) if w == 0], ch)
    ch.state(case)
    ch.outcome = (len(ks), sum(w == m for w in W), sum(w == 0 for w in W))


def edges(f, probs, sure, never, ch):
    """Extreme draws: zero and the largest number below one."""
    for u in (0.0, 2.0 ** -53, 1 - 1e-9, M.TOP):
        s, _ = M.call(f, [], u)
        ch.step()
        if not s: raise Violation('nothing was drawn (all draws %r)' % u, key='sure')
        for i in sure:
            if u == M.TOP: continue        # weights may differ by rounding
            if i not in s: raise Violation('a sample of the largest weight was not drawn (all draws %r)' % u, key='sure')
        for i in never:
            if i in s: raise Violation('a sample of zero weight was drawn (all draws %r)' % u, key='never')


def many(case, ch):
    """draw_posterior_many on several runs."""
    runs = case                                     # ((ks, N, exponent), ...)
    info = []
    for r, (ks, N, a) in enumerate(runs):
        Z, w = rel(ks, N)
        info.append((Z * E.like(a), w, len(ks)))
    fr = [Z / n for Z, _, n in info]
    fr = [f / max(fr) for f in fr]
    tables = [table(E.logs(ks, a * E.LN2 + 5.0), r) for r, (ks, N, a) in enumerate(runs)]
    keep = [t.copy() for t in tables]
    probs, sure, never, cand = {}, [], [], set()
    for r, (_, w, n) in enumerate(info):
        for i, x in enumerate(w):
            p = float(x * fr[r])
            probs[100 * r + i] = p
            cand |= {float(x), float(fr[r]), p}
            if x * fr[r] == 1: sure.append(100 * r + i)
            if x == 0: never.append(100 * r + i)
    f = lambda: ident(N2.draw_posterior_many(list(tables), [N for _, N, _ in runs]), tables, 'the posterior')
    d, n = M.distribution(f, sorted(cand), ch.step)
    compare(d, probs, 'runs %r' % (runs,))
    edges(f, probs, sure, never, ch)
    if not all(np.array_equal(a, b) for a, b in zip(tables, keep)): raise Violation('the input was modified', key='input')
    ch.state(case)
    ch.outcome = (len(runs), len(sure), len(never))


def flweights(logL, N):
    """Log weights of a chain, by the same rule as exact.weights, in extended precision."""
    n = len(logL)
    lv = [0.0]
    for i in range(n - N + 2): lv.append(lv[-1] + math.log1p(-1.0 / N))
    for i in range(N - 1): lv.append(lv[-1] + (math.log1p(-1.0 / (N - i)) if N - i > 1 else -INF))
    out = []
    for i in range(n):
        d = lv[i + 1] - lv[i]
        out.append(logL[i] + lv[i] + (math.log1p(-math.exp(d)) if d < 0 else -INF))
    m = max(out)
    return [x - m for x in out]


def chain(case, ch):
    """Posterior of a complete run of the real sampler: each draw decides on one sample, with its weight as threshold."""

    nlive, n, names, kind, tol, prior = case
    model = R.Model(kind, names=list(names), dim=len(names))
    out = R.fresh()
    def before(sim, c): c.NS.tolerance = tol
    sim, p, c = R.run(R.Default(ch), model, out, before=before, sched=False, simseed=5, nthreads=n, nlive=nlive, verbose=0, maxmcmc=6, poolsize=8, prior_sampling=prior)
    R.check_ends(sim, p)
    ns = c.get_nested_samples(filename=None)
    rows = [tuple(r.item()) for r in np.atleast_1d(ns).ravel()]
    pos = {r: i for i, r in enumerate(rows)}
    if len(pos) != len(rows): raise Violation('nested samples are repeated', key='chain')
    want = flweights([float(x) for x in ns['logL']], nlive)
    def f():
        got = [tuple(r.item()) for r in np.atleast_1d(c.get_posterior_samples(filename=None)).ravel()]
        for r in got:
            if r not in pos: raise Violation('the posterior contains %r, which is no nested sample' % (r,), key='altered')
        if len(set(got)) != len(got): raise Violation('the posterior repeats a sample', key='repeated')
        return frozenset(pos[r] for r in got)
    T = max(M.draws(f, u) for u in (0.5, M.TOP, 2.0 ** -40))
    for rest in (2.0 ** -30, 0.5, M.TOP):
        base = f_at(f, [], rest)
        cover = {}
        for k in range(T):
            a, b = f_at(f, [rest] * k + [0.0], rest), f_at(f, [rest] * k + [M.TOP], rest)
            ch.step(2)
            if a == b: continue
            x = a ^ b
            if len(x) != 1: raise Violation('one random draw decides on %d samples' % len(x), key='independent')
            i, = x
            if i in cover: raise Violation('two draws decide on sample %d' % i, key='independent')
            t = M.bisect(f, k, [rest] * max(T + 1, k + 1), lambda o: i in o, 0.0, M.TOP, 45)
            cover[i] = t if i in a else 1 - t
        for i, w in enumerate(want):
            p = math.exp(w)
            if i in cover:
                if abs(cover[i] - p) > 1e-9: raise Violation('nested sample %d of %d enters the posterior with probability %r instead of %r' % (i, len(rows), cover[i], p), key='probability')
            elif (i in base) != (p > 0.5) or 1e-12 < p < 1 - 1e-12:
                raise Violation('nested sample %d of %d is always %s, its probability should be %r' % (i, len(rows), 'drawn' if i in base else 'left out', p), key='probability')
    ch.state(case)
    ch.outcome = (nlive, len(rows) > 2 * nlive)


def shapes(n):
    """Long ascending likelihoods."""
    return [[i * 0.02 for i in range(n)], [0.0] * n, [-INF] * (n // 3) + [i * 0.1 for i in range(n - n // 3)], [-((n - i) / 40.0) ** 2 for i in range(n)], [min(i, n // 2) * 0.05 for i in range(n)]]


LEVELS = (2.0 ** -40, 1e-6, 0.003, 0.04, 0.1, 0.217, 0.35, 0.5, 0.61, 0.77, 0.9, 0.97, 0.999)


def long(case, ch):
    """Long runs, one and several: all draws at the same level, so that exactly the samples above it are drawn."""
    runs = case                       # ((n, N, shape, offset), ...)
    tables = [table([x + off for x in shapes(n)[k]]) for n, N, k, off in runs]
    for r, t in enumerate(tables): t['x'] += 10000 * r; t['y'] -= 10000.0 * r
    lw = [flweights([float(x) for x in t['logL']], N) for t, (n, N, k, off) in zip(tables, runs)]
    logz = [N2.compute_weights(t['logL'], N)[0] for t, (n, N, k, off) in zip(tables, runs)]
    fr = [z - math.log(len(t)) for z, t in zip(logz, tables)]
    fr = [f - max(fr) for f in fr]
    for u in LEVELS:
        l = math.log(u)
        s = set(M.call(lambda: ident(N2.draw_posterior_many(list(tables), [N for _, N, _, _ in runs]), tables, 'the posterior'), [], u)[0])
        ch.step()
        for r, t in enumerate(tables):
            sure = {10000 * r + i for i, w in enumerate(lw[r]) if w + min(fr[r], 0.0) > l + 1e-7}                  # whichever way the two thresholds are applied
            may = {10000 * r + i for i, w in enumerate(lw[r]) if w > l - 1e-7 and fr[r] > l - 1e-7}
            both = {10000 * r + i for i, w in enumerate(lw[r]) if w > l + 1e-7 and fr[r] > l + 1e-7}
            got = {i for i in s if i // 10000 == r}
            if not sure <= got or not got <= may or (len(runs) == 1 and not both <= got):
                raise Violation('runs %r, all draws %r: of run %d the samples %r are missing and %r should not be there' % (runs, u, r, sorted(sure - got)[:5], sorted(got - may)[:5]), key='probability')
            if not both <= got and fr[r] > l + 1e-7 and got - {i for i in got if lw[r][i - 10000 * r] + fr[r] > l - 1e-7}:
                raise Violation('runs %r, all draws %r: a part of the samples of run %d' % (runs, u, r), key='probability')
    ch.state(case)
    ch.outcome = len(runs)


def f_at(f, us, rest): return M.call(f, us, rest)[0]


def main(ctx):
    q = ctx.quick
    A = (None, 0, -1, -3, 2)
    cs = [(ks, a) for n in range(1, 5 if q else 6) for ks in (itertools.product(A, repeat=n) if n < 5 else itertools.combinations_with_replacement(A, n)) for a in ((0.0, -1000.0) if n < 4 else (3.0,))]
    ctx.for_all('one run', single, cs, budget=ctx.budget(60, 900), rule='all sequences of weights, all regions of the draws')
    L = [((0, 1), 2), ((None, 0), 2), ((0, 0), 2), ((0, 1, 3), 2), ((None, 0, 1), 2), ((2, 2, 2), 3)]
    if not q: L += [((0, 1, 3, 3), 2), ((None, None, 0, 4), 3)]
    # a run must keep a positive evidence
    L = [(ks, N) for ks, N in L if E.weights(ks, N)[0] > 0 and max(E.weights(ks, N)[1]) > 0]
    rs = [(ks, N, a) for ks, N in L for a in (0, 2)]
    cs = [(r,) for r in rs] + list(itertools.product(rs, repeat=2))
    small = [r for r in rs if len(r[0]) <= 2][:5 if q else 8]
    cs += list(itertools.product(small[:2] if q else small[:3], repeat=3))
    cs += [(r, (r[0], r[1], 1500)) for r in rs] + [((r[0], r[1], 1500), r) for r in rs]
    cs = [c for c in cs if sum(len(r[0]) for r in c) <= (6 if q else 7)]
    ctx.for_all('several runs', many, cs, budget=ctx.budget(90, 1500), rule='all combinations of up to three small runs, all regions of the draws')
    one = [(n, N, k, off) for n, N in ((70, 10), (400, 25), (400, 150)) + (() if q else ((1500, 100),)) for k in range(5) for off in (0.0, -900.0)]
    cs = [(r,) for r in one] + [(a, b) for i, a in enumerate(one) for b in (one[(i + 7) % len(one)], (a[0], a[1], a[2], a[3] + 1.5))]
    ctx.for_all('long runs', long, cs, budget=ctx.budget(40, 300), rule='runs of 70 to 400 (1500) samples, alone and in pairs, all draws at one of 13 levels')
    cs = [(nl, n, names, kind, tol, pr) for nl, n in ((3, 1), (4, 2), (6, 4), (2, 1)) for names in (('a',), ('a', 'b')) for kind in ('quad', 'ramp') for tol in (0.5, 2.0) for pr in (False, True)]
    if q: cs = cs[::2]
    ctx.explore_cases('complete runs', chain, cs, budget=ctx.budget(90, 900), rule='each draw of the posterior of each run by bisection, others at three values')

from mc import rng
rng.install()
import itertools, logging, math, warnings
import numpy as np
from fractions import Fraction as F
from mc import measure as M
from mc.explore import Violation
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
from cpnest import nest2pos as N2
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of short chains over small alphabets, of all shuffles and of all regions of the acceptance draws on '
             'which the result is constant, against exact rational autocorrelations')
NOTE = 'Chains of up to 8 values over alphabets of 2 to 4 numbers; joint distributions for up to 4 thinned samples; eleven shapes of chains of 90 to 3000 values in up to 6 dimensions.'
ASSUME = ['finite parameters, log-likelihoods and log-priors', 'a chain has at least one sample']
TOL = F(1, 100)


def reference(x):
    """(autocorrelation function, length) of a list of Fractions; None for a constant chain."""
    n = len(x)
    m = sum(x, F(0)) / n
    d = [a - m for a in x]
    v = sum(a * a for a in d)
    if v == 0: return None, None
    f = [sum(d[j] * d[(j + i) % n] for j in range(n)) / v for i in range(n)]
    T = F(1)
    for a in f:
        if a <= TOL: break
        T += 2 * a
    return f, T


def lengths(case, ch):
    x = [F(v) for v in case]
    f, T = reference(x)
    for s, t in ((1.0, 0.0), (2.0 ** -40, 0.0), (-3.0, 0.0), (1e-100, 0.0), (1e90, 0.0), (1.0, 1000.0), (-7.5, -123.25), (1e-20, 2e-20)):
        a = np.array([float(v) * s + t for v in x])
        keep = a.copy()
        got = N2.acl(a)
        ch.step()
        if not np.array_equal(a, keep): raise Violation('the chain was modified', key='input')
        if f is None:
            if not (got >= 1 and math.isfinite(got)): raise Violation('autocorrelation length of a constant chain is %r' % got, key='constant')
            continue
        if not got >= 1: raise Violation('autocorrelation length %r' % got, key='one')
        if min(abs(v - TOL) for v in f) > 1e-6 and abs(got - float(T)) > 1e-6:
            raise Violation('autocorrelation length of %r is %r instead of %r' % (list(a), got, float(T)), key='acl')
        c = N2.autocorrelation(a)
        if len(c) != len(f) or max(abs(u - float(v)) for u, v in zip(c, f)) > 1e-6: raise Violation('autocorrelation of %r is %r instead of %r' % (list(a), list(c), [float(v) for v in f]), key='acf')
    ch.state(case)
    ch.outcome = (len(x), None if T is None else round(float(T), 6))


def chain(cols, post):
    names = ['p%d' % i for i in range(len(cols))]
    n = len(post)
    d = np.zeros(n, dtype=[(k, float) for k in names + ['logL', 'logPrior']])
    for k, c in zip(names, cols): d[k] = [float(v) for v in c]
    for i, p in enumerate(post):
        d['logL'][i] = p[0]
        d['logPrior'][i] = p[1]
    return d


def resample(case, ch):
    cols, post, burnin = case
    c = chain(cols, post)
    keep = c.copy()
    n = len(post)
    rows = [tuple(r.item()) for r in c]
    first = n // 2 if burnin else 0
    Ts = [reference([F(v) for v in col[first:]])[1] for col in cols]
    T = max([float(t) for t in Ts if t is not None] or [1.0])
    # the thinning is the rounded length; near one half both ways are right
    steps = {int(np.floor(T + 0.5 - 1e-6)), int(np.ceil(T - 0.5 + 1e-6)) if abs(T % 1 - 0.5) < 1e-6 else int(np.floor(T + 0.5 + 1e-6))}
    def f():
        x = c.copy()
        out = N2.resample_mcmc_chain(x, burnin=burnin)
        if not np.array_equal(x, keep): raise Violation('the chain of the caller was modified', key='input')
        return tuple(tuple(r.item()) for r in np.atleast_1d(out).ravel())
    wants = []
    for s in steps:
        idx = list(range(first, n, s))
        lp = {i: post[i][0] + post[i][1] for i in idx}
        wants.append((idx, lp))
    m = len(wants[0][0])
    if m > 4:
        # too many shuffles: every draw at three values, the selection is sound
        for r in M.RESTS:
            o, T_ = M.call(f, [], r)
            ch.step()
            for k in range(min(T_, 40)):
                for u in (0.0, M.TOP): sound(M.call(f, [r] * k + [u], r)[0], rows, wants); ch.step()
            sound(o, rows, wants)
        ch.state(case); ch.outcome = ('large', min(m, 20)); return
    cuts = {j / k for k in range(2, m + 1) for j in range(1, k)}
    for idx, lp in wants:
        for a in idx:
            for b in idx:
                cuts.add(math.exp(min(0.0, lp[a] - lp[b])))
    d, _ = M.distribution(f, sorted(cuts), ch.step)
    for o in d: sound(o, rows, wants)
    best = None
    for idx, lp in wants:
        want = {}
        perms = list(itertools.permutations(idx))
        for p in perms:
            for bits in itertools.product((0, 1), repeat=len(p) - 1):
                w = 1.0 / len(perms)
                for i, b in enumerate(bits):
                    a = math.exp(min(0.0, lp[p[i + 1]] - lp[p[i]]))
                    w *= a if b else 1 - a
                s = tuple(rows[j] for j, b in zip(p, (1,) + bits) if b)
                want[s] = want.get(s, 0.0) + w
        worst = max(((abs(d.get(s, 0.0) - want.get(s, 0.0)), s) for s in set(d) | set(want)), key=lambda t: t[0])
        if best is None or worst[0] < best[0]: best = worst + (want.get(worst[1], 0.0),)
    if best[0] > 1e-6: raise Violation('chain %r: the selection %r has probability %r instead of %r' % (rows, best[1], d.get(best[1], 0.0), best[2]), key='probability')
    ch.state(case)
    ch.outcome = (n, m, burnin)


def sound(o, rows, wants):
    if not o: raise Violation('nothing was selected', key='empty')
    if len(set(o)) != len(o): raise Violation('a sample was selected twice', key='repeated')
    for r in o:
        if r not in rows: raise Violation('%r is not a sample of the chain' % (r,), key='altered')
    if not any(all(rows.index(r) in idx for r in o) for idx, _ in wants):
        raise Violation('the selection %r of %r is not thinned by the autocorrelation length or contains burn-in' % (o, rows), key='thinning')


def floatref(x):
    """As reference, for long chains, in floating point."""
    x = np.asarray(x, dtype=np.longdouble)
    d = x - x.mean()
    v = (d * d).sum()
    if v == 0: return None, None
    f = np.array([float((d * np.roll(d, -i)).sum() / v) for i in range(len(x))])
    below = np.nonzero(f <= 0.01)[0]
    k = below[0] if len(below) else len(f)
    return f[:k + 1], 1.0 + 2.0 * f[:k].sum()


def waves(n):
    out = []
    for a in (7, 60, n // 3, n // 2):
        if 1 < a <= n: out += [[float((i // a) % 2) for i in range(n)], [math.cos(2 * math.pi * i / (2.0 * a)) for i in range(n)], [float(min(i % (2 * a), 2 * a - i % (2 * a))) + 0.25 * ((i * 7) % 5) for i in range(n)]]
    return out


def long(case, ch):
    """Long chains with long correlations, several parameters of which one is slow."""
    n, k, dim, which, burnin = case
    x = waves(n)[k]
    f, T = floatref(x)
    got = N2.acl(np.array(x))
    ch.step()
    if np.min(np.abs(f - 0.01)) > 1e-9 and abs(got - T) > 1e-6 * T: raise Violation('autocorrelation length of a chain of %d is %r instead of %r' % (n, got, T), key='acl')
    cols = [[float((i * (3 + j)) % 13) for i in range(n)] for j in range(dim)]
    cols[which] = x
    post = [(0.001 * i, -0.0005 * ((i * 7) % n)) for i in range(n)]
    c = chain(cols, post)
    rows = [tuple(r.item()) for r in c]
    where = {r: i for i, r in enumerate(rows)}
    first = n // 2 if burnin else 0
    refs = [floatref(col[first:]) for col in cols]
    if any(g is not None and np.min(np.abs(g - 0.01)) < 1e-9 for g, _ in refs): return
    if any(t is None for _, t in refs): return         # the length of a constant chain is not prescribed
    T = max(t for _, t in refs)
    if abs(T % 1 - 0.5) < 1e-5: return
    idx = set(range(first, n, int(round(T))))
    for u in (0.5, 2.0 ** -40, M.TOP, 0.123):
        o, _ = M.call(lambda: [tuple(r.item()) for r in np.atleast_1d(N2.resample_mcmc_chain(c.copy(), burnin=burnin)).ravel()], [], u)
        ch.step()
        at = [where.get(r) for r in o]
        if not o or None in at or len(set(at)) != len(at): raise Violation('the selection of a chain of %d is empty, repeats a sample or contains a foreign one' % n, key='altered')
        if not set(at) <= idx: raise Violation('the selection of a chain of %d with autocorrelation length %r is not thinned by it: %r' % (n, T, sorted(at)[:8]), key='thinning')
        # a draw of almost zero keeps all thinned samples
        if u == 2.0 ** -40 and set(at) != idx: raise Violation('of the thinned samples %r only %r are kept although all draws are zero' % (sorted(idx)[:8], sorted(at)[:8]), key='probability')
    ch.state(case)
    ch.outcome = (n, dim, burnin)


def main(ctx):
    q = ctx.quick
    cs = [x for n in range(1, 6 if q else 8) for x in itertools.product((0, 1, 3) if n > 4 else (0, 1, 3, -2), repeat=n)]
    cs += list(itertools.product((0, 1), repeat=8 if q else 11))
    cs += [tuple((a * i * i + b * i) % m for i in range(n)) for n in (16, 33) for a in range(3) for b in range(1, 4) for m in (5, 8, 13)]
    cs += [tuple([F(1, 10)] * n) for n in range(1, 8)]
    cs = [tuple(F(v) for v in x) for x in cs]
    ctx.for_all('autocorrelation', lengths, cs, budget=ctx.budget(60, 900), rule='all short chains, eight rescalings each')
    # distinct samples: every sample has its own log-likelihood; ratios 1/2, 2, 1/8 ...
    ln2 = math.log(2)
    P = [(0.0, 0.0), (ln2, 0.0), (-ln2, 2 * ln2), (3 * ln2, -ln2), (-3 * ln2, ln2), (2 * ln2, -4 * ln2), (-2 * ln2, 0.0), (4 * ln2, 0.0), (-4 * ln2, 0.5)]
    cs = []
    for n in range(1, 5):
        for post in itertools.permutations(P[:4 if q else 5], n):
            cs.append((((F(1),) * n,), post, False))
            if n <= 2 or not q: cs.append((((F(1),) * n, (F(2),) * n), post, True))
    for n in range(2, 8 if q else 9):
        for x in itertools.product((0, 1), repeat=n):
            for b in (False, True):
                cs.append(((tuple(F(v) for v in x),), tuple(P[:n]), b))
    for n in ((5, 6) if q else (5, 6, 7, 8)):
        for x in itertools.combinations_with_replacement((0, 1, 3), n):
            y = tuple(F(v) for v in x[::2] + x[1::2])
            cs.append(((tuple(F(v) for v in x), y), tuple(P[:n]), False))
            cs.append(((y, tuple(F(v) for v in x)), tuple(P[:n]), True))
    for n in (12, 25):
        for a in (1, 2, 3, 5): cs.append(((tuple(F((i // a) % 4) for i in range(n)),), tuple((0.1 * i, -0.05 * ((i * 7) % n)) for i in range(n)), a % 2 == 0))
    ctx.for_all('selection', resample, cs, budget=ctx.budget(90, 1500), rule='all short chains, all shuffles, all regions of the acceptance draws')
    cs = [(n, k, d, w, b) for n in ((90, 700) if q else (90, 700, 2000)) for k in range(len(waves(n))) for d, w in ((1, 0), (2, 0), (6, 0), (6, 3), (6, 5)) for b in (False, True)]
    if q: cs += [(3000, k, d, 0, False) for k in (6, 9, 10) for d in (1,)]
    ctx.for_all('long chains', long, cs, budget=ctx.budget(40, 300), rule='chains of 90 to 3000 samples, up to 6 parameters, one with a long period')

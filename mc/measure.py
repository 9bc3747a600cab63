"""Exact distribution of a function of random draws.

Every draw (uniform; indices and exponentials are derived from uniforms) is split at a finite set of candidate thresholds.  The two ends
of every piece stand for half of it each, and the tree of all combinations is enumerated.  Neighbouring pieces which make no difference
to the outcome under several continuations are joined, so that the tree stays small.  The result is the exact distribution (up to delta)
of a function whose true thresholds are among the candidates, and a wrong one otherwise -- which is what is to be found out.
"""
import math
from . import rng

DELTA = 1e-8
TOP = 1 - 2.0 ** -53


class Script(rng.Source):
    """Uniforms from a list, then from a constant."""

    def __init__(self, us, rest=0.5):
        self.us, self.rest, self.n = us, rest, 0

    def u01(self):
        i, self.n = self.n, self.n + 1
        if self.n > 100000: raise RuntimeError('more than 100000 random draws')
        return self.us[i] if i < len(self.us) else self.rest

    def gauss(self):
        from statistics import NormalDist
        return NormalDist().inv_cdf(min(max(self.u01(), 1e-300), TOP))

    def expo(self): return -math.log(max(self.u01(), 5e-324))

    def index(self, n): return min(int(self.u01() * n), n - 1)


def call(f, us, rest=0.5):
    s = Script(us, rest)
    with rng.using(s): return f(), s.n


def pieces(thresholds):
    """[(atom, weight)]: both ends of every piece of [0,1) cut at the thresholds and their complements."""
    cut = {0.0, 1.0}
    for t in thresholds:
        if DELTA < t < 1 - DELTA: cut |= {t, 1 - t}
    cs = sorted(cut)
    ks = [cs[0]]
    for c in cs[1:]:
        if c - ks[-1] > 4 * DELTA: ks.append(c)
    ks[-1] = 1.0
    out = []
    for a, b in zip(ks, ks[1:]):
        lo = a + DELTA if a > 0 else DELTA
        hi = b - DELTA
        out += [(lo, (b - a) / 2), (hi, (b - a) / 2)]
    return out


RESTS = (0.5, 2.0 ** -40, 1 - 2.0 ** -40)


def distribution(f, thresholds, step=lambda: None, limit=2_000_000):
    """{outcome: probability} of f() and the number of calls."""
    atoms = pieces(thresholds)
    out, calls = {}, [0]

    def go(prefix, weight):
        k = len(prefix)
        seen = []
        end = None
        for u, w in atoms:
            sig = []
            for r in RESTS:
                o, n = call(f, prefix + [u], r)
                calls[0] += 1
                step()
                if n <= k: end = o
                sig.append((o, n))
            if end is not None: break
            if seen and seen[-1][0] == sig: seen[-1][2] += w
            else: seen.append([sig, u, w])
        if calls[0] > limit: raise RuntimeError('too many draws')
        if end is not None:
            out[end] = out.get(end, 0.0) + weight
            return
        # join equal pieces that are not neighbours too
        uniq = []
        for sig, u, w in seen:
            for x in uniq:
                if x[0] == sig: x[2] += w; break
            else: uniq.append([sig, u, w])
        for _, u, w in uniq: go(prefix + [u], weight * w)
    go([], 1.0)
    return out, calls[0]


def draws(f, rest=0.5): return call(f, [], rest)[1]


def bisect(f, k, base, test, lo=0.0, hi=1.0, iters=60):
    """Threshold of draw k: test(outcome) differs between lo and hi."""
    def at(u): return test(call(f, base[:k] + [u] + base[k + 1:], base[-1] if base else 0.5)[0])
    a = at(lo)
    for _ in range(iters):
        m = (lo + hi) / 2
        if at(m) == a: lo = m
        else: hi = m
    return (lo + hi) / 2

"""Exact references for the integration and weighting helpers.

A log-likelihood is a + k*ln2 with a common real shift a and an integer (or minus infinite) k, so that likelihoods divided by
exp(a) are exact rationals 2^k.
"""
from fractions import Fraction as F
import math
LN2 = math.log(2.0)
INF = float('inf')


def logF(x):
    """log of a non-negative Fraction of any size."""
    if x == 0: return -INF
    return _logint(x.numerator) - _logint(x.denominator)


def _logint(n):
    b = n.bit_length()
    if b <= 1000: return math.log(n)
    s = b - 900
    return math.log(n >> s) + s * LN2


def like(k): return F(0) if k is None else F(2) ** k


def logs(ks, a): return [-INF if k is None else a + k * LN2 for k in ks]


def volumes(n, N):
    """Volumes which compute_weights assigns to n samples of a run with N live points: constant shrinkage by 1-1/N up to the first of the
    last N samples, one more, and then with falling numbers N, N-1, ..., 2 of live points."""
    m = n - N
    v = [F(1)]
    for _ in range(m + 2): v.append(v[-1] * (1 - F(1, N)))
    for i in range(N - 1): v.append(v[-1] * (1 - F(1, N - i)))
    if N == 1: v[-1] = F(0) if len(v) == n + 2 else v[-1]
    return v[:n + 2]


def trap(ls, vs): return sum((ls[i] + ls[i + 1]) / 2 * (vs[i] - vs[i + 1]) for i in range(len(ls) - 1))


def weights(ks, N):
    """(evidence, normalised weights) in units of exp(a)."""
    n = len(ks)
    L = [F(0)] + [like(k) for k in ks]
    L.append(L[-1])
    v = volumes(n, N)
    Z = trap(L, v)
    return Z, [like(k) * (v[i] - v[i + 1]) / Z if Z else None for i, k in enumerate(ks)]


def close(x, ref, tol=1e-9):
    """x agrees with the log ref."""
    if ref == -INF or x == -INF: return x == ref
    return abs(x - ref) <= tol * max(1.0, abs(ref))

from mc import rng
rng.install()
import numpy as np, os
import scipy.stats
_ks = scipy.stats.kstest
SEEN = []
def _spy(rvs, *a, **k):
    SEEN.append([float(x) for x in rvs])
    return _ks(rvs, *a, **k)
scipy.stats.kstest = _spy
from mc.explore import Violation
from mc import nscheck, nsenv
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of answer sequences of complete runs of the real main loop, recomputed ranks as oracle'
NOTE = 'Every answer sequence (ties, rejections, new maxima) over a relative alphabet up to the stated depth.'
ASSUME = ['nlive 2-6, 1-4 workers; up to 450 live points and 12 workers only with repeated words of answers']


def run(case, ch):
    N, n, tol, pop, fd, menu = case
    SEEN.clear()
    env = nscheck.session(ch, N, n, tol, pop=pop, rejects=2, freedepth=fd, menu=menu)
    judge(env, N, n, tol, ch)


def long(case, ch):
    N, n, tol, word, K = case
    SEEN.clear()
    judge(nscheck.scripted(ch, N, n, tol, word, K), N, n, tol, ch)


def judge(env, N, n, tol, ch):
    ref = nscheck.replay(env, tol)
    got = [float(x) for x in env.ns.insertion_indices]
    if len(got) != len(ref.idx):
        raise Violation('%d insertion indices for %d accepted points' % (len(got), len(ref.idx)), key='count')
    for k, (a, b) in enumerate(zip(got, ref.idx)):
        if not (abs(a - b) < 1e-12 and 0.0 <= a <= 1.0):
            raise Violation('insertion index %d is %r, normalised rank is %r (nlive %d, workers %d)' % (k, a, b, N, n), key='rank')
    # rolling test: last nlive entries at the time
    want = [ref.idx[max(0, k - N):k] for k in range(n, len(ref.idx) + 1, n) if k % N < n]
    if SEEN:
        if len(SEEN) != len(want): raise Violation('%d rolling tests, expected %d' % (len(SEEN), len(want)), key='rolling-count')
        for a, b in zip(SEEN, want):
            if len(a) != len(b) or max(abs(x - y) for x, y in zip(a, b)) > 1e-12:
                raise Violation('rolling test used %r, the last nlive indices are %r' % (a, b), key='rolling')
    elif want and len(env.ns.rolling_p) != len(want):
        raise Violation('%d rolling tests, expected %d' % (len(env.ns.rolling_p), len(want)), key='rolling-count')
    # whole-run test and file
    SEEN.clear()
    env.ns.check_insertion_indices(rolling=False, filename='ii.dat')
    f = os.path.join(env.outdir, 'ii.dat')
    w = np.atleast_1d(np.loadtxt(f)); os.remove(f)
    if len(w) != len(ref.idx) or np.max(np.abs(w - np.array(ref.idx))) > 1e-12:
        raise Violation('written insertion indices differ from the complete list', key='file')
    if SEEN and (len(SEEN) != 1 or len(SEEN[0]) != len(ref.idx) or SEEN[0] != got):
        raise Violation('final test did not use the complete list', key='final')
    # a rolling check leaves the list alone and may write the complete list too
    before = list(env.ns.insertion_indices)
    env.ns.check_insertion_indices(rolling=True, filename='ii.dat')
    w = np.atleast_1d(np.loadtxt(f)); os.remove(f)
    if len(w) != len(before) or list(env.ns.insertion_indices) != before: raise Violation('list changed by a test', key='file')
    ch.outcome = tuple(round(x, 6) for x in got)


def main(ctx):
    cases = []
    for N, n in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (6, 4)):
        cases.append((N, n, 1.3, (0.0, 1.0), 3 if N < 5 else 2, ('eps', 'tie', 'top', 'mid')))
    ctx.explore_cases('ranks', run, cases, bound=ctx.pick(0, 2), budget=ctx.budget(60, 600),
                      rule='all populations over two likelihoods, first 2-3 replacements free (just above threshold, tie '
                           'with best, tie with lowest remaining, new best), then just above the threshold to the end')
    ctx.explore_cases('rejections', run, [(3, 2, 1.3, (0.0, 1.0), 2, ('eps', 'top')), (4, 3, 1.3, (0.0,), 2, ('eps', 'top'))],
                      bound=ctx.pick(1, 2), budget=ctx.budget(40, 400), rule='with rejected answers below, equal or NaN')
    ctx.explore_cases('deep', run, [(4, 2, 0.8, (0.0,), 5, ('eps', 'tie', 'top', 'mid')), (3, 1, 0.8, (0.0,), 5, ('eps', 'tie', 'top', 'mid'))],
                      bound=0, budget=ctx.budget(40, 400), rule='first 5 replacements free')
    ctx.for_all('large', long, nscheck.long_cases(ctx), budget=ctx.budget(60, 600), rule='40 to 450 live points, 1 to 12 workers, all repeated words of up to two answers')

"""Shared by C01-C04: play every answer sequence against the real main loop and judge the trace."""
import os, math, shutil
from mc import rng, nsenv
from mc.explore import Violation, Prune
from mc.nsenv import INF, ident, lae
import numpy as np

NAN = float('nan')


def close(a, b, tol=1e-9):
    if a == b: return True
    if math.isnan(a) and math.isnan(b): return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def workdir():
    d = os.path.join(os.environ['MC_TMP'], 'w%d' % os.getpid())
    if os.path.isdir(d):
        for f in os.listdir(d): os.remove(os.path.join(d, f))
    else:
        os.makedirs(d)
    return d + os.sep


def session(ch, N, n, tol, pop, bad_pop=(), rejects=1, freedepth=99, prior_sampling=False, scale=1.0, seed=0,
            verbose=0, menu=('eps', 'tie', 'top'), probe=None, lead=0.0):
    """One execution.  pop: alphabet of initial likelihoods; bad_pop: invalid initial answers (deviations);
    rejects: most rejections in one slot (deviations).  Returns (env, info)."""
    d = workdir()
    state = dict(populated=0, acc=0, rej=0)
    live = []          # harness's view of the live set, used only to choose answers relative to it

    def answers(env, i, req):
        thr = env.manager.logLmin.value
        if probe and state['populated'] >= N: probe(env)
        if state['populated'] < N:
            if bad_pop:
                k = ch.choose(1 + len(bad_pop), 'pop-bad', dev=True)
                if k: return bad_pop[k - 1]
            L = pop[ch.choose(len(pop), 'pop')] * scale
            state['populated'] += 1
            live.append(L); live.sort()
            return (L, -0.5)
        opts = []
        cur = sorted(L for L in live if L > thr)
        top = max(live)
        # values relative to what is alive
        nxt = cur[0] if cur else thr + scale
        vals = dict(eps=(thr + 0.25 * (nxt - thr)), tie=(top if top > thr else thr + scale), top=top + scale, mid=nxt)
        if state['rej'] < rejects:
            k = ch.choose(4, 'reject', dev=True)
            if k:
                state['rej'] += 1
                return (thr if k == 1 else (thr - scale if k == 2 else NAN), -0.5)
        state['rej'] = 0
        m = menu[ch.choose(len(menu), 'ans')] if state['acc'] < freedepth else 'eps'
        state['acc'] += 1
        L = vals[m]
        if state['acc'] > freedepth + 12 * N or not L > thr: L = max(top, thr) + 1e-6 * scale
        live.append(L); live.sort()
        # points at or below the threshold have been retired for good
        for r in [r for r in live if r <= thr]:
            if len(live) > N: live.remove(r)
        ch.state((n, N, tuple(round(v, 6) for v in live), round(thr, 6), state['acc']))
        return (L, -0.5)

    env = nsenv.Env(N, n, d, stopping=tol, prior_sampling=prior_sampling, answers=answers, verbose=verbose)
    env.lead = lead
    with rng.using(rng.Stream(seed)):
        env.make()
        env.run()
    return env


def scripted(ch, N, n, tol, word, K, probe=None, lead=0.0):
    """One long run: initial likelihoods spread with ties, then the answers of the word again and again for K
    accepted points, then answers just above the threshold to the end."""
    import bisect
    d = workdir()
    live, st = [], dict(k=0, acc=0)

    def answers(env, i, req):
        thr = env.manager.logLmin.value
        if len(live) < N and not st['acc']:
            j = len(live)
            L = 10.0 * ((j * 37) % (2 * N // 3 + 1)) / N
            bisect.insort(live, L)
            return (L, -0.5)
        if probe: probe(env)
        cut = bisect.bisect_right(live, thr)
        if cut and len(live) > N: del live[:cut]; cut = 0
        top = live[-1] if live else thr
        nxt = live[cut] if cut < len(live) else thr + 1.0 / N
        a = word[st['k'] % len(word)]
        st['k'] += 1
        if st['acc'] >= K and a != 'eps': a = 'eps'
        if a == 'below': return (thr, -0.5)
        if a == 'nan': return (NAN, -0.5)
        m = live[(cut + len(live)) // 2] if cut < len(live) else top
        L = dict(eps=thr + 0.25 * (nxt - thr), tie=top, top=top + 1.0 / N, mid=m, next=nxt)[a]
        if not L > thr: L = max(top, thr) + 1e-9
        st['acc'] += 1
        bisect.insort(live, L)
        ch.step()
        return (L, -0.5)

    env = nsenv.Env(N, n, d, stopping=tol, answers=answers)
    env.lead = lead
    env.horizon = 100 * (N + K) + 100000
    with rng.using(rng.Stream(3)):
        env.make()
        env.run()
    ch.state((N, n, word, len(env.ns.nested_samples)))
    return env


ACTS = ('eps', 'tie', 'top', 'mid', 'next', 'below', 'nan')


def words(short=False):
    import itertools
    return [w for k in (1, 2) for w in itertools.product(ACTS, repeat=k) if any(a not in ('below', 'nan') for a in w) and (not short or k == 1 or w[0] < w[1])]


def long_cases(ctx):
    w = words(ctx.quick)
    cs = [(N, n, 0.05, x, 6 * N) for N, n in (((70, 3),) if ctx.quick else ((70, 3), (130, 1), (70, 12))) for x in w]
    return cs + [(450, 2, 0.3, x, 2000) for x in (('mid', 'tie', 'eps'), ('next', 'below', 'top'))] + [(40, 1, 0.01, ('mid', 'eps', 'nan', 'tie'), 1500), (40, 12, 0.01, ('next', 'mid'), 400)]


def outcome(env):
    return (env.N, env.n, len(env.ns.nested_samples), tuple(round(float(p.logL), 4) for p in env.ns.nested_samples[-4:]))


def replay(env, tol, follow_stop=False):
    """Walk the recorded trace with the reference sampler.  Yields (event, ref) pairs; returns the final ref.

    Raises Violation for C01-type facts (valid entry, threshold)."""
    N, n = env.N, env.n
    ref = nsenv.RefNS(N, n, tol)
    answers = [t for t in env.trace if t[0] == 'ans']
    pop, k = [], 0
    while len(pop) < N:
        if k >= len(answers): raise Violation('the live set was populated with fewer than nlive valid points', key='pop-short')
        t = answers[k]; k += 1
        if t[4] != -INF and t[3] != -INF and not math.isnan(t[3]): pop.append((t[2], t[3]))
    ref.populate(pop)
    ref.steps = []
    rest = answers[k:]
    ref.rest = rest
    j = 0
    while j < len(rest):
        lmax_first = rest[j][6]
        first = j
        it = ref.it
        ref.begin(lmax_first)
        Z = ref.Z
        got = 0
        step = dict(lmax_first=lmax_first, thr=ref.thr, cond=ref.cond, first=first, est=lambda lm, Z=Z, it=it: lae(Z, lm - it / N) - Z)
        while got < n:
            if j >= len(rest):
                raise Violation('the main loop stopped in the middle of a step', key='half-step')
            t = rest[j]; j += 1
            if not (t[5] == ref.thr):
                raise Violation('threshold in force is %r, but the highest of the %d replaced points has likelihood %r'
                                % (t[5], n, ref.thr), key='threshold')
            if t[3] > ref.thr:
                ref.accept((t[2], t[3])); got += 1
        step['lmax_last'] = max([lmax_first] + [r[6] for r in rest[first:j]])
        ref.steps.append(step)
    return ref

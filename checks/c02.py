from mc import rng
rng.install()
import itertools, math, os
from decimal import Decimal, getcontext
from mc.explore import Violation
from mc import nscheck, nsenv
from mc.nsenv import INF, NSm
getcontext().prec = 50
getcontext().Emin = -10**8; getcontext().Emax = 10**8
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of likelihood and replacement sequences on the real integrator and main loop, 50-digit reference'
NOTE = ('All monotone likelihood sequences over an alphabet with ties, minus infinity and values whose exponentials '
        'over/underflow, all replacement counts, up to the stated length; and all answer sequences of complete runs.')
ASSUME = ['likelihood alphabet of 8 values; sequences up to length 6, longer ones only from complete runs with repeated words of answers', 'comparison to 1e-9 relative']


def D(x): return Decimal(x)


class Exact:
    """Evidence, information and volumes in 50 digits."""
    def __init__(self, N):
        self.N = N
        self.logL, self.logX, self.w = [-INF], [Decimal(0)], []

    def add(self, L, n, N=None):
        x0 = self.logX[-1]; x1 = x0 - Decimal(n) / Decimal(N or self.N)
        self.w.append((L, (x0.exp() - x1.exp()) * (D(L).exp() if L != -INF else 0)))
        self.logL.append(L); self.logX.append(x1)

    def Z(self): return sum((w for _, w in self.w), Decimal(0))
    def logZ(self): return float(self.Z().ln()) if self.Z() > 0 else -INF
    def H(self):
        Z = self.Z()
        if Z == 0: return 0.0
        return float(sum((w * D(L) for L, w in self.w if w), Decimal(0)) / Z - Z.ln())
    def trap(self):
        s = Decimal(0)
        e = [D(L).exp() if L != -INF else Decimal(0) for L in self.logL]
        for i in range(len(e) - 1):
            s += (e[i] + e[i + 1]) / 2 * (self.logX[i].exp() - self.logX[i + 1].exp())
        return float(s.ln()) if s > 0 else -INF


def near(a, b, what, scale=1.0):
    a = float(a)
    if a == b: return
    if not abs(a - b) <= 1e-9 * max(1.0, abs(b), scale):
        raise Violation('%s is %r, exact value %r' % (what, a, b), key=what)


ALPHA = (-INF, -1e4, -800.0, 0.0, 1.5, 3.0, 750.0, 2e4)


def seqs(n):
    return itertools.combinations_with_replacement(range(len(ALPHA)), n)


def integrate(case, ch):
    N, reps, idx = case
    st = NSm._NSintegralState(N)
    ex = Exact(N)
    scale = max([1.0] + [abs(ALPHA[i]) for i in idx if ALPHA[i] != -INF])
    for i, r in zip(idx, reps):
        L = ALPHA[i]
        if r == 1 and len(idx) % 2: st.increment(L)
        else: st.increment(L, nreplace=r)
        ex.add(L, r)
        near(st.logZ, ex.logZ(), 'running evidence', scale)
        near(st.info, ex.H(), 'information', scale * 10)
        near(st.logw, float(ex.logX[-1]), 'log volume')
        ch.state((N, round(float(st.logZ), 6), round(float(st.logw), 9), round(float(st.info), 6)))
        ch.step()
    last = ALPHA[idx[-1]] if idx else 0.0
    for i in range(N):
        L = last + i * 0.5 if last != -INF else (-INF if i < N // 2 else 0.25 * i)
        st.increment(L, nlive=N - i); ex.add(L, 1, N - i)
        near(st.logZ, ex.logZ(), 'running evidence', scale)
        near(st.info, ex.H(), 'information', scale * 10)
        ch.step()
    z = st.finalise()
    near(z, ex.trap(), 'final evidence', scale)
    near(st.logZ, ex.trap(), 'final evidence', scale)
    if len(st.logLs) != len(ex.logL) or [float(x) for x in st.logLs] != ex.logL:
        raise Violation('recorded likelihoods differ from those integrated', key='history')
    for a, b in zip(st.log_vols, ex.logX): near(a, float(b), 'recorded volume')
    if st.iteration != len(idx) + N: raise Violation('iteration count %r' % st.iteration, key='iteration')
    ch.outcome = (N, round(float(z), 6))


def whole(case, ch):
    N, n, tol, pop, fd, scale = case
    snaps = []

    def probe(env):
        st = env.ns.state
        snaps.append((env.ns.iteration, float(st.logZ), float(st.info), float(st.logw)))
    env = nscheck.session(ch, N, n, tol, pop=pop, rejects=1, freedepth=fd, scale=scale, probe=probe)
    judge(env, N, n, tol, snaps, ch)


def long(case, ch):
    N, n, tol, word, K = case
    judge(nscheck.scripted(ch, N, n, tol, word, K), N, n, tol, [], ch)


def judge(env, N, n, tol, snaps, ch):
    ref = nscheck.replay(env, tol)
    ex = Exact(N)
    big = max([1.0] + [abs(q[1]) for q in ref.dead + ref.live])
    run = {}
    for k, s in enumerate(ref.steps):
        ex.add(s['thr'], n)
        if snaps: run[k] = (ex.logZ(), ex.H(), float(ex.logX[-1]))
    # during the run: at every answer of step k the integrator has absorbed k+1 steps
    for j, (it, z, h, w) in enumerate(snaps):
        k = it and (it - 1) // n
        if k in run:
            near(z, run[k][0], 'running evidence in the run', big)
            near(h, run[k][1], 'information in the run', big * 10)
            near(w, run[k][2], 'log volume in the run', 1.0)
    for i, q in enumerate(ref.live): ex.add(q[1], 1, N - i)
    st = env.ns.state
    near(env.ns.logZ, ex.trap(), 'final evidence of the run', big)
    near(env.result[0], ex.trap(), 'returned evidence', big)
    near(st.info, ex.H(), 'final information', big * 10)
    # the chain gives the same evidence
    if len(env.ns.nested_samples) != len(ref.dead) + N: raise Violation('chain length', key='chain-length')
    lines = open(env.ns.evidence_file).read().split('\n')
    v = lines[1].split()
    if lines[0].split() != ['#logZ', 'logLmax', 'H'] or abs(float(v[0]) - ex.trap()) > 1e-5 + 1e-9 * big \
       or abs(float(v[2]) - ex.H()) > 0.0051 + 1e-8 * big:
        raise Violation('evidence file %r, exact logZ %r H %r' % (lines[:2], ex.trap(), ex.H()), key='evidence-file')
    ch.outcome = (N, n, round(ex.trap(), 6))


def main(ctx):
    cases = []
    for N in (2, 3, 5):
        for ln in range(0, ctx.pick(5, 7)):
            for idx in seqs(ln):
                reps = [r for r in itertools.product((1, 2, 3)[:N - 1], repeat=ln)] if ln <= ctx.pick(3, 4) else \
                       [(1,) * ln, (N - 1,) * ln, tuple(1 + i % (N - 1) for i in range(ln))]
                cases += [(N, r, idx) for r in reps]
    ctx.for_all('integrator', integrate, cases, budget=ctx.budget(60, 600),
                rule='all non-decreasing sequences over %r up to length %d, all replacement counts, then the last N points' % (ALPHA, ctx.pick(4, 6)))
    runs = [(2, 1, 0.7, (0.0, 1.0), 4, 1.0), (3, 1, 0.9, (0.0, 1.0), 3, 300.0), (3, 2, 0.9, (0.0, 0.5), 4, 1.0),
            (4, 2, 1.0, (0.0, 1.0), 3, 1.0), (4, 3, 1.2, (0.0, 1.0), 2, 1e-3), (4, 3, 1.2, (-1e4, 0.0), 2, 1.0)]
    ctx.explore_cases('runs', whole, runs, bound=ctx.pick(0, 1), budget=ctx.budget(60, 600),
                      rule='all answer sequences (freedom in the first 2-4 replacements) to the end of the run')
    ctx.for_all('large', long, nscheck.long_cases(ctx), budget=ctx.budget(60, 600), rule='40 to 450 live points, 1 to 12 workers, all repeated words of up to two answers')

from mc import rng
rng.install()
import math
from mc.explore import Violation
from mc import nscheck, nsenv
from mc.nsenv import INF, lae
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of answer sequences of complete runs of the real main loop, recomputed stopping rule as oracle'
NOTE = ('Every answer sequence over a relative likelihood alphabet up to the stated depth, for several tolerances; '
        'the shared largest likelihood is owned by the harness, so the estimate is recomputed exactly.')
ASSUME = ['finite menu of tolerances and likelihood scales', 'runs whose recomputed estimate is within 1e-9 of the tolerance are not judged']


def run(case, ch):
    N, n, tol, pop, fd, scale, lead = case
    env = nscheck.session(ch, N, n, tol, pop=pop, rejects=1, freedepth=fd, scale=scale, lead=lead)
    judge(env, N, n, tol, ch)


def long(case, ch):
    N, n, tol, word, K = case
    judge(nscheck.scripted(ch, N, n, tol, word, K), N, n, tol, ch)


def judge(env, N, n, tol, ch):
    ref = nscheck.replay(env, tol)
    steps = ref.steps
    if not steps: raise Violation('the run stopped before the first step although its evidence was unknown', key='no-step')
    # recompute the estimate after each step
    for k, s in enumerate(steps):
        lo, hi = s['est'](s['lmax_first']), s['est'](s['lmax_last'])
        if min(abs(lo - tol), abs(hi - tol)) < 1e-9: return
        last = k == len(steps) - 1
        if not last and hi <= tol:
            raise Violation('step %d of %d: evidence could grow by %r only, tolerance %r, but the run went on' % (k + 1, len(steps), hi, tol), key='late')
        if last and lo > tol:
            raise Violation('the run stopped after step %d although the evidence could grow by %r, tolerance %r' % (k + 1, lo, tol), key='early')
    want = len(steps) * n + N
    if len(env.ns.nested_samples) != want:
        raise Violation('%d replacements and %d live points but %d samples in the chain' % (len(steps) * n, N, len(env.ns.nested_samples)), key='count')
    ch.outcome = (N, n, tol, len(steps))


def prior(case, ch):
    N, n, pop = case
    bad = ((-INF, -0.5), (float('nan'), -0.5))
    env = nscheck.session(ch, N, n, 0.1, pop=pop, bad_pop=bad, prior_sampling=True)
    if len(env.ns.nested_samples) != N:
        raise Violation('prior sampling returned %d samples instead of %d' % (len(env.ns.nested_samples), N), key='prior-count')
    first = [t[2] for t in env.trace if t[0] == 'ans' and math.isfinite(t[3])][:N]
    if sorted(nsenv.ident(p) for p in env.ns.nested_samples) != sorted(first):
        raise Violation('prior sampling replaced or dropped points', key='prior-replaced')
    if env.closed != [True] * n: raise Violation('workers not told to stop', key='close')
    ch.outcome = (N, n, tuple(sorted(first)))


def main(ctx):
    cases = []
    for tol in (2.0, 1.0, 0.5, 0.1):
        for N, n in ((2, 1), (3, 1), (3, 2), (4, 3), (5, 2)):
            for scale in (1.0, 0.05):
                for lead in (0.0, 2.0):
                    if N == 5 and lead: continue
                    cases.append((N, n, tol, (0.0, 1.0), 2 if N < 5 else 1, scale, lead))
    ctx.explore_cases('stop', run, cases, bound=ctx.pick(0, 1), budget=ctx.budget(80, 800),
                      rule='all populations over two likelihoods, first 1-2 replacements free, to the end of the run; '
                           'lead: some worker already knows a likelihood that much larger')
    deep = [(2, 1, 0.3, (0.0, 2.0), 6, 1.0, 0.0), (3, 2, 0.3, (0.0, 2.0), 5, 1.0, 0.0), (3, 1, 0.02, (0.0,), 5, 1.0, 0.0)]
    ctx.explore_cases('deep', run, deep, bound=ctx.pick(0, 1), budget=ctx.budget(60, 800), rule='first 5-6 replacements free')
    ctx.explore_cases('prior', prior, [(N, n, (0.0, 1.0)) for N in (2, 3, 4, 5) for n in (1, 2, 3)], bound=2,
                      budget=ctx.budget(30, 100), rule='prior-sampling runs, up to two invalid answers')
    ctx.for_all('large', long, nscheck.long_cases(ctx), budget=ctx.budget(60, 600), rule='40 to 450 live points, 1 to 12 workers, all repeated words of up to two answers')

from mc import rng
rng.install()
import math, os
from mc.explore import Violation
from mc import nscheck, nsenv
from mc.nsenv import INF, ident
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of all worker answer sequences against the real main loop, reference sampler as oracle'
NOTE = ('Every answer sequence over a relative likelihood alphabet up to the stated depth and deviation bound, run to the end '
        'of the real nested_sampling_loop; trusts the scripted pipes to behave as FIFO channels.')
ASSUME = ['worker answers are drawn from an alphabet relative to the live set: below, equal to, NaN, just above the '
          'threshold, tied with the best live point, new best',
          'likelihoods are compared, never used as magic values, so a relative alphabet is representative',
          'finite bounds: nlive 2-5, 1-3 workers, at most 2 rejected or invalid answers per run (deviation bound); up to 450 live points and 12 workers only with repeated words of answers']
NAN = float('nan')
BAD = ((-INF, -0.5), (NAN, -0.5), (0.5, -INF))


def judge(env, tol):
    N, n, ns = env.N, env.n, env.ns
    chain = list(ns.nested_samples)
    Ls = [float(p.logL) for p in chain]
    for a, b in zip(Ls, Ls[1:]):
        if not a <= b: raise Violation('chain is not in order: %r before %r' % (a, b), key='order', detail=repr(Ls))
    seen = {}
    for p in chain:
        k = ident(p)
        if k not in env.delivered: raise Violation('chain contains a point no worker delivered: %s' % p, key='foreign')
        if env.delivered[k] != (float(p.logL), float(p.logP)):
            raise Violation('likelihood or prior of a point changed: %r -> %r' % (env.delivered[k], (p.logL, p.logP)), key='altered')
        if k in seen: raise Violation('point appears twice in the chain: %s' % p, key='duplicate')
        seen[k] = 1
        if list(p.names) != env.ns.model.names: raise Violation('names changed', key='altered')
    if env.prior_sampling:
        valid = [t[2] for t in env.trace if t[0] == 'ans' and t[4] != -INF and t[3] != -INF and not math.isnan(t[3])]
        if sorted(seen) != sorted(valid[:N]) or len(chain) != N:
            raise Violation('prior sampling: the chain is not the set of the first nlive valid points', key='prior-set')
        return
    ref = nscheck.replay(env, tol)
    # all that ever entered = populated + accepted
    entered = [q for q in ref.dead] + [q for q in ref.live]
    ent = [q[0] for q in entered]
    if sorted(ent) != sorted(seen):
        missing = [q for q in ent if q not in seen]; extra = [k for k in seen if k not in ent]
        raise Violation('points that entered the live set and points in the chain differ: missing %d, extra %d'
                        % (len(missing), len(extra)), key='completeness', detail=repr((missing, extra)))
    if len(ref.live) != N: raise Violation('reference live set size', key='harness')
    # dead points of each step are the lowest ones then alive (ties in any order)
    refL = [q[1] for q in ref.dead] + sorted(q[1] for q in ref.live)
    # counters: one iteration per point that entered; one refusal is counted from the start
    acc, ref_ = len(ref.dead), sum(1 for t in ref.rest if not t[3] > t[5])
    if ns.iteration != acc: raise Violation('%d iterations for %d replaced points' % (ns.iteration, acc), key='iterations')
    if acc and abs(ns.acceptance - acc / (acc + ref_ + 1.0)) > 1e-12:
        raise Violation('acceptance %r after %d accepted and %d refused answers' % (ns.acceptance, acc, ref_), key='acceptance')
    if refL != Ls: raise Violation('chain likelihoods %r differ from those of the reference %r' % (Ls, refL), key='wrong-dead')


def run(case, ch):
    N, n, tol, ps = case[:4]
    bad = BAD if case[4] else ()
    env = nscheck.session(ch, N, n, tol, pop=case[5], bad_pop=bad, rejects=2, prior_sampling=ps, freedepth=case[6])
    judge(env, tol)
    # requests: one per worker and step, asked of each worker, from points of the model
    for t in env.trace:
        if t[0] == 'close' and t[2] != INF:
            raise Violation('worker %d told to stop while the threshold is still finite' % t[1], key='close')
    if env.closed != [True] * n: raise Violation('not every worker was told to stop: %r' % env.closed, key='close')
    # the file agrees with the chain order
    ch.outcome = nscheck.outcome(env)


def long(case, ch):
    N, n, tol, word, K = case
    env = nscheck.scripted(ch, N, n, tol, word, K)
    judge(env, tol)
    if env.closed != [True] * n: raise Violation('not every worker was told to stop: %r' % env.closed, key='close')
    ch.outcome = nscheck.outcome(env)


def main(ctx):
    cases, deep = [], []
    for N in (2, 3, 4):
        for n in (1, 2, 3):
            if n >= N: continue
            cases.append((N, n, 0.9 if N < 4 else 1.2, False, False, (0.0, 1.0), 4 if N < 4 else 3))
            cases.append((N, n, 1.5, True, True, (0.0, 1.0), 0))
            cases.append((N, n, 1.5, False, True, (0.0, 1.0), 1))
    ctx.explore_cases('answers', run, cases, bound=ctx.pick(1, 2), budget=ctx.budget(60, 600),
                      rule='every population over {0,1} (with invalid answers as deviations), every answer of the first '
                           '4 (3) replacements free, then just-above-threshold answers until the run ends; '
                           'rejections below/equal/NaN as deviations')
    more = [(5, 2, 1.0, False, False, (0.0, 1.0, 2.0), 2), (3, 2, 0.2, False, False, (0.0, 1.0), 5), (4, 1, 0.5, False, False, (0.0, 1.0), 5),
            (2, 1, 0.05, False, False, (0.0, 3.0), 5), (5, 4, 1.0, False, False, (0.0, 1.0), 3)]
    ctx.explore_cases('longer', run, more, bound=ctx.pick(0, 1), budget=ctx.budget(40, 400), rule='longer runs, more live points')
    ctx.for_all('large', long, nscheck.long_cases(ctx), budget=ctx.budget(60, 600), rule='40 to 450 live points, 1 to 12 workers, all repeated words of up to two answers')

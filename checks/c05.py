from mc import simrun as R, sim as S
from mc.explore import Violation
LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of all interleavings (within a bound on preemptions) of complete runs of the real '
             'main and sampler code under a cooperative scheduler, signals included')
NOTE = ('Threads stand for processes, control changes hands at operations on shared values, pipes and processes; proposals '
        'are replaced by independent draws in most runs so that runs stay short.')
ASSUME = ['processes interact only through multiprocessing objects', 'pipes do not fill up', 'nlive > nthreads, pool of 4 (stubs) or 24 points',
          'signals go to the main process alone or to all processes, and arrive at communication points']


def cfg(kind='flat', tol=None, **k): return (kind, tol, tuple(sorted(k.items())))


def run(case, ch):
    kind, tol, kw = case
    kw = dict(kw)
    real = kw.pop('real', False)
    sig = kw.pop('sig', None)
    model = R.Model(kind, dim=kw.pop('dim', 1))
    if real: kw['proposals'] = R.REAL
    if sig:
        kw['signals'] = R.main_signals
        kw['resume'] = True

    def before(sim, c):
        if tol is not None: c.NS.tolerance = tol
    sim, p, c = R.run(ch, model, R.fresh(), before=before, **kw)
    sigs = [t for t in sim.trace if t[0] == 'signal']
    R.check_ends(sim, p)
    n = kw.get('nthreads', 2)
    if len(sim.procs) > 1 + n or (not sigs and len(sim.procs) != 1 + n):
        raise Violation('%d samplers started, %d asked for' % (len(sim.procs) - 1, n), key='count')
    if not sigs and (not hasattr(c, 'nested_samples') or not len(c.NS.nested_samples)):
        raise Violation('the run ended without samples', key='result')
    if sigs:
        if p.exitcode != 130 and not sigs[0][1].startswith('late'):
            raise Violation('interrupted run ended with status %r' % p.exitcode, key='status')
        for q in sim.procs[1:]:
            if q.exitcode not in (0, 130):
                raise Violation('sampler ended with status %r after the interrupt' % q.exitcode, key='status')
    ch.outcome = (case[0], case[2], tuple(q.exitcode for q in sim.procs), len(c.NS.nested_samples) if c else -1,
                  tuple(t[1] for t in sigs))
    for q in sim.procs: ch.state((case, q.idx, q.exitcode, q.nlike))


ONE = [dict(nthreads=1), dict(nthreads=1, nham=1), dict(nthreads=1, nsl=1)]
TWO = [dict(nthreads=2), dict(nthreads=2, nham=2), dict(nthreads=2, nsl=2), dict(nthreads=2, nham=1), dict(nthreads=2, nsl=1)]
MORE = [dict(nthreads=3, nham=1, nsl=1, nlive=4), dict(nthreads=3, nlive=5), dict(nthreads=4, nham=1, nsl=1, nlive=6)]


def cases(mixes, **k):
    out = []
    for m in mixes:
        m = dict(m, **k)
        if m.get('nsl'): m['maxmcmc'] = 6
        out.append(cfg(**m))
    return out


def main(ctx):
    q = ctx.quick
    ctx.explore_cases('schedules', run, cases(ONE + TWO) + cases(MORE, tol=0.5 if q else None), bound=1, budget=ctx.budget(150, 1500),
                      rule='every mix of samplers, one preemption or unusual wake-up anywhere in the run')
    ctx.explore_cases('invalid', run, cases([TWO[0], TWO[3]] + ([] if q else ONE + TWO + MORE), kind='both', tol=0.6) +
                      cases([ONE[0], TWO[2]], kind='nan', tol=0.6) + cases([TWO[0], ONE[1]], kind='minusinf', tol=0.6),
                      bound=1, budget=ctx.budget(100, 1500),
                      rule='likelihood minus infinity or NaN in part of the prior')
    ctx.explore_cases('signals', run, cases([ONE[0], TWO[0], TWO[3]] + ([] if q else ONE + TWO + MORE), tol=0.8, sig=True) +
                      cases([TWO[4]], tol=0.8, sig=True, interval=-1.0, verbose=3),
                      bound=1, budget=ctx.budget(150, 1500), rule='a signal to main or to all processes at any point')
    ctx.explore_cases('prior', run, cases([TWO[0], MORE[0]], prior_sampling=True) + cases([TWO[0]], prior_sampling=True, sig=True),
                      bound=1, budget=ctx.budget(60, 600), rule='prior sampling')
    ctx.explore_cases('two', run, cases(ONE[:1], tol=0.9) + cases(ONE[:1], tol=1.0, sig=True), bound=2, budget=ctx.budget(100, 900),
                      rule='two deviations, one sampler')
    seeds = range(ctx.pick(4, 60))
    ctx.explore_cases('real', run, [c for s in seeds for c in cases(
                          [dict(nthreads=2), dict(nthreads=1, nham=1, dim=2), dict(nthreads=2, nsl=1), dict(nthreads=3, nham=1, nsl=1, nlive=4)],
                          real=True, poolsize=24, horizon=200000, like_horizon=200000, simseed=s, kind='quad')],
                      bound=0, budget=ctx.budget(100, 900), rule='built-in proposals, default schedule, several random streams')
    ctx.explore_cases('real-odd', run, [c for s in range(ctx.pick(12, 150)) for kind in ('both', 'nan', 'minusinf', 'ramp') for pool in (12, 40) for c in cases(
                          [dict(nthreads=1, nham=1, dim=2), dict(nthreads=1, nham=1), dict(nthreads=2, nham=1, nsl=1, nlive=4)],
                          real=True, poolsize=pool, horizon=200000, like_horizon=200000, simseed=s, kind=kind)],
                      bound=0, budget=ctx.budget(100, 900), rule='built-in proposals where the likelihood is invalid or constant in directions, several random streams')
    if not q:
        ctx.explore_cases('two-2', run, cases(TWO, tol=1.0) + cases(TWO[:1], tol=1.0, sig=True) + cases(TWO[:1], kind='both', tol=1.0),
                          bound=2, budget=2500, rule='two deviations, two samplers')

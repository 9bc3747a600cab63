from mc import simrun as R, sim as S, rng
from mc.explore import Violation
import os
import numpy as np
from checks.c19 import same
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of verbosity, mode, sampler mix and live-point numbers as complete runs of the real code under a '
             'controlled scheduler (all single preemptions for the small ones); results compared across configurations')
NOTE = 'Default schedule for every configuration, all schedules with one preemption for small ones; real plotting for some.'
ASSUME = ['independent-draw proposals, except in the part "built-in"', 'pool of 8']


def once(case, verbose, ch=None, sched=False, tol=0.7, plots=False):
    prior, (n, nham, nsl), nlive, names, kind, real = case
    model = R.Model(kind, names=list(names), dim=len(names))
    out = R.fresh()
    kw = dict(nthreads=n, nham=nham, nsl=nsl, nlive=nlive, verbose=verbose, prior_sampling=prior, maxmcmc=12, poolsize=8)
    if real: kw.update(proposals=R.REAL, poolsize=24, maxmcmc=20, horizon=10**6, like_horizon=10**6)
    def before(sim, c): c.NS.tolerance = tol
    R.plots(plots)
    try: sim, p, c = R.run(ch if sched else R.Default(ch), model, out, before=before, sched=sched, simseed=3, **kw)
    finally: R.plots(False)
    R.check_ends(sim, p)
    if p.exitcode != 0: raise Violation('the run ended with status %r' % p.exitcode, key='status')
    return sim, c, model, kw


def rows(a): return [tuple(r) for r in np.atleast_1d(np.asarray(a)).ravel().tolist()]


def complete(*a):
    with rng.using(rng.Stream(9)): _complete(*a)


def _complete(sim, c, model, kw, verbose, prior):
    names = tuple(model.names) + ('logL', 'logPrior')
    for what, a in (('nested_samples', getattr(c, 'nested_samples', None)), ('posterior_samples', getattr(c, 'posterior_samples', None))):
        if a is None or getattr(a, 'dtype', None) is None or tuple(a.dtype.names or ()) != names or len(np.atleast_1d(a)) == 0:
            raise Violation('%s: %r' % (what, a), key=what)
    ns = rows(c.nested_samples)
    if [r[:-1] for r in ns] != [tuple(p.values) + (p.logL,) for p in c.NS.nested_samples]:
        raise Violation('nested_samples differ from the chain', key='nested_samples')
    for r in rows(c.posterior_samples):
        if r not in ns: raise Violation('a posterior sample is no nested sample', key='posterior_samples')
    if prior and len(ns) != kw['nlive']: raise Violation('%d samples from the prior, asked for %d' % (len(ns), kw['nlive']), key='prior')
    if verbose >= 3 or prior:
        pr = c.prior_samples
        if pr is None or isinstance(pr, dict): raise Violation('no prior samples: %r' % (pr,), key='prior_samples')
        got = rows(pr)
        want = kw['nthreads'] * kw['maxmcmc'] if verbose >= 3 or prior else 0
        want += len(ns) if prior else 0
        # slice samplers do not collect prior samples in prior-sampling mode below verbosity 3
        if prior and verbose < 3: want -= kw['nsl'] * kw['maxmcmc']
        if len(got) != want: raise Violation('%d prior samples, expected %d' % (len(got), want), key='prior_samples')
        if prior and not all(r in got for r in ns): raise Violation('prior samples do not include all nested samples', key='prior_samples')
        for r in got:
            if not all(0 < x < 1 for x in r[:len(model.names)]): raise Violation('prior sample out of bounds: %r' % (r,), key='prior_samples')
    if verbose >= 3 and not prior:
        m = c.mcmc_samples
        if m is None or isinstance(m, dict) or not len(np.atleast_1d(m)): raise Violation('no MCMC samples: %r' % (m,), key='mcmc_samples')
        if tuple(m.dtype.names) != names: raise Violation('MCMC samples have columns %r' % (m.dtype.names,), key='mcmc_samples')
    # asked for again
    same(c.get_nested_samples(filename=None), c.nested_samples, 'nested samples asked for again')
    again = c.get_posterior_samples(filename=None)
    for r in rows(again):
        if r not in ns: raise Violation('posterior asked for again has another sample', key='posterior_samples')
    same(c.get_nested_samples(filename=None), np.asarray(c.nested_samples), 'nested samples asked for again')
    if rows(c.nested_samples) != ns: raise Violation('nested samples changed', key='nested_samples')
    if verbose >= 3 or prior:
        a, b = c.get_prior_samples(filename=None), c.get_prior_samples(filename=None)
        if sorted(rows(a)) != sorted(got) or sorted(rows(b)) != sorted(got): raise Violation('prior samples asked for again differ', key='prior_samples')


def modes(case, ch):
    base = None
    for v in (0, 1, 2, 3):
        sim, c, model, kw = once(case, v, ch)
        got = (rows(c.nested_samples), rows(c.posterior_samples), float(c.NS.state.logZ), float(c.NS.state.info), [float(x) for x in c.NS.insertion_indices])
        complete(sim, c, model, kw, v, case[0])
        if v < 3:
            # verbosity 3 makes the samplers draw more, the others must be the same run
            if base is not None and got != base: raise Violation('verbosity %d computes something else than verbosity 0' % v, key='verbosity')
            base = base or got
        ch.state((case, v, repr(got[2])))
    ch.outcome = (case, len(base[0]), round(base[2], 6) if base[2] == base[2] else None)


def schedules(case, ch):
    case, v = case
    sim, c, model, kw = once(case, v, ch=ch, sched=True, tol=1.0)
    complete(sim, c, model, kw, v, case[0])
    ch.outcome = (case, v, len(c.NS.nested_samples))
    ch.state((case, v, repr(c.NS.state.logZ)))


def plotted(case, ch):
    case, v, corner = case
    sim, c, model, kw = once(case, v, ch, plots=True)
    complete(sim, c, model, kw, v, case[0])
    c.prior_samples = c.prior_samples if v < 3 and not case[0] else c.get_prior_samples(filename=None)
    if v >= 3 and not case[0]: c.mcmc_samples = c.get_mcmc_samples(filename=None)
    if corner:
        R.plots(True)
        try: c.plot(corner=True)
        finally: R.plots(False)
    f = os.listdir(c.output)
    for n in model.names:
        n = n.replace('/', '_')
        if not case[0] and 'posterior_%s.pdf' % n not in f: raise Violation('no posterior plot of %s' % n, key='plot')
        if 'nschain_%s.pdf' % n not in f: raise Violation('no chain plot of %s' % n, key='plot')
    ch.outcome = (case, v, corner)


def main_loop(case, ch):
    """The same answers at every verbosity."""
    from mc import nscheck
    N, n, tol = case
    rec, base = [], None
    class Rec:
        def choose(self, k, label='', dev=False):
            c = ch.choose(k, label, dev); rec.append(c); return c
        def state(self, s): ch.state(s)
        def step(self, k=1): pass
    class Play:
        def __init__(self): self.i = 0
        def choose(self, k, label='', dev=False):
            self.i += 1
            return rec[self.i - 1]
        def state(self, s): pass
        def step(self, k=1): pass
    for v in (0, 1, 2, 3):
        env = nscheck.session(Rec() if v == 0 else Play(), N, n, tol, pop=(0.0, 1.0), rejects=1, freedepth=2, verbose=v)
        s = env.ns.state
        got = ([(tuple(p.values), p.logL) for p in env.ns.nested_samples], s.logZ, s.info, list(env.ns.insertion_indices), env.ns.iteration)
        if base is not None and got != base: raise Violation('verbosity %d computes something else than verbosity 0' % v, key='verbosity')
        base = base or got
    ch.outcome = (case, len(base[0]))


def main(ctx):
    q = ctx.quick
    mixes = [(1, 0, 0), (1, 1, 0), (1, 0, 1), (2, 0, 0), (2, 1, 0), (2, 0, 1), (3, 1, 1), (2, 2, 0), (2, 0, 2)]
    cs = [(pr, m, m[0] + k, nm, kind, False) for pr in (False, True) for m in mixes for k in ((1, 3) if q else (1, 2, 3, 5, 8))
          for nm in ((('x',),) if q else (('x',), ('x', 'y'))) for kind in (('flat', 'both') if k == 3 else ('flat',))]
    cs += [(pr, (2, 0, 0), 4, ('log10_A', 'cos(theta)', 'file'), 'flat', False) for pr in (False, True)]
    ctx.for_all('modes', modes, cs, budget=ctx.budget(100, 900), rule='every mix, mode, number of live points, at verbosity 0-3')
    ctx.for_all('built-in', modes, [(pr, m, m[0] + 3, ('x', 'y'), 'quad', True) for pr in (False, True) for m in ((1, 0, 0), (2, 1, 0), (2, 0, 1), (3, 1, 1))],
                budget=ctx.budget(100, 900), rule='built-in proposals')
    ctx.explore_cases('main loop', main_loop, [(3, 1, 1.3), (3, 2, 1.3), (4, 3, 1.3)], bound=1, budget=ctx.budget(60, 300), rule='same answers at each verbosity')
    small = [((False, (2, 0, 0), 3, ('x',), 'flat', False), 3), ((True, (2, 0, 0), 3, ('x',), 'flat', False), 0),
             ((False, (2, 1, 0), 3, ('x',), 'flat', False), 3)]
    if not q: small += [((pr, m, m[0] + 1, ('x',), 'flat', False), v) for pr in (False, True) for m in mixes[:7] for v in (0, 3)]
    ctx.explore_cases('schedules', schedules, small, bound=1, budget=ctx.budget(100, 1200), rule='every schedule with one preemption')
    pl = [((False, (2, 0, 0), 4, ('x', 'y'), 'flat', False), 2, False), ((False, (2, 1, 0), 30, ('x', 'y'), 'flat', False), 3, True),
          ((True, (2, 0, 0), 4, ('x',), 'flat', False), 2, False), ((True, (1, 0, 0), 3, ('x', 'y'), 'flat', False), 3, False),
          ((False, (1, 0, 0), 3, ('x',), 'flat', False), 2, False), ((False, (1, 0, 1), 5, ('log10_A', 'cos(theta)'), 'flat', False), 3, False),
          ((False, (1, 0, 0), 3, ('m1/m2', '/'), 'flat', False), 2, False), ((True, (1, 0, 0), 3, ('x', '../a'), 'flat', False), 2, False)]
    ctx.explore_cases('plots', plotted, pl, bound=0, budget=ctx.budget(150, 300), rule='real plotting')

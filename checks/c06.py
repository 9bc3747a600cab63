from mc import simrun as R, sim as S
from mc.explore import Violation
import math, os
from checks.c05 import cfg, cases, ONE, TWO, MORE
LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of all interleavings (within a bound on preemptions) of complete runs of the real code '
             'under a cooperative scheduler, with a monitor on every write of the shared maximum and every message')
NOTE = 'Same executions as C05; every read, lock and write of the shared value is a scheduling point.'
ASSUME = ['processes interact only through multiprocessing objects', '1-4 samplers, pool of 4', 'reading or writing a shared value is atomic']


class Watch:
    def __init__(self, model): self.model = model
    def value(self, sim):
        c = sim.box.get('c')
        return c.manager.logLmax if c is not None else None
    def __call__(self, sim, what):
        v = self.value(sim)
        if v is None: return
        if what[0] == 'set' and what[1] is v:
            old, new = what[2], what[3]
            if not new >= old: raise Violation('the shared largest likelihood went from %r to %r' % (old, new), key='decrease')
            if new not in self.model.seen:
                raise Violation('the shared largest likelihood became %r, which no point has' % new, key='invented')
        elif what[0] == 'send' and what[3].idx > 0:
            o = what[2]
            p = o[-1] if isinstance(o, tuple) else None
            if p is not None and hasattr(p, 'logL') and p.logL > v._v:
                raise Violation('sampler %d handed over a point with likelihood %r, above the shared maximum %r' % (what[3].idx, p.logL, v._v), key='understated')


def final(sim, c, model):
    v = c.manager.logLmax._v
    pts = [('chain', q.logL) for q in c.NS.nested_samples] + [('live points', q.logL) for q in c.NS.params]
    for w in R.workers(sim):
        s = R.sampler(w)
        pts += [('pool of sampler %d' % w.idx, q.logL) for q in s.evolution_points]
        pts += [('chain of sampler %d' % w.idx, q.logL) for q in s.samples]
    for n, L in pts:
        if L > v: raise Violation('%s has a point with likelihood %r, above the shared maximum %r' % (n, L, v), key='understated')
    f = [os.path.join(c.output, x) for x in os.listdir(c.output) if x.endswith('_evidence.txt')]
    if f:
        rows = [l.split() for l in open(f[0]) if l.strip() and not l.startswith('#')]
        top = max(q.logL for q in c.NS.nested_samples)
        if not float(rows[-1][1]) >= top - 1e-5 - 1e-9 * abs(top):
            raise Violation('the evidence file has maximum likelihood %s, the chain has %r' % (rows[-1][1], top), key='file')
    return v


def run(case, ch):
    kind, tol, kw = case
    kw = dict(kw)
    sig = kw.pop('sig', None)
    model = R.Model(kind)
    if sig: kw.update(signals=R.main_signals, resume=True)
    w = Watch(model)

    def before(sim, c):
        if tol is not None: c.NS.tolerance = tol
    out = R.fresh()
    sim, p, c = R.run(ch, model, out, before=before, monitors=[w], **kw)
    R.check_ends(sim, p)
    v = None
    if p.exitcode == 0: v = final(sim, c, model)
    elif sig:
        # the interrupted run goes on; likelihoods known so far are not forgotten
        kw.update(signals=None, simseed=7)
        top = max([q.logL for q in c.NS.params if q is not None] + [q.logL for q in c.NS.nested_samples] or [-R.INF])
        had = os.path.exists(os.path.join(out, 'nested_sampler_resume.pkl'))

        def before2(sim, c):
            if tol is not None: c.NS.tolerance = tol
            if had and c.manager.logLmax._v < top:
                raise Violation('after resuming, the shared maximum is %r, the interrupted run had a point with %r' % (c.manager.logLmax._v, top), key='resume')
        sim, p, c = R.run(ch, model, out, before=before2, monitors=[w], **dict(kw, sched=False))
        R.check_ends(sim, p)
        v = final(sim, c, model)
    ch.outcome = (case, None if v is None else round(v, 9))
    ch.state((case, v, tuple(x[2] for x in (c.manager.logLmax.history if c else []))))


def main(ctx):
    q = ctx.quick
    ctx.explore_cases('schedules', run, cases(TWO + MORE[:1]) + cases(ONE, tol=0.5), bound=1, budget=ctx.budget(150, 1500),
                      rule='every mix of samplers, one preemption or unusual wake-up anywhere in the run')
    ctx.explore_cases('invalid', run, cases([TWO[0], TWO[1], TWO[3]], kind='both', tol=0.6) + cases([TWO[0], TWO[2], TWO[4]], kind='tilt', tol=0.6), bound=1, budget=ctx.budget(100, 900),
                      rule='likelihood NaN or minus infinity in part of the prior, prior that falls with likelihood')
    ctx.explore_cases('resume', run, cases([TWO[0], TWO[3], TWO[4]] + ([] if q else ONE + MORE[:1]), tol=0.8, sig=True), bound=1, budget=ctx.budget(100, 900),
                      rule='interrupt at any point, then resume')
    ctx.explore_cases('prior', run, cases([TWO[0]], prior_sampling=True), bound=1, budget=60, rule='prior sampling')
    if not q:
        ctx.explore_cases('two', run, cases(TWO, tol=1.0), bound=2, budget=2500, rule='two deviations, two samplers')

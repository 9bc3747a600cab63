from mc import simrun as R, sim as S
from mc.explore import Violation
import itertools, os
from checks.c05 import cfg, cases
SAm = R.SAm
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sampler mixes, seeds, resume flags and sets of checkpoint files, each as complete runs of '
             'the real code under a controlled scheduler that tracks channels and the lineage of every random stream')
NOTE = 'Every mix of up to 4 samplers (some of up to 12), 16 seeds and every subset of the checkpoint files of an interrupted run; interrupt positions enumerated.'
ASSUME = ['python reseeds `random` in forked children (it does)', 'numpy state is inherited by forked children', 'np.random.seed() gives a new stream each time']
TYPES = dict(mhs=SAm.MetropolisHastingsSampler, hmc=SAm.HamiltonianMonteCarloSampler, sli=SAm.SliceSampler)


def mixes(top):
    return [(a, b, c) for n in range(1, top + 1) for a in range(n + 1) for b in range(n + 1 - a) for c in [n - a - b]]


def settle(tol):
    def f(sim, c): c.NS.tolerance = tol
    return f


class Spy:
    """The samplers as they were when their processes were started."""
    def __init__(self): self.w = []
    def __call__(self, sim, what):
        if what[0] == 'start':
            s = R.sampler(what[1])
            self.w.append(dict(obj=s, type=type(s), file=os.path.basename(s.resume_file), pool=pool(s), counter=s.mcmc_counter,
                               init=s.initialised, proc=what[1], accepted=s.mcmc_accepted, samples=len(s.samples)))


def pool(s): return [tuple(p.values) + (p.logL,) for p in s.evolution_points]


def identity(sim, spy, mix, c, what):
    n = sum(mix)
    if len(spy.w) != n: raise Violation('%s: %d samplers started for mix %r' % (what, len(spy.w), mix), key='count')
    for t, k in zip(('mhs', 'hmc', 'sli'), mix):
        got = sum(1 for w in spy.w if w['type'] is TYPES[t])
        if got != k: raise Violation('%s: %d samplers of type %s for mix %r' % (what, got, t, mix), key='type')
    used = {}
    for i, w in enumerate(spy.w):
        pipe = w['obj'].producer_pipe
        if id(pipe) in used: raise Violation('%s: samplers %d and %d share a pipe' % (what, used[id(pipe)], i), key='pipe')
        used[id(pipe)] = i
        if not any(pipe.peer is p for p in c.manager.consumer_pipes):
            raise Violation('%s: sampler %d is not connected to the main process' % (what, i), key='pipe')
    files = [w['file'] for w in spy.w]
    if len(set(files)) != n: raise Violation('%s: samplers share checkpoint files: %r' % (what, files), key='file')
    ids = [w['obj'].thread_id for w in spy.w]
    if len(set(ids)) != n: raise Violation('%s: samplers share identities: %r' % (what, ids), key='id')
    streams(spy, what)


def streams(spy, what):
    """No two workers have drawn from the same stream."""
    seen = {}
    for i, w in enumerate(spy.w):
        for l in w['proc'].src.used_np:
            if l in seen: raise Violation('%s: samplers %d and %d drew from the same random stream %r' % (what, seen[l], i, l), key='stream')
            seen[l] = i
    out = [tuple(sorted(map(str, w['proc'].src.used_np))) for w in spy.w]
    return out


def fresh_run(case, ch):
    mix, seed, prior = case
    n = sum(mix)
    k = dict(nthreads=n, nham=mix[1], nsl=mix[2], nlive=n + 1, maxmcmc=6, sched=False, prior_sampling=prior, resume=False)
    res = []
    for s in (seed, seed, (1234 if seed is None else seed) + 1000):
        spy = Spy()
        sim, p, c = R.run(R.Default(ch), R.Model('flat'), R.fresh(), before=settle(1.0), monitors=[spy], seed=s, **k)
        R.check_ends(sim, p)
        identity(sim, spy, mix, c, 'new run')
        res.append([frozenset(w['proc'].src.used_np) for w in spy.w])
    if res[0] != res[1]: raise Violation('with seed %r twice, the samplers use the streams %r and %r' % (seed, res[0], res[1]), key='seed')
    for i, (a, b) in enumerate(zip(res[0], res[2])):
        if a & b: raise Violation('sampler %d uses the same stream for two seeds: %r' % (i, a & b), key='seed')
    if not all(all(l[0] == 'seed' for l in a) for a in res[0]):
        raise Violation('a sampler is not seeded: %r' % (res[0],), key='seed')
    ch.outcome = (case, tuple(tuple(sorted(map(str, a))) for a in res[0]))
    ch.state(ch.outcome)


def seeds_run(case, ch):
    """Each of several seeds gives its own streams."""
    mix, seeds = case
    n = sum(mix)
    seen = {}
    for s in seeds:
        spy = Spy()
        sim, p, c = R.run(R.Default(ch), R.Model('flat'), R.fresh(), before=settle(1.0), monitors=[spy], seed=s, nthreads=n, nham=mix[1], nsl=mix[2], nlive=n + 1,
                          maxmcmc=6, sched=False, resume=False)
        R.check_ends(sim, p)
        identity(sim, spy, mix, c, 'run with seed %r' % s)
        for i, w in enumerate(spy.w):
            for l in w['proc'].src.used_np:
                if seen.setdefault((i, l), s) != s: raise Violation('sampler %d draws from the same stream with seeds %r and %r' % (i, seen[i, l], s), key='seed')
        ch.step()
    ch.outcome = (mix, len(seen))
    ch.state(case)


def auto_run(case, ch):
    """nthreads=None: one sampler per processor, in every mix."""
    mix, seed = case
    spy = Spy()
    S.CPUS = sum(mix)
    try:
        sim, p, c = R.run(R.Default(ch), R.Model('flat'), R.fresh(), before=settle(1.0), monitors=[spy], seed=seed, nthreads=None, nham=mix[1], nsl=mix[2],
                          nlive=sum(mix) + 1, maxmcmc=6, sched=False, resume=False)
    finally: S.CPUS = 2
    R.check_ends(sim, p)
    identity(sim, spy, mix, c, 'run on %d processors' % sum(mix))
    ch.outcome = case
    ch.state(case)


class At:
    """Signals at the k-th point only."""
    def __init__(self, k, every=1): self.k, self.n = k, 0
    def __call__(self, sim, p):
        o = R.main_signals(sim, p)
        if not o or o[0][0].startswith('late'): return []
        self.n += 1
        return o if self.n == self.k else []



def resume_run(case, ch):
    mix, k, which, keep, mix2 = case
    n = sum(mix)
    kw = dict(nthreads=n, nham=mix[1], nsl=mix[2], nlive=n + 2, maxmcmc=6)
    out = R.fresh()
    spy = Spy()
    model = R.Model('flat')
    sim, p, c = R.run(R.Default(ch, which), model, out, before=settle(0.3), monitors=[spy], resume=True, signals=At(k), sched=False, **kw)
    R.check_ends(sim, p)
    # interrupted at the very beginning, it need not have started all its samplers
    if p.exitcode != 130 or len(spy.w) >= n: identity(sim, spy, mix, c, 'interrupted run')
    if p.exitcode != 130: return               # the run had ended before
    left = {}
    for w in spy.w:
        s = w['obj']
        left[w['file']] = dict(type=w['type'], pool=pool(s), counter=s.mcmc_counter, accepted=s.mcmc_accepted, init=s.initialised, nmcmc=s.Nmcmc)
        if not os.path.exists(os.path.join(out, w['file'])):
            raise Violation('interrupted sampler has left no checkpoint %s' % w['file'], key='no-checkpoint')
    names = sorted(left)
    for i, f in enumerate(names):
        if not keep >> i & 1: os.remove(os.path.join(out, f))
    if not keep >> len(names) & 1:
        f = os.path.join(out, 'nested_sampler_resume.pkl')
        if os.path.exists(f): os.remove(f)
    kept = {f: left[f] for i, f in enumerate(names) if keep >> i & 1}
    spy2 = Spy()
    m2 = mix2 or mix
    n2 = sum(m2)
    kw.update(nthreads=n2, nham=m2[1], nsl=m2[2])
    sim2, p2, c2 = R.run(R.Default(ch), model, out, before=settle(0.8), monitors=[spy2], resume=True, sched=False, simseed=5, **kw)
    R.check_ends(sim2, p2)
    identity(sim2, spy2, m2, c2, 'resumed run')
    for i, w in enumerate(spy2.w):
        old = kept.get(w['file'])
        if old is None:
            if w['init'] or w['pool']: raise Violation('sampler %d is not new although it has no checkpoint' % i, key='fresh')
        elif (w['type'], w['pool'], w['counter'], w['accepted'], w['init'], w['obj'].Nmcmc) [:5] != (old['type'], old['pool'], old['counter'], old['accepted'], old['init']):
            raise Violation('sampler %d (%s) was not restored from the checkpoint it wrote' % (i, w['file']), key='restore')
    if mix2 is None:
        for t in TYPES.values():
            a = sorted(f for f in kept if kept[f]['type'] is t)
            b = sorted(w['file'] for w in spy2.w if w['type'] is t and w['file'] in kept)
            if a != b: raise Violation('checkpoints %r of %s were not used, %r were' % (a, t.__name__, b), key='restore')
    ch.outcome = (case, p2.exitcode)
    ch.state((mix, keep, tuple(tuple(w['pool']) for w in spy2.w)))


def main(ctx):
    q = ctx.quick
    ctx.for_all('new runs', fresh_run, [(m, s, pr) for m in mixes(4 if q else 6) for s in (None, 0, 1, 1234) for pr in ((False,) if q else (False, True))
                                        ] + [(m, 7, True) for m in mixes(3)] + [(m, s, False) for m in ((12, 0, 0), (0, 12, 0), (0, 0, 12), (5, 4, 3), (1, 9, 1)) for s in (None, 1)], budget=ctx.budget(100, 600),
                rule='every mix of 1-4 (1-6) samplers, some of up to 12, seeds; each run three times')
    ctx.for_all('many seeds', seeds_run, [(m, (0, 1, 2, 3, 10, 17, 99, 100, 1000, 1234, 5000, 65536, 10 ** 6, 2 ** 31 - 9, 2 ** 31, 2 ** 32 - 9)) for m in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)]],
                rule='16 seeds, every type of sampler')
    ctx.for_all('one per processor', auto_run, [(m, s) for m in mixes(4 if q else 6) for s in (None, 1)], rule='nthreads=None on 1-4 (1-6) processors, every mix')
    rs = []
    for m in mixes(3 if q else 4):
        n = sum(m)
        for k in ((25, 400) if q else (1, 25, 60, 150, 400, 700)):
            for which in (0, 1):
                for keep in range(1 << (n + 1)): rs.append((m, k, which, keep, None))
    ctx.for_all('resumed runs', resume_run, rs, budget=ctx.budget(120, 1500),
                rule='every mix, interrupt early and late, by main or all; every subset of checkpoint files')
    ch = [(m, k, 0, (1 << (sum(m) + 1)) - 1, m2) for m in mixes(3) for m2 in mixes(3) if m2 != m for k in ((300,) if q else (25, 300, 500))]
    ctx.for_all('other mix', resume_run, ch, budget=ctx.budget(120, 900), rule='resumed with another mix of samplers')
    ctx.explore_cases('schedules', sched_run, [(2, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)] if q else mixes(3), bound=1,
                      budget=ctx.budget(60, 600), rule='resumed runs under every schedule with one preemption')


def sched_run(case, ch):
    """Interrupt late, resume; the resumed run under all schedules."""
    mix = case
    n = sum(mix)
    kw = dict(nthreads=n, nham=mix[1], nsl=mix[2], nlive=n + 2, maxmcmc=6)
    out = R.fresh()
    model = R.Model('flat')
    sim, p, c = R.run(R.Default(ch, 0), model, out, before=settle(0.6), resume=True, signals=At(300), sched=False, **kw)
    spy = Spy()
    sim2, p2, c2 = R.run(ch, model, out, before=settle(1.0), monitors=[spy], resume=True, simseed=5, **kw)
    R.check_ends(sim2, p2)
    identity(sim2, spy, mix, c2, 'resumed run')
    ch.outcome = (case, p.exitcode)

from mc import simrun as R, sim as S
from mc import wenv as W, nscheck, nsenv, rng
from mc.wenv import PRm
from mc.bomb import Bomb
from mc.explore import Violation
from mc.nsenv import INF, ident, CPm, NSm
from mc.nscheck import close
from checks.c12 import Feed, Env, build, again, observe, same, diff, files, proposal, Drv, acts, wstate
import collections, contextlib, math, os, pickle
import numpy as np
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of interrupt points: a signal before every bytecode instruction of the main loop and of each sampler, and at every '
             'scheduling point of complete runs under a controlled scheduler, followed by resuming; states compared with those of the uninterrupted run')
NOTE = 'Every instruction of short runs of each kind; one, two or three interruptions in a row of complete runs.'
ASSUME = ['the signal handler is the one CPNest.run installs', 'one signal per run; a second one while the first is handled is not modelled',
          'not inside the two instructions between taking a lock and entering the with block']


# ---- the main loop -------------------------------------------------------------------------------------------------
def ns_case(case, ch):
    N, n, tol, pop, free, interval, part, parts, verbose = case
    d = nscheck.workdir()
    feed = Feed(ch, N, pop, free)
    # the uninterrupted run, and its state after each step
    bounds = []
    with rng.using(rng.Stream(0)):
        e = build(N, n, tol, d, feed)
        e.verbose = verbose
        e.make()
        e.run()
    base, bfiles = observe(e.ns), files(d)
    answers = list(feed.rec)
    populated = min(t for t in range(len(answers) + 1) if sum(1 for a in answers[:t] if a > -INF) >= N)

    def fresh(k):
        feed.pos = 0
        with rng.using(rng.Stream(0)):
            x = build(N, n, tol, d, feed)
            x.verbose = verbose
            x.manager.periodic_checkpoint_interval = interval
            x.make()
        f = x.ns.resume_file
        if os.path.exists(f): os.remove(f)
        b = Bomb(k, CPm.sighandler)
        how = 'end'
        try:
            with open(os.devnull, 'w') as null, contextlib.redirect_stderr(null), rng.using(rng.Stream(0)), b: x.ns.nested_sampling_loop()
        except SystemExit as s: how = s.code
        except CPm.CheckPoint: how = 'out'
        return x, b, how, f
    # states at the boundaries of the steps, by checkpoints after every step
    feed.pos = 0
    with rng.using(rng.Stream(0)):
        x = build(N, n, tol, d, feed)
        x.verbose = verbose
        x.manager.periodic_checkpoint_interval = -1
        x.make()
        f = x.ns.resume_file
        if os.path.exists(f): os.remove(f)
        marks, last, orig = [], [None], x.on_recv
        # the state before the first step: a signal at its very beginning
        def mark():
            b = open(f, 'rb').read() if os.path.exists(f) else None
            if b is not None and b != last[0]:
                last[0] = b
                marks.append((b, feed.pos, x.uid))
        def recv(i):
            mark()
            return orig(i)
        x.on_recv = recv
        x.run()
        mark()
    states = []
    for b, pos, uid in marks:
        open(f, 'wb').write(b)
        states.append((visible(again(e, f, n, feed, uid).ns), pos, uid))
    e0 = Env(N, n, d, stopping=tol, answers=lambda env, i, req: (feed.next(env.manager.logLmin.value), -0.5))
    e0.verbose = verbose
    feed.pos = 0
    with rng.using(rng.Stream(0)):
        e0.make()
        e0.ns.reset()
        start = visible(e0.ns)
    states.insert(0, (start, populated, e0.uid))
    ch.state((N, n, tuple(answers)))
    # a signal before every instruction
    x, b, how, f = fresh(0)
    total = b.n
    if how != 'end' or total < 50: raise RuntimeError('traced run ended with %r after %d instructions' % (how, total))
    lo, hi = part * total // parts + 1, (part + 1) * total // parts
    for k in range(lo, hi + 1):
        x, b, how, f = fresh(k)
        ch.step()
        what = 'signal at instruction %d of %d, %s' % (k, total, b.where)
        if how == 'end': raise Violation('%s: ignored' % what, key='ignored')
        looping = 'consume_sample' in b.stack
        if not os.path.exists(f):
            # before the first or after the last step the run starts again from the beginning
            if looping: raise Violation('%s: no checkpoint was written' % what, key='no-checkpoint')
            if how != 'out': raise Violation('%s: ended with %r without a checkpoint' % (what, how), key='status')
            continue
        if how not in (130, 'out'): raise Violation('%s: the run ended with status %r' % (what, how), key='status')
        if looping and how != 130: raise Violation('%s: the loop did not handle it' % what, key='status')
        if how == 130 and x.ckpt != [1] * n: raise Violation('%s: the workers got %r requests for a checkpoint' % (what, x.ckpt), key='workers')
        r = again(e, f, n, feed, 0)
        v = visible(r.ns)
        js = [j for j, s in enumerate(states) if same(v, s[0])]
        if not js:
            near = min(range(len(states)), key=lambda j: abs(len(states[j][0]['chain']) - len(v['chain'])))
            bad = [q for q in v if not same(v[q], states[near][0][q])]
            raise Violation('%s: the state after resuming is not that of the end of a step: %s' % (what, '; '.join('%s is %s instead of %s' % (
                q, str(v[q])[:120], str(states[near][0][q])[:120]) for q in bad)), key='state')
        j = js[-1]
        if looping and how == 130:
            done = sum(1 for t in x.trace if t[0] == 'ans' and t[4] is not None and t[3] > t[5]) - N
            if j not in (done // n - 1, done // n): raise Violation('%s: resumed at step %d of %d' % (what, j, done // n), key='lost')
        # to the end
        feed.pos = states[j][1]
        r.uid = states[j][2]
        r.manager.logLmax.value = max([-INF] + answers[:states[j][1]])
        with rng.using(rng.Stream(1)):
            try: r.ns.nested_sampling_loop()
            except SystemExit as s: raise Violation('%s: the resumed run stopped with %r' % (what, s.code), key='resumed')
        diff(base, observe(r.ns), what, 'final')
        if files(d) != bfiles: raise Violation('%s: the output files differ' % what, key='final:files')
    ch.outcome = (N, n, interval, len(states))


def visible(ns):
    o = observe(ns)
    for k in ('condition', 'acceptance', 'thresholds'): o.pop(k, None)
    return o


# ---- the samplers --------------------------------------------------------------------------------------------------
class Jump(PRm.EnsembleProposal):
    """Jumps anywhere; cheap enough to be interrupted everywhere."""
    log_J = 0.0
    def __init__(self, model): self.model, self.proposals = model, [self]
    def update_time_step(self, a): pass
    def update_trajectory_length(self, n): pass
    def get_sample(self, old, logLmin=None, **k):
        new = old.copy()
        for j in range(new.dimension): new.values[j] = np.random.uniform(0.01, 0.99)
        if logLmin is not None:
            new.logP = self.model.log_prior(new)
            new.logL = self.model.log_likelihood(new)
            self.log_J = 0.0 if new.logP > -INF else -INF
        return new
    def get_direction(self, mu=1.0, **k): return np.array([mu * np.random.uniform(0.1, 1.0) for _ in self.ensemble[0].names])


def worker_case(case, ch):
    kind, mk, real, poolsize, maxmcmc, turns, interval, where, every, part, parts = case
    model = W.Model(mk, dim=2, hole=(0.3, 0.45), limit=10 ** 7)
    seed = 1
    out = nscheck.workdir()

    def go(k, sites=None):
        drv = Drv(model, acts(list(turns), 'none'), nlive=2, seed=seed)
        src = rng.Stream(seed)
        with rng.using(src):
            s = W.worker(kind, model, drv, proposal(kind, model, real) if real else Jump(model), poolsize=poolsize, maxmcmc=maxmcmc, seed=seed, out=out)
            drv.m.periodic_checkpoint_interval = interval
            if os.path.exists(s.resume_file): os.remove(s.resume_file)
            if where == 'life': s.reset()
            b = Bomb(k, CPm.sighandler, sites)
            how = 'end'
            try:
                with b: s.produce_sample()
            except SystemExit as x: how = x.code
            except CPm.CheckPoint: how = 'out'
        return drv, s, b, how
    sites = {}
    drv, s, b, how = go(0, sites)
    total = b.n
    if how != 'end': raise RuntimeError('traced life ended with %r' % how)
    # every instruction executed, or only the first and the last time each instruction of the package is executed
    ks = list(range(1, total + 1)) if every else sorted({k for p in sites.values() for k in p})
    for k in ks[part::parts]:
        drv, s, b, how = go(k)
        ch.step()
        what = '%s, signal at instruction %d of %d, %s' % (kind, k, total, b.where)
        outer = len(b.stack) == 1            # not yet inside, or already outside again
        if how == 'out':
            if not outer: raise Violation('%s: the sampler fails' % what, key='worker:fails')
            if k > 20 and not drv.ended: raise Violation('%s: the sampler fails' % what, key='worker:fails')
            continue
        if how not in ('end', 0, None, 130): raise Violation('%s: the sampler ends with status %r' % (what, how), key='worker:status')
        f = s.resume_file
        if not os.path.exists(f):
            if drv.ended and outer: continue
            raise Violation('%s: no checkpoint was written' % what, key='worker:file')
        d2 = Drv(model, acts(['idle', 'request', 'request', 'request', 'idle', 'request'], 'none'), nlive=2, seed=5)
        src = rng.Stream(7)
        with rng.using(src):
            r = W.TYPES[kind].resume(f, d2.m, model)
            d2.worker, d2.interrupted = r, True
            check_pool(r, model, poolsize, what)
            W.life(r, d2)
        if len(d2.answers) != 4: raise Violation('%s: %d answers to 4 requests after resuming' % (what, len(d2.answers)), key='worker:answers')
        check_pool(r, model, poolsize, what + ', after some answers')
        if not r.initialised or len(r.evolution_points) < poolsize - 1: raise Violation('%s: the pool has %d of %d points' % (what, len(r.evolution_points), poolsize), key='worker:pool')
    ch.state((kind, mk, real, total))
    ch.outcome = (kind, mk, real, where, total)


def check_pool(r, model, n, what):
    if len(r.evolution_points) > n or r.evolution_points.maxlen != n: raise Violation('%s: the pool has %d points' % (what, len(r.evolution_points)), key='worker:pool')
    if r.initialised and len(r.evolution_points) < n - 1: raise Violation('%s: the pool has %d points' % (what, len(r.evolution_points)), key='worker:pool')
    for p in r.evolution_points:
        v = list(p.values)
        if model.prior(v) == -INF: raise Violation('%s: a point without prior in the pool' % what, key='worker:pool')
        if p.logL != -INF and not W.same(p.logL, model.value(v)): raise Violation('%s: the pool holds %r with likelihood %r' % (what, v, p.logL), key='worker:pool')


# ---- complete runs -------------------------------------------------------------------------------------------------
class Handed:
    """The points the workers hand over, and what main makes of the checkpoint."""
    def __init__(self): self.pts = {}
    def __call__(self, sim, what):
        if what[0] == 'send' and what[3] is not None and what[3].idx != 0:
            p = what[2][3]
            v = tuple(p.values)
            self.pts[v] = self.pts.get(v, 0) + 1
    def check(self, points, what):
        """Nothing more often than it was handed over."""
        for v, n in collections.Counter(points).items():
            if v not in self.pts: raise Violation('%s: a point which no sampler has handed over' % what, key='run:origin')
            if n > self.pts[v]: raise Violation('%s: a point %d times, handed over %d times' % (what, n, self.pts[v]), key='run:twice')


def settle(tol, interval):
    def f(sim, c): c.NS.tolerance = tol
    return f


def load(out):
    """What the checkpoint of the main process holds."""
    f = os.path.join(out, 'nested_sampler_resume.pkl')
    if not os.path.exists(f): return None
    with open(f, 'rb') as g: o = pickle.load(g)
    return dict(chain=[tuple(p.values) for p in o.nested_samples], live=[tuple(p.values) for p in o.params], logL=[p.logL for p in o.params],
                iteration=o.iteration, idx=len(o.insertion_indices))


def judge(model, c, handed, N, n, saved, what):
    ns = c.NS
    chain = [tuple(p.values) for p in ns.nested_samples]
    L = [float(p.logL) for p in ns.nested_samples]
    handed.check(chain, what + ': the chain holds')
    if L != sorted(L): raise Violation('%s: the chain is not ordered' % what, key='run:order')
    for p, v in zip(ns.nested_samples, chain):
        if p.logL != model.value(p.values[0]): raise Violation('%s: wrong likelihood in the chain' % what, key='run:logL')
    if (len(chain) - N) % n or len(chain) < N + n: raise Violation('%s: %d points in the chain for %d live points and %d workers' % (what, len(chain), N, n), key='run:count')
    steps = (len(chain) - N) // n
    if len(ns.insertion_indices) != steps * n or any(not 0 <= i <= 1 for i in ns.insertion_indices if i == i):
        raise Violation('%s: %d insertion indices for %d replacements: %r' % (what, len(ns.insertion_indices), steps * n, ns.insertion_indices), key='run:index')
    ref = nsenv.RefNS(N, n, 0.1)
    for k in range(steps): ref.integrate(L[n * k + n - 1], -n / N)
    ref.live = list(zip(chain, L))[steps * n:]
    ref.finish()
    if not close(ns.logZ, ref.logZ): raise Violation('%s: evidence %r instead of %r' % (what, ns.logZ, ref.logZ), key='run:logZ')
    if not close(ns.state.info, ref.H, 1e-7): raise Violation('%s: information %r instead of %r' % (what, ns.state.info, ref.H), key='run:info')
    with open(ns.evidence_file) as f: ev = f.read().split('\n')[1].split()
    if abs(float(ev[0]) - ref.logZ) > 6e-6 or float(ev[1]) < max(L) - 6e-6: raise Violation('%s: evidence file says %r' % (what, ev), key='run:file')
    with open(ns.output_file) as f:
        rows = [[float(t) for t in l.split()] for l in f.read().split('\n')[1:] if l]
    if len(rows) != len(chain) or any(abs(r[0] - v[0]) > 1e-9 * max(1, abs(v[0])) + 1e-12 for r, v in zip(rows, chain)):
        raise Violation('%s: the chain file does not hold the chain' % what, key='run:file')
    for s in saved:
        if s is None: continue
        if chain[:len(s['chain'])] != s['chain']: raise Violation('%s: the chain before the interruption is not its beginning' % what, key='run:prefix')
        left = collections.Counter(s['live']) - collections.Counter(chain[len(s['chain']):])
        if left: raise Violation('%s: live points were lost: %r' % (what, left), key='run:lost')


def run_case(case, ch):
    mix, N, stops, tol, interval, which = case
    n = sum(mix)
    out = R.fresh()
    model = R.Model('flat')
    handed = Handed()
    kw = dict(nthreads=n, nham=mix[1], nsl=mix[2], nlive=N, maxmcmc=2, poolsize=4, resume=True, sched=False, monitors=[handed], interval=interval)
    saved, story = [], []
    for t in range(stops + 1):
        k = [0]

        def sig(sim, p, k=k):
            o = R.main_signals(sim, p)
            return [x for x in o if (x[0].endswith('main') if which == 'main' else x[0].endswith('all'))]
        sim, p, c = R.run(ch, model, out, signals=sig if t < stops else None, before=settle(tol, interval), simseed=t, **kw)
        R.check_ends(sim, p)
        got = [x for x in sim.trace if x[0] == 'signal']
        story.append('%s at %s' % (got[0][1], got[0][2]) if got else 'no signal')
        what = '; '.join(story)
        if not got:
            judge(model, c, handed, N, n, saved, what)
            break
        if p.exitcode != 130:
            # the signal came too late to matter
            if p.exitcode == 0 and sim.box['phase'] == 'done':
                judge(model, c, handed, N, n, saved, what)
                break
            raise Violation('%s: main ended with status %r' % (what, p.exitcode), key='run:status')
        s = load(out)
        if s is None:
            if saved and saved[-1] is not None: raise Violation('%s: the checkpoint is gone' % what, key='run:gone')
            if c.NS.initialised and c.NS.condition > c.NS.tolerance and c.NS.iteration > n and not got[0][1].startswith('late'):
                raise Violation('%s: no checkpoint of the main process' % what, key='run:no-checkpoint')
        else:
            if len(s['live']) != N: raise Violation('%s: the checkpoint holds %d live points' % (what, len(s['live'])), key='run:live')
            handed.check(s['live'] + s['chain'], what + ': the checkpoint holds')
            if len(s['chain']) != s['iteration'] or s['idx'] != s['iteration']: raise Violation('%s: checkpoint in the middle of a step: %r' % (what, (len(s['chain']), s['iteration'], s['idx'])), key='run:step')
            if s['logL'] != sorted(s['logL']): raise Violation('%s: live points out of order' % what, key='run:live')
        saved.append(s)
    ch.state((case, tuple(story), tuple(len(s['chain']) if s else -1 for s in saved)))
    ch.outcome = (mix, tuple(story))


def main(ctx):
    q = ctx.quick
    P = (0.0, 1.0)
    ns = []
    for N, n, tol, free, interval, verbose in ([(3, 2, 1.0, 0, -1, 0), (2, 1, 1.5, 0, INF, 0), (3, 1, 1.0, 0, INF, 1)] if q else
                                      [(3, 2, 1.0, 1, -1, 0), (2, 1, 1.5, 2, INF, 0), (3, 2, 1.0, 1, INF, 1), (4, 3, 1.0, 1, -1, 0), (4, 1, 1.0, 0, INF, 0), (5, 2, 0.6, 0, -1, 1)]):
        parts = 8
        ns += [(N, n, tol, P if not q else (1.0,), free, interval, p, parts, verbose) for p in range(parts)]
    ctx.explore_cases('main loop', ns_case, ns, bound=0 if q else 1, budget=ctx.budget(120, 1500), rule='a signal before every instruction executed in the package, then resumed to the end')
    ws = []
    for kind in ('mhs', 'sli', 'hmc'):
        for real in (False, True):
            for interval in (INF, -1):
                for where in ('life', 'reset'):
                    if kind == 'hmc' and real and q and (where == 'reset' or interval == -1): continue
                    ps, mm = (16, 4) if kind == 'hmc' else (4, 2)
                    # the cheap ones at every instruction
                    every = not real and where == 'life' and interval == INF if q else not real or kind != 'hmc'
                    if q and interval == -1 and not every and real: continue
                    parts = 32 if every or kind == 'hmc' else 8
                    turns = ('request', 'idle', 'request') if where == 'life' else ('request',)
                    ws += [(kind, 'quad', real, ps, mm, turns, interval, where, every, p, parts) for p in range(parts)]
    ctx.explore_cases('samplers', worker_case, ws, budget=ctx.budget(200, 3000), rule='a signal before every instruction executed in the package, then resumed and asked for four samples')
    rs = []
    for mix in [(1, 0, 0), (2, 0, 0), (1, 1, 0), (1, 0, 1)] + ([] if q else [(0, 1, 0), (0, 0, 1), (2, 1, 0), (1, 1, 1)]):
        for which in ('main', 'all'):
            for interval in (None, 0.0):
                rs.append((mix, sum(mix) + 1, 1, 1.0, interval, which))
    ctx.explore_cases('complete runs', run_case, rs, bound=1, budget=ctx.budget(200, 1500), rule='a signal at every scheduling point, then resumed to the end')
    rs = [((1, 0, 0), 2, 2, 1.5, None, w) for w in ('main', 'all')]
    if not q: rs += [((1, 0, 0), 2, 3, 1.5, None, 'main'), ((2, 0, 0), 3, 2, 1.5, None, 'main'), ((0, 0, 1), 2, 2, 1.5, None, 'all')]
    ctx.explore_cases('several interruptions', run_case, rs, bound=2 if q else 3, budget=ctx.budget(200, 3000), rule='signals at all pairs (triples) of scheduling points of successive runs')

from mc import wenv as W, nscheck, nsenv, rng
import collections, copy, os, pickle, random, shutil
import numpy as np
from mc.explore import Violation
from mc.nsenv import INF, ident, CPm, NSm
from mc.nscheck import close
from checks.c07 import Grid
LEVEL = 'model_checking'
TECHNIQUE = ('differential exploration: for every answer sequence a checkpoint is taken at every step (periodic, on a signal, by message or flag), restored, '
             'and the rest of the run compared with the run that never stopped')
NOTE = ('Real nested sampler against scripted workers and real samplers of each type against a scripted main process; every stop position and every pair of stops '
        'of every explored run, also with another number of workers after resuming (judged by a reference sampler). Runs of hundreds of steps are stopped at six places.')
ASSUME = ['the same random numbers follow in both runs (a resumed process really draws from a new stream)',
          'the refresh of the proposal ensemble starts a new period on resuming; compared with periods of one turn and at the ends of longer periods']


# ---- the nested sampler --------------------------------------------------------------------------------------------
class Stop(Exception):
    pass


class Feed:
    """Answers of the workers: chosen relative to the live set by the explorer, or replayed from a list."""
    def __init__(self, ch, N, pop, free, rejects=1):
        self.ch, self.N, self.pop, self.free, self.rejects = ch, N, pop, free, rejects
        self.rec, self.pos = [], 0
        self.live, self.acc, self.rej, self.valid = [], 0, 0, 0

    def next(self, thr):
        if self.pos < len(self.rec):
            self.pos += 1
            return self.rec[self.pos - 1]
        a = self.make(thr)
        self.rec.append(a)
        self.pos += 1
        return a

    def make(self, thr):
        ch, L = self.ch, None
        if self.valid < self.N:
            self.valid += 1
            L = self.pop[ch.choose(len(self.pop), 'pop')] if self.valid <= 3 else self.pop[self.valid % len(self.pop)]
        else:
            top = max(self.live)
            cur = sorted(x for x in self.live if x > thr)
            nxt = cur[0] if cur else thr + 1
            if self.rej < self.rejects and ch.choose(2, 'reject', dev=True):
                self.rej += 1
                return thr
            self.rej = 0
            k = ch.choose(3, 'ans') if self.acc < self.free else 2
            self.acc += 1
            L = (thr + 0.25 * (nxt - thr), top if top > thr else thr + 1, top + 0.5)[k]
            if self.acc > self.free: L = max(top, thr) + 1e-6
        self.live.append(L); self.live.sort()
        for r in [r for r in self.live if r <= thr]:
            if len(self.live) > self.N: self.live.remove(r)
        return L


class Env(nsenv.Env):
    """Notes every operation on the pipes; a signal may arrive at the k-th."""
    stop_at, n_ops, on_step = None, 0, None
    def op(self):
        self.n_ops += 1
        if self.stop_at is not None and self.n_ops == self.stop_at:
            self.stop_at = None
            raise CPm.CheckPoint()
    def on_send(self, i, o):
        if self.stop_at is not None and not isinstance(o, str): self.op()
        elif not isinstance(o, str): self.n_ops += 1
        return nsenv.Env.on_send(self, i, o)
    def on_recv(self, i):
        self.op()
        return nsenv.Env.on_recv(self, i)


def build(N, n, tol, d, feed):
    e = Env(N, n, d, stopping=tol, answers=lambda env, i, req: (feed.next(env.manager.logLmin.value), -0.5))
    return e


def again(e0, file, n, feed, uid):
    """A new process resumes from file; its environment continues that of e0."""
    e = Env(e0.N, n, e0.outdir, stopping=e0.stopping, answers=lambda env, i, req: (feed.next(env.manager.logLmin.value), -0.5))
    e.uid, e.lead = uid, e0.lead
    e.ns = NSm.NestedSampler.resume(file, e.manager, nsenv.Model())
    return e


OBS = ('logZ', 'iteration', 'accepted', 'rejected', 'acceptance', 'condition', 'insertion_indices', 'Nlive', 'tolerance', 'prior_sampling', 'seed')


def observe(ns):
    o = {k: getattr(ns, k) for k in OBS if hasattr(ns, k)}
    o['chain'] = [(ident(p), float(p.logL), float(p.logP)) for p in ns.nested_samples]
    o['live'] = [(ident(p), float(p.logL)) for p in ns.params if p is not None]
    o['state'] = (ns.state.logZ, ns.state.info, ns.state.logw, ns.state.iteration, list(ns.state.logLs), list(ns.state.log_vols))
    o['thresholds'] = (ns.logLmin.value, ns.logLmax.value)
    return o


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(a, np.ndarray): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


def diff(a, b, what, key):
    for k in a:
        if not same(a[k], b.get(k)):
            raise Violation('%s: %s is %s instead of %s' % (what, k, str(b.get(k))[:150], str(a[k])[:150]), key=key + ':' + k)


def files(d):
    return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith('.txt')}


def play(e):
    """Run to the end or to the interrupt.  True if it was interrupted."""
    try: e.ns.nested_sampling_loop()
    except SystemExit as x:
        if x.code != 130: raise Violation('the interrupted run ended with status %r' % x.code, key='status')
        return True
    return False


def ns_run(case, ch):
    N, n, tol, pop, free, pairs = case
    d = nscheck.workdir()
    feed = Feed(ch, N, pop, free)
    # the run that never stops and never writes a checkpoint
    with rng.using(rng.Stream(0)):
        e = build(N, n, tol, d, feed)
        e.make()
        first = len(feed.rec)
        e.run()
    base, bfiles, reqs = observe(e.ns), files(d), [(t[0], t[1], t[3], t[4]) for t in e.trace if t[0] == 'req']
    total = e.n_ops
    answers = list(feed.rec)
    ch.state((N, n, tuple(answers)))
    ch.step(len(answers))
    # the same with a checkpoint after every step
    feed.pos = 0
    with rng.using(rng.Stream(0)):
        e1 = build(N, n, tol, d, feed)
        e1.manager.periodic_checkpoint_interval = -1
        e1.make()
        marks, tops = [], []
        orig, f = e1.on_recv, e1.ns.resume_file
        last = [None]

        def recv(i):
            b = open(f, 'rb').read() if os.path.exists(f) else None
            if b is not None and b != last[0]:
                last[0] = b
                marks.append((b, feed.pos, e1.uid)); tops.append((e1.manager.logLmax.value, [t for t in e1.trace if t[0] == 'ans'][-1][5]))
            return orig(i)
        e1.on_recv = recv
        e1.run()
        b = open(f, 'rb').read() if os.path.exists(f) else None
        if b is not None and b != last[0]: marks.append((b, feed.pos, e1.uid)); tops.append((e1.manager.logLmax.value, [t for t in e1.trace if t[0] == 'ans'][-1][5]))
    diff(base, observe(e1.ns), 'run with a checkpoint after every step', 'changes')
    if files(d) != bfiles: raise Violation('with checkpoints the output files differ', key='changes:files')
    if not marks: raise Violation('no checkpoint was written although the interval had passed', key='periodic')
    steps = (len([a for a in base['chain']]) - N) // n
    if len(marks) != steps: raise Violation('%d steps but %d different checkpoints' % (steps, len(marks)), key='periodic')
    # restore each of them
    for k, (b, pos, uid) in enumerate(marks):
        resumed(ch, e, d, b, pos, uid, n, feed, base, bfiles, 'resumed after step %d of %d' % (k + 1, steps), marks[k + 1:] if pairs else (), thr=tops[k][1])
        open(f, 'wb').write(b)
        ch.step()
    # a signal at every operation on the pipes after the population
    populated = min(t for t in range(len(answers) + 1) if sum(1 for a in answers[:t] if a > -INF) >= N)
    stops = list(range(1, total + 1))
    for k in stops:
        feed.pos = 0
        with rng.using(rng.Stream(0)):
            e2 = build(N, n, tol, d, feed)
            e2.make()
            if os.path.exists(f): os.remove(f)
            e2.stop_at = k
            started = []
            try: stopped = play(e2)
            except CPm.CheckPoint: continue             # outside the main loop: not its business
            if not stopped: continue                    # the signal was used up outside
        if e2.ckpt != [1] * n: raise Violation('interrupted at operation %d: the workers got %r checkpoint requests' % (k, e2.ckpt), key='workers')
        if not os.path.exists(f): raise Violation('interrupted at operation %d of the pipes: no checkpoint was written' % k, key='missing')
        b = open(f, 'rb').read()
        done = (len(e2.ns.nested_samples)) // n         # complete steps
        pos = marks[done - 1][1] if done else populated
        uid = pos
        resumed(ch, e, d, b, pos, uid, n, feed, base, bfiles, 'interrupted at operation %d of the pipes (step %d)' % (k, done + 1), (),
                lmax=(e2.manager.logLmax.value, tops[done - 1][0] if done else max(answers[:populated])), thr=e2.manager.logLmin.value)
        ch.step()
    ch.outcome = (N, n, len(answers))


def resumed(ch, e, d, b, pos, uid, n, feed, base, bfiles, what, then, lmax=None, thr=None):
    f = os.path.join(d, 'nested_sampler_resume.pkl')
    open(f, 'wb').write(b)
    for x in bfiles: os.remove(os.path.join(d, x)) if x != 'header.txt' and os.path.exists(os.path.join(d, x)) else None
    feed.pos = pos
    with rng.using(rng.Stream(1)):
        r = again(e, f, n, feed, uid)
        if not r.ns.logLmin.value == r.manager.logLmin.value or r.ns.logLmax.value != r.manager.logLmax.value:
            raise Violation('%s: the thresholds are not the shared ones' % what, key='shared')
        if r.manager.logLmin.value != thr: raise Violation('%s: threshold %r instead of %r' % (what, r.manager.logLmin.value, thr), key='threshold')
        if lmax is not None:
            # what the workers found in the interrupted step is known: it may end the run earlier, so it is taken back here
            if r.manager.logLmax.value != lmax[0]: raise Violation('%s: largest likelihood %r instead of %r' % (what, r.manager.logLmax.value, lmax[0]), key='logLmax')
            r.manager.logLmax.value = lmax[1]
        if play(r): raise Violation('%s: it stopped by itself' % what, key='stopped')
    diff(base, observe(r.ns), what, 'resume')
    if files(d) != bfiles: raise Violation('%s: the output files differ' % what, key='resume:files')
    # stop again, later
    for b2, pos2, uid2 in then:
        feed.pos = pos
        open(f, 'wb').write(b)
        with rng.using(rng.Stream(1)):
            r = again(e, f, n, feed, uid)
            r.manager.periodic_checkpoint_interval = -1
            orig = r.on_recv

            def recv(i):
                if feed.pos == pos2 and not hasattr(r, 'cut'):
                    r.cut = True
                    raise Stop()
                return orig(i)
            r.on_recv = recv
            try: play(r)
            except Stop: pass
            else: continue
            feed.pos = pos2
            r2 = again(e, f, n, feed, uid2)
            if play(r2): raise Violation('%s, and again: it stopped by itself' % what, key='stopped')
        diff(base, observe(r2.ns), '%s, and again later' % what, 'resume2')
        ch.step()


def other_n(case, ch):
    """Resumed with another number of workers: the reference sampler goes on with that number."""
    N, n, m, tol, pop, free = case
    d = nscheck.workdir()
    feed = Feed(ch, N, pop, free, rejects=0)
    at = ch.choose(4, 'steps before the stop') + 1
    with rng.using(rng.Stream(0)):
        e = build(N, n, tol, d, feed)
        e.manager.periodic_checkpoint_interval = -1
        e.make()
        f = e.ns.resume_file
        orig = e.on_recv
        b = [None, 0]

        def recv(i):
            x = open(f, 'rb').read() if os.path.exists(f) else None
            if x != b[0]: b[0] = x; b[1] += 1
            if b[1] == at: raise Stop()
            return orig(i)
        e.on_recv = recv
        try: e.run()
        except Stop: pass
        else: return
        r = again(e, f, m, feed, e.uid)
        r.trace = []
        play(r)
    # reference
    ref = nsenv.RefNS(N, n, tol)
    ans = [t for t in e.trace if t[0] == 'ans']
    ref.populate([(t[2], t[3]) for t in ans[:N]])
    conds = [INF]

    def go(ans, k):
        ref.n = k
        j = 0
        while j < len(ans):
            ref.begin(ans[j][6])
            conds.append(ref.cond)
            got = 0
            while got < k:
                if j >= len(ans): raise Violation('the run stopped in the middle of a step', key='other:half')
                t = ans[j]; j += 1
                if t[5] != ref.thr: raise Violation('%d workers then %d: threshold %r instead of %r' % (n, m, t[5], ref.thr), key='other:threshold')
                if t[3] > ref.thr: ref.accept((t[2], t[3])); got += 1
    go(ans[N:], n)
    go([t for t in r.trace if t[0] == 'ans'], m)
    ref.finish()
    what = '%d workers, after step %d %d workers' % (n, at, m)
    chain = [(ident(p), float(p.logL)) for p in r.ns.nested_samples]
    if chain != [(q[0], q[1]) for q in ref.dead]: raise Violation('%s: the chain is not the one of the answers' % what, key='other:chain')
    if not close(r.ns.logZ, ref.logZ): raise Violation('%s: evidence %r instead of %r' % (what, r.ns.logZ, ref.logZ), key='other:logZ')
    if not close(r.ns.state.info, ref.H, 1e-7): raise Violation('%s: information %r instead of %r' % (what, r.ns.state.info, ref.H), key='other:info')
    idx = [i for i in r.ns.insertion_indices if i == i]
    want = [i for i in ref.idx if i == i]
    if len(idx) != len(want) or any(abs(a - b) > 1e-12 for a, b in zip(idx, want)): raise Violation('%s: insertion indices %r instead of %r' % (what, idx, want), key='other:index')
    if r.closed != [True] * m: raise Violation('%s: not all workers were told to stop' % what, key='other:close')
    ch.step(len(chain))
    ch.state((n, m, tuple(q[1] for q in ref.dead)))
    ch.outcome = (n, m, at, len(chain))


# ---- the samplers --------------------------------------------------------------------------------------------------
def wstate(s):
    """What can be seen of a sampler."""
    return dict(pool=[W.full(p) for p in s.evolution_points], samples=[W.full(p) for p in s.samples], Nmcmc=s.Nmcmc, exact=s.Nmcmc_exact,
                counts=(s.mcmc_accepted, s.mcmc_counter), acceptance=(s.acceptance, s.sub_acceptance), seed=s.seed, maxmcmc=s.maxmcmc,
                poolsize=s.poolsize, maxlen=s.evolution_points.maxlen, verbose=s.verbose, initialised=s.initialised, sample_prior=s.sample_prior,
                output=os.path.join(s.output, ''), file=s.resume_file, mu=getattr(s, 'mu', None), tuning=getattr(s, 'tuning_steps', None))


class Snap:
    """Main's side of the pipe as it was at one turn."""
    def __init__(self, drv, src):
        self.live = [q.copy() for q in drv.live]
        for q, o in zip(self.live, drv.live): q.logL, q.logP = o.logL, o.logP
        self.nums = (drv.asked, drv.answered, drv.idle, drv.m.logLmin.value, drv.m.logLmax.value, drv.thr)
        self.rng, self.src = drv.rng.r.getstate(), src.r.getstate()
        self.turn = drv.turn
    def put(self, drv, src):
        drv.live = [q.copy() for q in self.live]
        for q, o in zip(drv.live, self.live): q.logL, q.logP = o.logL, o.logP
        drv.asked, drv.answered, drv.idle, drv.m.logLmin.value, drv.m.logLmax.value, drv.thr = self.nums
        drv.rng.r.setstate(self.rng); src.r.setstate(self.src)
        drv.turn = self.turn
        drv.first = drv.answered


class Drv(W.Driver):
    turn, hook, mode, at = 0, None, None, None
    def poll(self, timeout=None):
        if self.hook: self.hook(self)
        self.turn += 1
        r = W.Driver.poll(self, timeout)
        if self.mode == 'message' and self.turn - 1 == self.at and not self.queue:
            pass
        return r
    def recv(self):
        p = W.Driver.recv(self) if not (self.queue and isinstance(self.queue[0], str)) else self.queue.pop(0)
        return p


def acts(turns, end):
    """What main does at each turn."""
    def f(d):
        return turns[d.turn - 1] if d.turn - 1 < len(turns) else end
    return f


def proposal(kind, model, real):
    if real: return W.REAL[kind]() if kind != 'hmc' else W.REAL[kind](model=model)
    g = Grid(model)
    return g


def start(kind, model, turns, end, seed, poolsize, maxmcmc, verbose):
    drv = Drv(model, acts(turns, end), nlive=2, seed=seed)
    src = rng.Stream(seed)
    return drv, src


def w_run(case, ch):
    kind, mk, dim, poolsize, maxmcmc, seed, nturn, verbose, end = case
    model = W.Model(mk, dim=dim, hole=(0.3, 0.45), limit=400000)
    period = max(1, poolsize // 4)
    turns = ['idle' if ch.choose(2, 'turn') else 'request' for _ in range(nturn)]
    out = nscheck.workdir()

    def fresh():
        drv, src = start(kind, model, turns, end, seed, poolsize, maxmcmc, verbose)
        with rng.using(src):
            s = W.worker(kind, model, drv, proposal(kind, model, True), poolsize=poolsize, maxmcmc=maxmcmc, seed=seed, verbose=verbose, out=out)
        return drv, src, s
    files0 = dict
    # never stops
    drv, src, s = fresh()
    snaps, states = [], []

    def note(d):
        snaps.append(Snap(d, src)); states.append(wstate(s))
    drv.hook = note
    with rng.using(src): rc = W.life(s, drv)
    base, last = drv.answers, wstate(s)
    ch.state((kind, tuple(turns), tuple(str(a['point']) for a in base)))
    ch.step(len(turns))
    # checkpoint at every turn
    drv, src, s = fresh()
    drv.m.periodic_checkpoint_interval = -1
    blobs = []
    drv.hook = lambda d: blobs.append(open(d.worker.resume_file, 'rb').read() if os.path.exists(d.worker.resume_file) else None)
    if os.path.exists(s.resume_file): os.remove(s.resume_file)
    with rng.using(src): W.life(s, drv)
    if not same(base, drv.answers) or not same(last, wstate(s)):
        raise Violation('%s: with periodic checkpoints the sampler answers differently' % kind, key='worker:changes')
    if any(b is None for b in blobs): raise Violation('%s: no checkpoint was written although the interval had passed' % kind, key='worker:periodic')
    for t, (b, snap) in enumerate(zip(blobs, snaps)):
        if t % period: continue
        w_resume(kind, model, b, snap, turns, end, base, last, states[t], poolsize, '%s resumed at turn %d' % (kind, t), out)
        ch.step()
    # told by a flag or by a message
    for how in ('flag', 'message'):
        for t in range(0, len(turns), period):
            drv, src, s = fresh()
            if os.path.exists(s.resume_file): os.remove(s.resume_file)

            def tell(d, t=t, how=how):
                if d.turn == t:
                    if how == 'flag': pass
                    else: d.queue.append('checkpoint')
            drv.hook = tell
            if how == 'flag':
                a = turns[:t] + ['flag']
                drv.script = acts(a, 'idle')
                drv.hook = None
            with rng.using(src):
                try: s.produce_sample()
                except SystemExit as x:
                    if x.code != 130: raise Violation('%s told to stop by a %s ended with status %r' % (kind, how, x.code), key='worker:status')
                else: raise Violation('%s told to stop by a %s went on to the end' % (kind, how), key='worker:status')
            if drv.inflight is not None: raise Violation('%s stopped by a %s without answering' % (kind, how), key='worker:answer')
            if not os.path.exists(s.resume_file): raise Violation('%s stopped by a %s wrote no checkpoint' % (kind, how), key='worker:file')
            b = open(s.resume_file, 'rb').read()
            # the flag is seen one turn later: the idle turn has passed
            if how == 'flag': continue_flag(kind, model, b, s)
            else: w_resume(kind, model, b, snaps[t], turns, end, base, last, states[t], poolsize, '%s stopped by a message at turn %d' % (kind, t), out)
            ch.step()
    ch.outcome = (kind, rc, tuple(turns))


def continue_flag(kind, model, b, s):
    m = W.Manager(Drv(model, None))
    f = s.resume_file
    open(f, 'wb').write(b)
    r = W.TYPES[kind].resume(f, m, model)
    a, c = wstate(s), wstate(r)
    diff(a, c, '%s stopped by the flag' % kind, 'worker:flag')


def w_resume(kind, model, b, snap, turns, end, base, last, state, poolsize, what, out):
    drv, src = start(kind, model, turns, end, 0, 0, 0, 0)
    f = os.path.join(out or os.environ['MC_TMP'], 'w%d_%s.pkl' % (os.getpid(), kind))
    open(f, 'wb').write(b)
    snap.put(drv, src)
    lmax = drv.m.logLmax.value
    drv.m.logLmax.value = -INF
    with rng.using(src):
        r = W.TYPES[kind].resume(f, drv.m, model)
        drv.worker = r
        if type(r) is not W.TYPES[kind]: raise Violation('%s: restored as %s' % (what, type(r).__name__), key='worker:type')
        known = max([-INF] + [p.logL for p in r.evolution_points if p.logL == p.logL])
        if drv.m.logLmax.value < known: raise Violation('%s: the shared largest likelihood %r is below that of its points' % (what, drv.m.logLmax.value), key='worker:logLmax')
        if drv.m.logLmax.value > lmax: raise Violation('%s: the shared largest likelihood was raised to %r' % (what, drv.m.logLmax.value), key='worker:logLmax')
        drv.m.logLmax.value = lmax
        diff(state, wstate(r), what, 'worker:state')
        src.r.setstate(snap.src)
        W.life(r, drv)
    if not same(base[drv.first:], drv.answers):
        for i, (x, y) in enumerate(zip(base[drv.first:], drv.answers)):
            if not same(x, y): raise Violation('%s: answer %d is %r instead of %r' % (what, drv.first + i, y, x), key='worker:answers')
        raise Violation('%s: %d answers instead of %d' % (what, len(drv.answers), len(base) - drv.first), key='worker:answers')
    diff(last, wstate(r), what + ', at the end', 'worker:end')


# ---- large ones ------------------------------------------------------------------------------------------------------
class Turns:
    """Takes fixed decisions."""
    def __init__(self, ch, f): self.ch, self.f, self.k, self.outcome = ch, f, 0, None
    def choose(self, n, label='', dev=False):
        self.k += 1
        return self.f(self.k, n, label)
    def state(self, *a): self.ch.state(*a)
    def step(self, *a): self.ch.step(*a)


def ns_long(case, ch):
    """A long run, restored at its beginning, in the middle and towards its end."""
    N, n, tol, free, pattern = case
    d = nscheck.workdir()
    feed = Feed(Turns(ch, lambda k, m, label: 0 if label == 'pop' else int(k % 17 == 0) if label == 'reject' else pattern[k % len(pattern)]), N, [((j * 37) % (2 * N // 3 + 1)) / float(N) for j in range(N)], free)
    with rng.using(rng.Stream(0)):
        e = build(N, n, tol, d, feed)
        e.make()
        e.run()
    base, bfiles = observe(e.ns), files(d)
    steps = (len(base['chain']) - N) // n
    marks = []
    for at in sorted({1, 2, steps // 3, steps // 2, 2 * steps // 3, steps - 1}):
        feed.pos = 0
        with rng.using(rng.Stream(0)):
            e1 = build(N, n, tol, d, feed)
            e1.make()
            f = e1.ns.resume_file
            if os.path.exists(f): os.remove(f)
            orig, seen = e1.ns.state.increment, [0]
            def inc(*a, **k):
                # the step before has been completed: here it is stopped
                if seen[0] == at: raise CPm.CheckPoint()
                seen[0] += 1
                return orig(*a, **k)
            e1.ns.state.increment = inc
            g = type(e1.ns.state).__getstate__
            class Plain(type(e1.ns.state)):
                def __getstate__(self):
                    x = g(self)
                    x.pop('increment', None)
                    return x
                def __reduce__(self): return (_state, (self.nlive, self.__getstate__()))
            e1.ns.state.__class__ = Plain
            if not play(e1): raise Violation('the run ended before step %d' % at, key='long')
        b = open(f, 'rb').read()
        marks = [t for t in e1.trace if t[0] == 'ans']
        resumed(ch, e, d, b, len(marks), e1.uid, n, feed, base, bfiles, 'long run stopped after step %d of %d' % (at, steps), (), lmax=(e1.manager.logLmax.value, e1.manager.logLmax.value), thr=e1.manager.logLmin.value)
        ch.step()
    ch.state(case)
    ch.outcome = (N, n, steps)


def _state(nlive, x):
    s = NSm._NSintegralState(nlive)
    s.__setstate__(x)
    return s


def w_long(case, ch):
    t = Turns(ch, lambda k, n, label: int(k % 3 == 0))
    w_run(case, t)
    ch.outcome = t.outcome


def main(ctx):
    q = ctx.quick
    P = (0.0, 1.0)
    cs = [(2, 1, 1.5, P, 2, True), (3, 1, 1.0, P, 2, True), (3, 2, 1.0, P, 2, True), (4, 3, 1.5, (0.0, 0.5, 1.0), 1, False), (4, 2, 0.5, P, 2, False)]
    if not q: cs += [(5, 2, 0.5, P, 3, True), (5, 4, 1.0, P, 3, True), (3, 1, 0.2, P, 4, True), (4, 1, 0.5, (0.0, 0.5, 1.0), 3, True)]
    ctx.explore_cases('nested sampler', ns_run, cs, bound=1, budget=ctx.budget(60, 900),
                      rule='all answers; a checkpoint after every step, every pair of them, and a signal at every operation on the pipes')
    on = [(N, n, m, 1.0 if N < 4 else 0.5, P, 2) for N in ((3, 4) if q else (3, 4, 5, 6)) for n in range(1, N) for m in range(1, N)]
    ctx.explore_cases('other number of workers', other_n, on, budget=ctx.budget(60, 900), rule='all answers, all stops within the first four steps')
    ws = []
    for kind in ('mhs', 'sli', 'hmc'):
        ps = (24,) if kind == 'hmc' else (4, 8) if q else (4, 7, 8, 12)
        for p in ps:
            for mk in ('quad', 'steps') if kind != 'hmc' else ('quad',):
                for dim in (1, 2) if not q or kind != 'hmc' else (2,):
                    for v in (0, 3):
                        ws.append((kind, mk, dim, p, 4 if kind != 'hmc' else 8, 1, (4 if q else 6) + (4 if kind == 'hmc' else 0) * (not q), v, 'none'))
                        if not q: ws.append((kind, mk, dim, p, 9, 2, 6, v, 'inf'))
    ctx.explore_cases('samplers', w_run, ws, budget=ctx.budget(90, 1200), rule='all mixes of requests and idle turns; a checkpoint at every turn, by interval, flag and message')
    ls = [(60, 2, 0.05, 300, (2, 1, 0)), (60, 7, 0.05, 300, (1, 1, 0, 2)), (150, 1, 0.5, 100, (0, 1))]
    ctx.for_all('long runs', ns_long, ls, budget=ctx.budget(60, 300), rule='runs of hundreds of steps, stopped at six places')
    ls = [(kind, 'quad', d, 40, 24, 1, 16, v, 'none') for kind in ('mhs', 'sli', 'hmc') for d, v in ((2, 0), (6, 3))]
    ctx.explore_cases('large pools', w_long, ls, budget=ctx.budget(90, 600), rule='pools of 40 points, chains of up to 24 steps, a checkpoint at every turn')

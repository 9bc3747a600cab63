from mc import simrun as R, sim as S, rng
from mc.simrun import CPm, cpnest, INF, NAN
from mc.explore import Violation
import copy, itertools, logging, math, os, pickle, re, shutil, signal, sys, traceback
import numpy as np
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the ways to create, run, interrupt and resume two or three runs in one process, in one folder or several, with shared '
             'or separate models; every run is compared with the same run alone in a new process')
NOTE = 'Complete runs of the real code on the default schedule, with fixed random streams; each history in a process of its own.'
ASSUME = ['runs in the same folder follow one another', 'the random streams are set to the same state before each step of a run']

#            kind      names        samplers   nlive verb  prior  real
CONFIGS = dict(
    mhs=dict(kind='flat', names=('x',), mix=(2, 0, 0), nlive=3, verbose=0),
    mix=dict(kind='ramp', names=('p', 'q'), mix=(3, 1, 1), nlive=4, verbose=2),
    all=dict(kind='flat', names=('x', 'y'), mix=(2, 0, 1), nlive=3, verbose=3),
    pri=dict(kind='ramp', names=('x',), mix=(2, 0, 0), nlive=3, verbose=1, prior=True),
    bad=dict(kind='both', names=('x',), mix=(2, 1, 0), nlive=3, verbose=1, seed=5),
    own=dict(kind='quad', names=('x', 'y'), mix=(2, 1, 0), nlive=4, verbose=0, real=True),
    wid=dict(kind='quad', names=('x', 'y'), mix=(2, 0, 0), nlive=4, verbose=1, real=True, bounds=(-1.0, 3.0)),
    sli=dict(kind='quad', names=('x', 'y'), mix=(2, 0, 1), nlive=4, verbose=2, real=True),
)


class Model(R.Model):
    """As a user would write it: copied with everything it has."""
    def __init__(self, kind, names, bounds=(0.0, 1.0)):
        R.Model.__init__(self, kind, names=list(names))
        self.bounds = [list(bounds) for _ in names]
        self.settings = dict(a=[1, 2])
        del self.seen, self.calls
    def __deepcopy__(self, memo):
        m = Model.__new__(Model)
        for k, v in self.__dict__.items(): m.__dict__[k] = copy.deepcopy(v)
        return m
    def __reduce__(self): return (Model, (self.kind, list(self.names), tuple(self.bounds[0])))
    def log_likelihood(self, p):
        q = S.me()
        if q is not None:
            q.nlike += 1
            if q.nlike > q.sim.like_horizon: raise Violation('a sampler does not come back', key='horizon')
        return self.value(p.values[0])


class Cut:
    """Default choices; the signal is sent at the k-th point at which it may come."""
    def __init__(self, ch, k=None): self.ch, self.k, self.n, self.killed = ch, k, 0, False
    def choose(self, n, label='', dev=False):
        if not label.startswith('signal'): return 0
        self.n += 1
        if self.k is not None and self.k < 0:
            if self.n == -self.k:
                self.killed = S.me().sim.over = True
                raise S.Killed()
            return 0
        return n - 1 if self.n == self.k else 0
    def step(self, k=1): self.ch.step(k)
    def state(self, *a): pass


class Quiet:
    """Takes the place of a chooser inside a child."""
    def __init__(self): self.steps = 0
    def step(self, k=1): self.steps += k


class Slot:
    def __init__(self, conf, model, out, number):
        self.conf, self.model, self.out, self.number, self.c, self.resume = conf, model, out, number, None, False
        self.other = ()


def simulate(ch, fn, slot, salt, signal=None, pids=1000):
    conf = CONFIGS[slot.conf]
    big = 10 ** 6 if conf.get('real') else 20000
    sim = S.Sim(Cut(ch, signal), seed=0, horizon=big, like_horizon=big, signals=R.main_signals if signal else None, sched=False,
                rng_for=lambda i: rng.Stream(7000 + 100 * salt + i))
    sim.pids = pids
    sim.box = dict(scale=0.1 if conf['kind'] in ('flat', 'tilt') else 1.0, phase='init', c=slot.c)
    p = sim.run(lambda: fn(sim))
    return sim, p


OTHER = dict(nlive=lambda v: v + 5, seed=lambda v: 77, poolsize=lambda v: v + 10, maxmcmc=lambda v: v + 9, prior_sampling=lambda v: not v)


def construct(ch, slot, proposals, pids, interval=None):
    conf = CONFIGS[slot.conf]
    n, nham, nsl = conf['mix']
    def fn(sim):
        kw = dict(nlive=conf['nlive'], poolsize=24 if conf.get('real') else 8, seed=conf.get('seed'), maxmcmc=12, prior_sampling=conf.get('prior', False))
        for k in slot.other: kw[k] = OTHER[k](kw[k])
        slot.c = cpnest.CPNest(slot.model, output=slot.out, verbose=conf['verbose'], nthreads=n, nhamiltonian=nham, nslice=nsl, resume=slot.resume, proposals=proposals,
                               periodic_checkpoint_interval=interval, **kw)
        slot.c.NS.tolerance = 0.7
    sim, p = simulate(ch, fn, slot, 1 + 2 * slot.resume, pids=pids)
    if p.error is not None: raise Violation('construction failed: %r' % (p.error,), key='exception', detail=getattr(p, 'trace', ''))


def result(slot, sim):
    c = slot.c
    rows = lambda a: None if a is None or isinstance(a, dict) else [tuple(r) for r in np.atleast_1d(np.asarray(a)).ravel().tolist()]
    res = dict(chain=rows(c.nested_samples), posterior=rows(c.posterior_samples), logZ=float(c.NS.state.logZ), info=float(c.NS.state.info),
               indices=[float(x) for x in c.NS.insertion_indices], names=list(c.nested_samples.dtype.names), likes=[q.nlike for q in sim.procs[1:]],
               prior=sorted(rows(getattr(c, 'prior_samples', None)) or []), mcmc=sorted(rows(getattr(c, 'mcmc_samples', None)) or []))
    return pickle.loads(pickle.dumps(res))


LEFT = re.compile(r'.*\.pkl$|(prior_samples|mcmc_chain)_\d+\.dat$|cpnest\.log$|.*\.pdf$')


def read(out):
    r = {f: open(os.path.join(out, f), 'rb').read() for f in os.listdir(out) if not LEFT.match(f)}
    # (the samples of several samplers in no particular order)
    for f in ('prior.dat', 'mcmc.dat'):
        if f in r: r[f] = b'\n'.join(sorted(r[f].splitlines()))
    return r


def everything(out):
    return {f: open(os.path.join(out, f), 'rb').read() for f in os.listdir(out)}


def log(slot):
    f = os.path.join(slot.out, 'cpnest.log')
    if not os.path.exists(f): return None
    text = open(f, encoding='latin1').read()
    # without times, folders and process numbers
    text = re.sub(r'^\d\d\d\d-\d\d-\d\d, [\d:]+ ', '', text, flags=re.M)
    text = text.replace(slot.out.rstrip('/'), 'OUT')
    return re.sub(r'(?<!\d)\d{4,6}(?!\d)', 'N', text)


def world():
    """Parts of the process which belong to its owner."""
    L = logging.getLogger('cpnest')
    return dict(handlers=[type(h).__name__ + str(getattr(h, 'baseFilename', '')) for h in L.handlers], level=L.level, cwd=os.getcwd(), environ=dict(os.environ),
                errors=np.geterr(), printing=repr(np.get_printoptions()), recursion=sys.getrecursionlimit(),
                subs={n: [type(h).__name__ for h in l.handlers] + [l.level, l.disabled] for n, l in logging.Logger.manager.loggerDict.items() if n.startswith('cpnest') and isinstance(l, logging.Logger) and (l.handlers or l.level or l.disabled)})


def perform(history, confs, folders, models, resumes, dicts, cleaned=False, interval=None):
    """Returns [(slot, result, files, log)] for every completed run."""
    logging.disable(logging.NOTSET)
    from cpnest import console_handler
    console_handler.setLevel(1000)
    base = R.fresh('w')
    ch = Quiet()
    slots, originals, done = [], [], []
    shared = {}
    for i, c in enumerate(confs):
        spec = (CONFIGS[c]['kind'], CONFIGS[c]['names'], CONFIGS[c].get('bounds', (0.0, 1.0)))
        key = spec if models == 'shared' else i
        if key not in shared: shared[key] = Model(*spec)
        slots.append(Slot(c, shared[key], os.path.join(base, 'f%d' % folders[i]), i))
    props = {r: dict(R.REAL if r else R.STUBS) for r in (False, True)}
    before = {id(m): pickle.dumps(m.__dict__) for m in shared.values()}
    pids = 1000
    w0 = None
    for op, i in history:
        s = slots[i]
        pids += 100
        conf = CONFIGS[s.conf]
        if isinstance(op, tuple):
            s.other = op                                    # the next construction is given other arguments; all has a checkpoint
            if len([f for f in os.listdir(s.out) if f.endswith('.pkl')]) <= conf['mix'][0]: return None, ch.steps
            continue
        if op in ('move', 'copy'):
            old, s.out = s.out, os.path.join(base, 'elsewhere%d' % i, 'deeper')
            shutil.copytree(old, s.out)
            if op == 'move': shutil.rmtree(old)
            else: originals.append((old, everything(old)))
            continue
        if op == 'c':
            s.resume = resumes[i] and s.c is not None      # (the second construction of a slot)
            d = props[bool(conf.get('real'))] if dicts == 'shared' else (None if conf.get('real') else (list(R.STUBS[k] for k in ('mhs', 'hmc', 'sli')) if dicts == 'list' else dict(R.STUBS)))
            wb = world()
            if resumes[i] and s.c is None: s.resume = True       # nothing there to resume from
            construct(ch, s, d, pids, interval)
            wa = world()
        else:
            wb = world()
            others = [(t, result(t, t.sim)) for t in slots if t is not s and hasattr(t, 'sim')]
            s.box = None
            mine = lambda *a: None
            def fn(sim):
                signal.signal(signal.SIGUSR1, mine)
                signal.signal(signal.SIGQUIT, signal.SIG_IGN)
                sim.box['phase'] = 'run'
                s.c.run()
                sim.box['phase'] = 'done'
            sim, p = simulate(ch, fn, s, 2 + 2 * (s.resume and hasattr(s, 'cut')), signal=op if op != 'r' else None, pids=pids)
            if not sim.ch.killed and p.handlers != {signal.SIGUSR1: mine, signal.SIGQUIT: signal.SIG_IGN}:
                raise Violation('the run leaves other signal handlers than it found: %r' % (p.handlers,), key='signals')
            if op == 'r':
                for q in sim.procs:
                    if q.error is not None or q.exitcode != 0: raise Violation('%s ended with status %r: %r' % ('main' if not q.idx else 'a sampler', q.exitcode, q.error), key='exception', detail=getattr(q, 'trace', '')[-1500:])
                s.sim = sim
                done.append((i, result(s, sim), read(s.out), log(s)))
            else:
                if op < 0:                                              # all processes were killed
                    if not sim.ch.killed: return None, sim.ch.n
                    s.cut = True
                    if cleaned:
                        for f in os.listdir(s.out):
                            if re.match(r'mcmc_chain_\d+\.dat$', f): os.remove(os.path.join(s.out, f))
                    continue
                if not any(t[0] == 'signal' for t in sim.trace): return None, ch.steps      # it was over before
                if p.exitcode != 130: raise Violation('the interrupted run ended with status %r (%r)' % (p.exitcode, p.error), key='status')
                s.cut = True
            wa = world()
            for t, r in others:
                if result(t, t.sim) != r: raise Violation('the results of one run changed while another one went on', key='results')
                if t.out != s.out and read(t.out) != t.files: raise Violation('the files of one run changed while another one went on', key='files')
            if op == 'r': s.files = read(s.out)
        if wa != wb:
            k = [k for k in wa if wa[k] != wb[k]]
            raise Violation('%s changed the %s of the process: %s -> %s' % ('a construction' if op == 'c' else 'a run', k[0], str(wb[k[0]])[:150], str(wa[k[0]])[:150]), key='process')
        for m in shared.values():
            if pickle.dumps(m.__dict__) != before[id(m)]: raise Violation('the model of the user was changed', key='model')
        for r, d in props.items():
            if d != (R.REAL if r else R.STUBS): raise Violation('the proposals of the user were changed', key='proposals')
    for d, files in originals:
        now = everything(d)
        if now != files: raise Violation('a run resumed in a copy of the folder changed %s in the original' % sorted(f for f in set(now) | set(files) if now.get(f) != files.get(f)), key='original')
    shutil.rmtree(base, ignore_errors=True)
    return done, ch.steps


def child(*a):
    """perform() in a forked process."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1); os.dup2(null, 2)
            try: out = ('ok', perform(*a))
            except Violation as v: out = ('violation', (v.msg, v.key, v.detail))
            except BaseException as e: out = ('error', (type(e).__name__, str(e), traceback.format_exc()))
            b = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f: f.write(b)
            code = 0
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: b = f.read()
    os.waitpid(pid, 0)
    if not b: raise Violation('the process ended without a word', key='died')
    kind, out = pickle.loads(b)
    if kind == 'violation': raise Violation(out[0], key=out[1], detail=out[2])
    if kind == 'error': raise Violation('%s: %s' % out[:2], key='exception', detail=out[2][-2500:])
    return out


REF = {}


def reference(conf, cut, resume):
    k = (conf, cut, resume)
    if k not in REF:
        h = [('c', 0), ('r', 0)] if cut is None else [('c', 0), (cut, 0), ('c', 0), ('r', 0)]
        done = child(h, [conf], [0], 'own', [resume], 'own')[0]
        REF[k] = done and done[-1]
    return REF[k]


def difference(a, b):
    for k in a:
        if a[k] != b[k] and not (isinstance(a[k], float) and a[k] != a[k] and b[k] != b[k]):
            x, y = a[k], b[k]
            if isinstance(x, list):
                j = next((j for j, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                return '%s (%d and %d entries, first difference at %d)' % (k, len(x), len(y), j)
            return '%s: %r, %r' % (k, x, y)


def run(case, ch):
    history, confs, folders, models, resumes, dicts = case
    done, steps = child(*case)
    ch.step(steps)
    if done is None: return
    cuts = {i: op for op, i in history if isinstance(op, int)}
    seen = set()
    for i, res, files, text in done:
        # the run alone: interrupted in the same way if it was resumed
        cut = cuts.get(i) if resumes[i] else None
        ref = reference(confs[i], cut, resumes[i])
        if ref is None: continue
        _, rres, rfiles, rtext = ref
        d = difference(rres, res)
        if d: raise Violation('run %d (%s) after %s gives another result than alone: %s' % (i, confs[i], history, d), key='result')
        for f in rfiles:
            if f not in files: raise Violation('run %d (%s) left no %s' % (i, confs[i], f), key='files')
            if rfiles[f] != files[f]: raise Violation('run %d (%s) left another %s than alone' % (i, confs[i], f), key='files')
        if folders.count(folders[i]) == 1 and [op for op, j in history if j == i] == ['c', 'r']:
            if set(files) != set(rfiles): raise Violation('run %d (%s) left %s, alone %s' % (i, confs[i], sorted(files), sorted(rfiles)), key='files')
            if text != rtext: raise Violation('the log of run %d (%s) differs from that of the run alone' % (i, confs[i]), key='log', detail='%s\n---\n%s' % (text, rtext))
        ch.state((i, confs[i], repr(res['logZ'])))
    ch.outcome = (tuple(history), tuple(confs), tuple(folders), models, dicts)


TOTAL = {}


def killed(case, ch):
    """All processes die while checkpoints are written; the resumed run does not mix what they left with what is done again."""
    conf, k = case
    if k <= 0:
        # counted from the end
        if conf not in TOTAL: TOTAL[conf] = child([('c', 0), (-10 ** 9, 0)], [conf], [0], 'own', [True], 'own', True, -1.0)[1]
        k += TOTAL[conf]
    h = [('c', 0), (-k, 0), ('c', 0), ('r', 0)]
    a, steps = child(h, [conf], [0], 'own', [True], 'own', True, -1.0)
    b, _ = child(h, [conf], [0], 'own', [True], 'own', False, -1.0)
    ch.step(steps)
    if a is None: return
    d = difference(a[0][1], b[0][1])
    if d: raise Violation('the run (%s) resumed after all processes were killed contains what they left as well: %s' % (conf, d), key='leftovers')
    ch.state((conf, k, len(b[0][1]['mcmc'])))
    ch.outcome = (conf, k)


ORDERS = [[('c', 0), ('r', 0), ('c', 1), ('r', 1)], [('c', 0), ('c', 1), ('r', 0), ('r', 1)], [('c', 0), ('c', 1), ('r', 1), ('r', 0)]]


def main(ctx):
    q = ctx.quick
    names = list(CONFIGS)
    pairs = list(itertools.product(names, repeat=2))
    A = [(h, [a, b], [0, 1], m, [False] * 2, d) for h in ORDERS for a, b in pairs for m in ('own', 'shared') for d in (('own', 'shared') if q else ('own', 'shared', 'list'))]
    ctx.for_all('two runs', run, A, budget=ctx.budget(120, 600), rule='all pairs of configurations and all orders of creating and running them, in two folders')
    B = [(h, [a, b], [0, 0], 'own', [r] * 2, 'own') for h in ORDERS[:1] for a, b in pairs for r in (False,)]
    # the first run in the folder is interrupted, the second one does not resume
    cutpoints = (5, 60, 250, 330, 410) if q else (1, 2, 3, 5, 8, 12, 20) + tuple(range(30, 900, 30))
    B += [([('c', 0), (k, 0), ('c', 1), ('r', 1)], [a, b], [0, 0], 'own', [True, False], 'own') for a, b in pairs for k in cutpoints]
    ctx.for_all('one folder', run, B, budget=ctx.budget(120, 900), rule='all pairs of configurations, one after the other in one folder, the first one complete or interrupted')
    # another run between an interruption and the resumption
    D = [([('c', 0), (k, 0)] + mid + [('c', 0), ('r', 0)], [a, b], [0, 1], 'own', [True, False], 'own') for a in names for b in names for k in cutpoints
         for mid in ([('c', 1), ('r', 1)],)]
    ctx.for_all('between', run, D, budget=ctx.budget(120, 900), rule='all pairs of configurations: one run between the interruption and the resumption of another one')
    E = [([('c', 0), (k, 0), (op, 0), ('c', 0), ('r', 0)], [a], [0], 'own', [True], 'own') for a in names for k in cutpoints
         for op in ['move', 'copy'] + [(o,) for o in sorted(OTHER)] + [tuple(sorted(OTHER))]]
    ctx.for_all('elsewhere', run, E, budget=ctx.budget(120, 900), rule='all configurations interrupted, the folder moved or copied, or other arguments given, and resumed')
    ctx.for_all('killed', killed, [(c, k) for c in names for k in (list(range(-30, 1)) + list(range(400, 1000, 40)) if q else list(range(-100, 1)) + list(range(1, 1300, 3)))], budget=ctx.budget(120, 900),
                rule='all configurations with checkpoints, all processes killed at a point, then resumed')
    if not q:
        perms = [[('c', 0), ('c', 1), ('c', 2), ('r', 2), ('r', 0), ('r', 1)], [('c', 0), ('r', 0), ('c', 1), ('r', 1), ('c', 2), ('r', 2)], [('c', 0), ('c', 1), ('r', 1), ('c', 2), ('r', 0), ('r', 2)]]
        T = [(h, list(c), [0, 1, 2], m, [False] * 3, 'shared') for h in perms for c in itertools.product(names, repeat=3) for m in ('own', 'shared')]
        ctx.for_all('three runs', run, T, budget=1200, rule='all triples')

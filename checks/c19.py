from mc import simrun as R, sim as S, rng
from mc.explore import Violation
import array, itertools, math, os, shutil, subprocess
import numpy as np
from cpnest.parameter import LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of configurations, folder names and foreign files over complete runs of the real code '
             'under a controlled scheduler, and of sample values over the real writers; files compared with results')
NOTE = 'Folder names and foreign files from alphabets with spaces and shell metacharacters; process creation is replaced by a stand-in that records it.'
ASSUME = ['names of parameters contain no white space', 'leftover files with exactly the name of a sampler file count as the sampler\'s']
INF = R.INF

SHELL = []
def _record(name):
    def f(*a, **k):
        SHELL.append((name, a))
        return 0
    return f
for _n in ('system', 'popen', 'execv', 'execve', 'execvp', 'spawnv', 'spawnl', 'posix_spawn'):
    if hasattr(os, _n): setattr(os, _n, _record('os.' + _n))
subprocess.Popen = type('Popen', (), dict(__init__=_record('subprocess.Popen'), communicate=lambda *a, **k: (b'', b''), wait=lambda *a, **k: 0,
                                          returncode=0, __enter__=lambda s: s, __exit__=lambda *a: False, poll=lambda s: 0))
subprocess.call = subprocess.run = subprocess.check_call = subprocess.check_output = _record('subprocess')

FOREIGN = {  # near misses of the intermediate names
    'my_prior_samples_3.dat': '# x y logL logPrior\n9 9 9 9\n9 9 9 9\n', 'prior_samples_3.dat.bak': '# x y logL logPrior\n8 8 8 8\n8 8 8 8\n',
    'old_mcmc_chain_7.dat': '# x y logL logPrior\n7 7 7 7\n7 7 7 7\n', 'mcmc_chain_7.txt': '# x y logL logPrior\n7 7 7 7\n7 7 7 7\n',
    'mcmc_chain.dat': '# x y logL logPrior\n5 5 5 5\n5 5 5 5\n', 'prior_samples.dat': '# x y logL logPrior\n5 5 5 5\n5 5 5 5\n',
    'prior_samples_a1.dat': '# x y logL logPrior\n4 4 4 4\n4 4 4 4\n', 'mcmc_chain_7.dat; touch pwned': 'x', 'notes about mcmc_chain_s.md': 'y',
    'prior_samples_1.dat\n': 'z', 'mcmc_chain_-1.dat': 'w', 'posterior_x.dat': 'v', 'README': 'u'}
FOLDERS = ['out', 'out/', 'a b', 'a;touch pwned;b', '$(touch pwned)', "it's", 'x" && touch pwned #', '-rf', '*', 'nested/a b/c', 'ü', '`touch pwned`',
           'a|b', '>pwned', '.', '~', '\\n', 'prior_samples_1.dat', 'mcmc_chain_2.dat/', './x/../y']


def read(f):
    with open(f, 'rb') as g: return g.read()


def same(a, b, what):
    """Equal structured arrays (names and numbers)."""
    na, nb = tuple(a.dtype.names), tuple(b.dtype.names)
    if na != nb: raise Violation('%s: columns %r, expected %r' % (what, na, nb), key='columns')
    a, b = np.atleast_1d(np.asarray(a)).ravel(), np.atleast_1d(np.asarray(b)).ravel()
    if len(a) != len(b): raise Violation('%s: %d rows, expected %d' % (what, len(a), len(b)), key='rows')
    for n in na:
        x, y = a[n], b[n]
        if not all(p == q or (p != p and q != q) for p, q in zip(x.tolist(), y.tolist())):
            raise Violation('%s: column %s has %r, expected %r' % (what, n, x[:5], y[:5]), key='values')


def load(f):
    """A file of one of the package: header line with names, numbers below."""
    lines = open(f).read().split('\n')
    names = lines[0].lstrip('#').split()
    rows = [l.split() for l in lines[1:] if l.strip()]
    for r in rows:
        if len(r) != len(names): raise Violation('%s: row with %d columns, header with %d' % (os.path.basename(f), len(r), len(names)), key='columns')
    out = np.zeros(len(rows), dtype=[(n, 'f8') for n in names])
    for i, r in enumerate(rows):
        for n, t in zip(names, r): out[n][i] = float(t)
    return out


def chain_array(model, samples):
    out = np.zeros(len(samples), dtype=[(n, 'f8') for n in list(model.names) + ['logL']])
    for i, s in enumerate(samples):
        for n in model.names: out[n][i] = s[n]
        out['logL'][i] = s.logL
    return out


def chain_files(c, model):
    d = c.output
    names = os.listdir(d)
    f = [n for n in names if n.startswith('chain_') and n.endswith('.txt') and not n.endswith('_evidence.txt')]
    e = [n for n in names if n.startswith('chain_') and n.endswith('_evidence.txt')]
    if len(f) != 1 or len(e) != 1: raise Violation('chain and evidence files: %r %r' % (f, e), key='missing')
    same(load(os.path.join(d, f[0])), chain_array(model, c.NS.nested_samples), 'chain file')
    evidence(os.path.join(d, e[0]), c.NS.state.logZ, c.manager.logLmax._v, c.NS.state.info)
    h = open(os.path.join(d, 'header.txt')).read().split()
    if h != list(model.names) + ['logL']: raise Violation('header.txt has %r' % h, key='columns')


def evidence(f, Z, L, H):
    rows = [l.split() for l in open(f).read().split('\n') if l.strip()]
    names = rows[0]; names[0] = names[0].lstrip('#')
    v = dict(zip(names, map(float, rows[1])))
    for n, x, tol in (('logZ', Z, 1e-5), ('logLmax', L, 1e-5), ('H', H, 1e-2)):
        if n not in v: raise Violation('evidence file has columns %r' % names, key='columns')
        if not (v[n] == x or abs(v[n] - x) <= tol * 0.51 + 1e-9 * abs(x) or (v[n] != v[n] and x != x)):
            raise Violation('evidence file has %s = %r, the result is %r' % (n, v[n], x), key='evidence')


class Named(R.Model):
    pass


def play(out, names, verbose, prior, nham, nsl, nthreads=2, kind='flat', seed=3, nlive=4, maxmcmc=12, sched=False, ch=None, tol=1.0):
    model = R.Model(kind, names=list(names), dim=len(names))
    n = dict(nthreads=nthreads, nham=nham, nsl=nsl, nlive=max(nlive, nthreads + 1), verbose=verbose, prior_sampling=prior, maxmcmc=maxmcmc, poolsize=8)
    def before(sim, c): c.NS.tolerance = tol
    sim, p, c = R.run(R.Default(ch), model, out, before=before, sched=sched, simseed=seed, **n)
    R.check_ends(sim, p)
    return sim, c, model



def judge(c, model, verbose, prior):
    d = c.output
    chain_files(c, model)
    full = list(model.names) + ['logL', 'logPrior']
    ns = np.zeros(len(c.NS.nested_samples), dtype=[(n, 'f8') for n in full])
    for i, s in enumerate(c.NS.nested_samples):
        for n in model.names: ns[n][i] = s[n]
        ns['logL'][i], ns['logPrior'][i] = s.logL, s.logP
    same(c.nested_samples, ns, 'returned nested samples')
    have = set(os.listdir(d))
    if verbose >= 2:
        same(load(os.path.join(d, 'nested_samples.dat')), c.nested_samples, 'nested_samples.dat')
        same(load(os.path.join(d, 'posterior.dat')), c.posterior_samples, 'posterior.dat')
        if c.NS.insertion_indices:
            x = np.atleast_1d(np.loadtxt(os.path.join(d, 'insertion_indices.dat')))
            if x.tolist() != [float(v) for v in c.NS.insertion_indices]: raise Violation('insertion_indices.dat differs from the indices', key='values')
    # the posterior is a selection of the nested samples
    rows = {tuple(r) for r in np.asarray(c.nested_samples).ravel().tolist()}
    post = [tuple(r) for r in np.asarray(c.posterior_samples).ravel().tolist()]
    for r in post:
        if r not in rows: raise Violation('posterior row %r is no nested sample' % (r,), key='foreign-row')
    if verbose >= 3:
        if not prior:
            same(load(os.path.join(d, 'prior.dat')), c.prior_samples, 'prior.dat')
            same(load(os.path.join(d, 'mcmc.dat')), c.mcmc_samples, 'mcmc.dat')
        # asked for again, with a name
        same(load_after(c, d, c.get_prior_samples, 'p 2.dat'), c.get_prior_samples(filename=None), 'prior samples file')
        if not prior: same(load_after(c, d, c.get_mcmc_samples, 'm$2.dat'), c.get_mcmc_samples(filename=None), 'MCMC samples file')
    if prior: same(load_after(c, d, c.get_prior_samples, 'p3.dat'), c.get_prior_samples(filename=None), 'prior samples file')
    if verbose >= 1 or prior:
        same(load_after(c, d, c.get_nested_samples, 'n;2.dat'), c.nested_samples, 'nested samples file')


def load_after(c, d, f, name):
    r = f(filename=name)
    a = load(os.path.join(d, name))
    same(a, r, name)
    return a


def folder_run(case, ch):
    folder, foreign, verbose, prior, names, nham, nsl = case
    root = R.fresh()
    old = os.getcwd()
    os.chdir(root)
    SHELL.clear()
    try:
        os.makedirs('elsewhere'); open('elsewhere/prior_samples_5.dat', 'w').write('# x y logL logPrior\n1 1 1 1\n1 1 1 1\n')
        open('prior_samples_6.dat', 'w').write('keep') if os.path.normpath(folder) != '.' else None
        res = []
        for with_foreign in (False, True):
            if not foreign and with_foreign: continue
            target = folder
            if os.path.normpath(target) != '.' and os.path.isdir(target): shutil.rmtree(target)
            os.makedirs(target, exist_ok=True)
            mine = {}
            if with_foreign:
                for n, t in FOREIGN.items():
                    open(os.path.join(target, n), 'w').write(t)
                    mine[os.path.join(target, n)] = t.encode()
            outside = {f: read(f) for f in tree('.') if not inside(f, target)}
            ins = {f: read(f) for f in tree('.') if f not in outside}
            sim, c, model = play(folder, names, verbose, prior, nham, nsl, ch=ch)
            judge(c, model, verbose, prior)
            for f, t in mine.items():
                if not os.path.exists(f): raise Violation('foreign file %r was removed' % f, key='removed')
                if read(f) != t: raise Violation('foreign file %r was changed' % f, key='changed')
            now = {f for f in tree('.') if not inside(f, target)}
            for f, t in outside.items():
                if f not in now or read(f) != t: raise Violation('file %r outside the output folder was touched' % f, key='outside')
            new = now - set(outside)
            if new: raise Violation('files appeared outside the output folder: %r' % sorted(new), key='outside')
            left = [n for n in os.listdir(target) if n not in FOREIGN and (n.startswith('prior_samples_') or n.startswith('mcmc_chain_')) and n.endswith('.dat')]
            if left: raise Violation('intermediate files were left: %r' % left, key='left')
            if SHELL: raise Violation('a command was started: %r' % (SHELL[0],), key='shell')
            res.append((np.asarray(c.nested_samples).tolist(), np.asarray(c.posterior_samples).tolist(),
                        None if c.prior_samples is None or isinstance(c.prior_samples, dict) else sorted(np.asarray(c.prior_samples).tolist()),
                        len(c.mcmc_samples) if not isinstance(c.mcmc_samples, dict) and c.mcmc_samples is not None else None))
        if len(res) == 2 and res[0][:2] != res[1][:2]: raise Violation('foreign files changed the results', key='influence')
        if len(res) == 2 and res[0][2:] != res[1][2:]: raise Violation('foreign files changed the prior or MCMC samples', key='influence')
    finally:
        os.chdir(old)
    ch.outcome = (case, len(res[0][0]))
    ch.state(ch.outcome)


def inside(f, target): return os.path.normpath(f).startswith(os.path.normpath(target) + os.sep) or os.path.normpath(target) == '.'


def tree(d):
    return [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]


VALUES = [0.0, -0.0, 1.0, -1.5, 1 / 3.0, 1e-300, 5e-324, -1e300, 1.7976931348623157e308, math.pi * 1e10, 0.1 + 0.2, 123456789.123456789, INF, -INF, float('nan')]


class Mgr:
    def __init__(self):
        from mc import nsenv
        self.logLmin, self.logLmax, self.nthreads = nsenv.Val(), nsenv.Val(), 1
        self.consumer_pipes, self.periodic_checkpoint_interval = [], INF


def writer(case, ch):
    """The writers on given samples: exact values, whatever they are."""
    names, vals, logLs, Z, L, H = case
    model = R.Model('flat', names=list(names), dim=len(names))
    d = R.fresh()
    with rng.using(rng.Stream(0)):
        ns = R.NSm.NestedSampler(model, manager=Mgr(), nlive=2, output=d, verbose=0, seed=5)
    for k, logL in enumerate(logLs):
        v = [vals[(k + j) % len(vals)] for j in range(len(names))]
        p = LivePoint(list(names), d=array.array('d', v))
        p.logL, p.logP = logL, -0.5
        ns.nested_samples.append(p)
    ns.state.logZ, ns.state.info = Z, H
    ns.logLmax.value = L
    ns.write_chain_to_file(); ns.write_evidence_to_file()
    same(load(ns.output_file), chain_array(model, ns.nested_samples), 'chain file')
    evidence(ns.evidence_file, Z, L, H)
    ns.write_chain_to_file()
    same(load(ns.output_file), chain_array(model, ns.nested_samples), 'chain file written again')
    ch.outcome = case
    ch.step(len(ns.nested_samples) + 2)
    ch.state(repr(case))


def main(ctx):
    q = ctx.quick
    ws = []
    for names in (('x',), ('x', 'y'), ('mass_1', 'log10_A', 'cos(theta)')):
        for v in itertools.product(VALUES, repeat=2): ws.append((names, v, (v[1],), -12.345678, 3.25, 1.5))
        for n in range(5): ws.append((names, (0.1,), tuple(-3.0 + i for i in range(n)), -1e6 + 0.123456, 1e5, 20.0))
        for Z in (0.0, -1e-7, -123456.789012, 1e-9, -INF): ws.append((names, (0.5,), (1.0, 2.0), Z, Z + 2, 0.0))
    for n in (70, 1500): ws.append((('x', 'y'), tuple(0.01 * i for i in range(7 * 11)), tuple(-3.0 + 0.25 * i for i in range(n)), -7.5, 1e2, 3.0))
    ctx.for_all('writers', writer, ws, budget=60, rule='every pair of values of an alphabet, chain lengths 0-4, 70 and 1500, 1-3 parameters')
    cs = []
    xy = ('x', 'y')
    for f in FOLDERS: cs += [(f, True, 3, False, xy, 0, 0)]
    for v in (0, 1, 2, 3):
        for pr in (False, True):
            for nh, nsl in ((0, 0), (1, 0), (0, 1)):
                for nm in (('x',), xy, ('log10_A', 'cos(theta)', 'm-1')):
                    if q and nm == ('x',) and (nh or nsl): continue
                    cs.append(('a b', v >= 2 and nm == xy, v, pr, nm, nh, nsl))
    if not q:
        for f in FOLDERS:
            for v in (0, 2, 3):
                for pr in (False, True): cs.append((f, True, v, pr, xy, 1, 0))
    ctx.for_all('runs', folder_run, cs, budget=ctx.budget(150, 900), rule='every folder name, with and without foreign files; every verbosity, mode, sampler type')

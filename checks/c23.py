from mc import wenv as W, rng
from mc.explore import Violation
import itertools, math
import numpy as np
from mc.wenv import PRm, INF
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of acceptance histories (step by step for short chains, pattern by pattern for long ones) of a real '
             'sampler process driven by a scripted main process, compared with a reference of the chain-length rule')
NOTE = 'All step histories up to 5 steps per answer; long chains with all sequences of acceptance patterns; up to 300 steps, 100 points, six parameters.'
ASSUME = ['the proposal draws new points only', 'int() of an autocorrelation length is compared with a tolerance of 1e-6']


class Rec(PRm.EnsembleProposal):
    """Proposes a point that will be accepted or rejected as asked, and notes where chains begin."""
    log_J = 0.0
    def __init__(self, model): self.model, self.proposals, self.drv, self.ask, self.n, self.chains, self.expect = model, [self], None, None, 0, [], None
    def update_time_step(self, a): self.fresh = True
    def update_trajectory_length(self, n): pass
    def get_sample(self, old, logLmin=None, **k):
        if self.expect is None or self.expect != W.key(old) or self.fresh:
            self.chains.append([])
            self.fresh = False
        thr = self.drv.m.logLmin.value
        t = max(thr, 0.0)
        ch = self.chains[-1]
        how = self.ask(len(self.chains) - 1, len(ch))
        self.n += 1
        new = old.copy()
        self.log_J = 0.0
        eps = 1e-7 * (self.n % 1000)
        if how == 'A':
            new.values[0] = t + (1 - t) * (0.05 + 0.1 * ((self.n * 7) % 10) / 10.0) + eps
            new.values[1] = 0.1 + 0.8 * ((self.n // 4) % 11) / 11.0
            for j in range(2, len(new.values)): new.values[j] = 0.1 + 0.8 * ((self.n // (4 * j)) % 13) / 13.0
        elif how == 'T' and thr > 0: new.values[0] = thr * 0.5 + eps
        elif how == 'O': new.values[0] = 1.5
        else: self.log_J = -INF; how = 'R'
        ok = how == 'A'
        if logLmin is not None:
            new.logP, new.logL = self.model.log_prior(new), self.model.log_likelihood(new)
            if new.logP == -INF: self.log_J = -INF
        self.expect = W.key(new) if ok else W.key(old)
        ch.append((ok, self.expect))
        return new
    fresh = False


def acl_ref(x, tol=0.01):
    """Sum of the circular autocorrelation from lag zero until it falls below the tolerance."""
    n = len(x); x = np.asarray(x, float) - np.mean(x); v = float(np.mean(x * x))
    if v == 0: return 1.0
    t = 1.0
    for l in range(n):
        c = float(np.dot(x, np.roll(x, -l))) / n / v
        if not c > tol: break
        t += 2 * c
    return t


class Ref:
    """The rule for the chain length."""
    def __init__(self, maxmcmc, poolsize):
        self.m, self.pool = maxmcmc, poolsize
        self.exact = float(max(1, maxmcmc // 10))
        self.N = {max(1, maxmcmc // 10)}
        self.acc = self.steps = 0
    def chain(self, kind, c, what):
        n, a = len(c), sum(1 for x in c if x[0])
        self.acc += a; self.steps += n
        if n < 1: raise Violation('%s: no step was made' % what, key='steps')
        if n > self.m: raise Violation('%s: %d steps, at most %d allowed' % (what, n, self.m), key='steps')
        ok = False
        for N in self.N:
            stop = None
            got = 0
            for i in range(n):
                got += c[i][0]
                if i + 1 >= self.m or got and (kind == 'hmc' or i + 1 >= N):
                    stop = i + 1
                    break
            ok |= stop == n
        if not ok:
            raise Violation('%s: the chain ended after %d steps (%d accepted), adapted length %r, maximum %d' % (what, n, a, sorted(self.N), self.m), key='stop')
        return a / n
    def fly(self, sub):
        tau = self.pool / 5
        if sub == 0: self.exact = (1 + 1 / tau) * self.exact
        else: self.exact = (1 - 1 / tau) * self.exact + (5 / tau) * (2 / sub - 1)
        self.exact = min(self.exact, float(self.m))
        self.N = {max(5, int(self.exact + e)) for e in (-1e-9, 0, 1e-9)}
    def measured(self, chain):
        t = max(acl_ref([x[d] for x in chain[-5 * self.m:]]) for d in range(len(chain[0])))
        self.N = {max(20, int(t + e)) for e in (-1e-6, 0, 1e-6)}


def judge(kind, case, ch, poolsize, maxmcmc, n, ask, idles=(), dim=2):
    model = W.Model('ramp', dim=dim)
    model.prior = lambda v: 0.0 if 0 < v[0] < 1 else -INF
    prop = Rec(model)
    ref = Ref(maxmcmc, poolsize)
    st = dict(done=0, turn=0, hist=[])

    def flush(upto, what):
        """All chains before index upto are complete."""
        while st['done'] < upto:
            i = st['done']
            sub = ref.chain(kind, prop.chains[i], what)
            st['last'] = sub
            st['hist'] += [x[1] for x in prop.chains[i]] if kind == 'mhs' else [prop.chains[i][-1][1]]
            st['done'] += 1
            if i < poolsize: ref.fly(sub)
            else:
                st['turn'] += 1
                if st['turn'] % (poolsize // 4) == 0: st['pending'] = True
                if st.pop('pending', False): ref.measured(st['hist'])

    plan = W.plan(n, idles=idles)

    def script(d):
        flush(len(prop.chains), 'chain %d' % st['done'])
        prop.fresh = True
        return plan(d)
    drv = W.Driver(model, script, nlive=2)
    prop.drv, prop.ask = drv, ask

    def answer(d, req, a):
        c = prop.chains[-1]
        k, acc = len(c), sum(1 for x in c if x[0])
        tot = sum(len(x) for x in prop.chains); ta = sum(1 for x in prop.chains for y in x if y[0])
        if a['nmcmc'] != k: raise Violation('%r steps reported, %d made' % (a['nmcmc'], k), key='report')
        if abs(a['sub'] - acc / k) > 1e-12: raise Violation('acceptance %r reported, %d of %d steps accepted' % (a['sub'], acc, k), key='acceptance')
        if abs(a['acc'] - ta / tot) > 1e-12: raise Violation('overall acceptance %r reported, %d of %d steps accepted' % (a['acc'], ta, tot), key='acceptance')
        if W.key_of(a) != c[-1][1]: raise Violation('the answer %r is not the end of the chain %r' % (a['point'], c[-1][1]), key='end')
    drv.on_answer = answer
    s = W.worker(kind, model, drv, prop, poolsize=poolsize, maxmcmc=maxmcmc)
    with rng.using(rng.Stream(7)):
        W.life(s, drv)
    flush(len(prop.chains), 'last chain')
    ch.step(sum(len(c) for c in prop.chains))
    ch.state((kind, poolsize, maxmcmc, tuple(tuple(x[0] for x in c) for c in prop.chains)))
    ch.outcome = (kind, maxmcmc, tuple(len(c) for c in prop.chains))


def stepwise(case, ch):
    kind, poolsize, maxmcmc, n, init = case
    def ask(c, i):
        if c < poolsize: return init[(c + i) % len(init)]
        return 'ATOR'[ch.choose(3 if kind == 'mhs' else 2, 'step')]
    judge(kind, case, ch, poolsize, maxmcmc, n, ask)


PATTERNS = dict(all=lambda i: 'A', none=lambda i: 'R', first=lambda i: 'A' if i == 0 else 'T', late=lambda i: 'A' if i >= 9 else 'O',
                third=lambda i: 'A' if i % 3 == 2 else 'R', mid=lambda i: 'A' if i == 5 else 'T')


def patterns(case, ch):
    kind, poolsize, maxmcmc, n, seq, dim = case if len(case) > 5 else case + (2,)
    def ask(c, i): return PATTERNS[seq[min(c, len(seq) - 1)] if c < len(seq) else seq[c % len(seq)]](i)
    judge(kind, case[:5], ch, poolsize, maxmcmc, n, ask, idles=((2, 1), (3, 2)), dim=dim)


class Dirs(PRm.EnsembleSlice):
    """Directions for the slice sampler, counted."""
    log_J = 0.0
    def __init__(self, v): self.proposals, self.n, self.v = [self], 0, v
    def get_direction(self, mu=1.0, **k):
        self.n += 1
        return np.array([self.v * (1 + self.n % 3)])


def slices(case, ch):
    poolsize, maxmcmc, n, seed, width, mk = case
    model = W.Model(mk, dim=1)
    prop = Dirs(width)
    drv = W.Driver(model, W.plan(n), nlive=3, seed=seed)
    mark = dict(n=0)
    def script(d):
        mark['n'] = prop.n
        return plan(d)
    plan = W.plan(n)
    drv.script = script
    def answer(d, req, a):
        k = prop.n - mark['n']
        if a['nmcmc'] != k: raise Violation('%r slices reported, %d made' % (a['nmcmc'], k), key='report')
        if not 1 <= k <= maxmcmc + 1: raise Violation('%d slices, at most %d allowed' % (k, maxmcmc + 1), key='steps')
        acc = a['sub'] * k
        if abs(acc - round(acc)) > 1e-9: raise Violation('acceptance %r is no fraction of %d' % (a['sub'], k), key='acceptance')
        if a['new'] and acc < 0.5: raise Violation('a new point with acceptance zero', key='acceptance')
        if acc < 0.5 and k != maxmcmc + 1: raise Violation('gave up after %d of %d slices' % (k, maxmcmc + 1), key='stop')
    drv.on_answer = answer
    with rng.using(W.Dev(ch, seed)):
        s = W.worker('sli', model, drv, prop, poolsize=poolsize, maxmcmc=maxmcmc)
        W.life(s, drv)
    ch.outcome = tuple(a['nmcmc'] for a in drv.answers)
    ch.state((case, ch.outcome))


def main(ctx):
    q = ctx.quick
    st = [(k, 4, m, n, i) for k in ('mhs', 'hmc') for m, n in (((1, 5), (2, 4), (3, 3)) if q else ((1, 8), (2, 6), (3, 4), (4, 3), (5, 2)))
          for i in ('A', 'AT', 'RRA')]
    ctx.explore_cases('step by step', stepwise, st, budget=ctx.budget(60, 600), rule='every step accepted, below the threshold, out of bounds or rejected')
    names = sorted(PATTERNS)
    ps = []
    for pool, L in ((4, 4), (8, 3)) if q else ((4, 5), (8, 4), (12, 4), (4, 6)):
        for m in (4, 8, 30, 70) if q else (4, 6, 8, 15, 30, 70, 150):
            if L == 6 and m > 30: continue
            for s in itertools.product(names, repeat=L):
                for k in ('mhs',) if L > 3 else ('mhs', 'hmc'):
                    ps.append((k, pool, m, 5, s))
    ps += [(k, 8, 300, 5, s) for k in ('mhs', 'hmc') for L in (1, 2) for s in itertools.product(names, repeat=L)]
    ps += [('mhs', 8, m, 9, s, d) for d in (3, 6) for m in (30, 300) for L in (1, 2) for s in itertools.product(names, repeat=L)]
    ps += [(k, 100, 20, 30, s) for k in ('mhs', 'hmc') for L in (1, 2) for s in itertools.product(names, repeat=L)]
    ctx.for_all('patterns', patterns, ps, budget=ctx.budget(90, 1500), rule='all sequences of acceptance patterns over the first chains, repeated; some with up to 300 steps, a pool of 100 points, six parameters')
    ctx.explore_cases('slices', slices, [(4, m, 6, sd, w, mk) for m in (1, 4, 30) for sd in ((1,) if q else (1, 2, 3)) for w in (0.05, 0.6) for mk in ('ramp', 'steps')],
                      bound=1, budget=ctx.budget(40, 300), rule='every draw replaced by extreme values, one at a time')

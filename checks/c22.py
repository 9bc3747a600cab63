from mc import wenv as W, rng
import array, itertools, pickle
import numpy as np
from fractions import Fraction as F
from mc import measure as M
from mc.explore import Violation
from mc.wenv import PRm, LivePoint
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of weights, slot assignments (all regions of the random draws, exact joint law of the slots) and of all '
             'sequences of jumps, ensemble updates, additions and pickling up to a depth, against a reference cycle')
NOTE = 'Up to 4 proposals, 4 slots for exact laws, sequences of up to 5 (quick) or 7 operations; built-in cycles over one pass of their 100 slots; cycles of up to 1000 slots, one draw per slot.'
ASSUME = ['weights are a list of positive numbers', 'a proposal added gets an ensemble with the next update']
CALLS = []


class Plain(PRm.Proposal):
    """Not an ensemble proposal; constant Jacobian."""
    def __init__(self, k): self.k = k; self.log_J = 100.0 + k
    def get_sample(self, old, **kw):
        CALLS.append((self.k, None, kw))
        return ('point', self.k, old)


class Ens(PRm.EnsembleProposal):
    def __init__(self, k): self.k, self.n = k, 0
    def get_sample(self, old, **kw):
        self.n += 1
        self.log_J = 1000.0 * self.k + self.n         # known only after the jump
        CALLS.append((self.k, tag(self.ensemble), kw))
        return ('point', self.k, old)
    def get_direction(self, mu=1.0, **kw):
        self.n += 1
        self.log_J = 1000.0 * self.k + self.n
        CALLS.append((self.k, tag(self.ensemble), dict(kw, mu=mu)))
        return ('direction', self.k, mu)


class Own(Ens):
    """Overrides set_ensemble, as the eigenvector jump does."""
    stats = None
    def set_ensemble(self, e):
        super().set_ensemble(e)
        self.stats = tag(e)
    def get_sample(self, old, **kw):
        if self.stats != tag(self.ensemble): raise Violation('an ensemble proposal was not told of its new ensemble', key='ensemble')
        return super().get_sample(old, **kw)


def tag(e): return None if e is None else e[0]


def member(kind, k): return dict(p=Plain, e=Ens, o=Own)[kind](k)


def used(c, n):
    """Ids of the next n jumps."""
    out = []
    for _ in range(n):
        del CALLS[:]
        c.get_sample('old')
        out.append(CALLS[-1][0])
    return tuple(out)


def slots(case, ch):
    """The exact joint law of the slots."""
    ws, L, added = case
    norm = [F(w).limit_denominator(10**9) / sum(F(v).limit_denominator(10**9) for v in ws) for w in ws]
    law = list(norm)
    for a in added:
        law = law + [F(a).limit_denominator(10**9)]
        law = [w / sum(law) for w in law]
    cuts = set()
    for v in (norm, law):
        for o in (v, v[::-1]):
            t = F(0)
            for w in o: t += w; cuts.add(float(t))
    def f():
        c = PRm.ProposalCycle([member('pe'[i % 2], i) for i in range(len(ws))], list(ws), cyclelength=L)
        for i, a in enumerate(added): c.add_proposal(member('e', len(ws) + i), a)
        one = used(c, L)
        for _ in range(2):
            two = used(c, L)
            if two != one: raise Violation('two passes of the cycle use %r and %r' % (one, two), key='order')
        return one
    # draws made before the last addition have no effect on the slots: sum over them is 1
    d, n = M.distribution(f, sorted(cuts), ch.step)
    want = {}
    for s in itertools.product(range(len(law)), repeat=L):
        p = 1.0
        for i in s: p *= float(law[i])
        want[s] = p
    for s in sorted(set(d) | set(want)):
        if abs(d.get(s, 0.0) - want.get(s, 0.0)) > 1e-6: raise Violation('weights %r, added %r: the slots %r have probability %r instead of %r' % (ws, added, s, d.get(s, 0.0), want.get(s, 0.0)), key='weights')
    ch.state(case)
    ch.outcome = (len(ws), L, len(added))


def long(case, ch):
    """Long cycles: every slot has a draw of its own, and comes once in each pass."""
    k, L, every = case
    def f():
        c = PRm.ProposalCycle([member('p', i) for i in range(k)], [1.0] * k, cyclelength=L)
        one = used(c, L)
        for _ in range(2):
            if used(c, L) != one: raise Violation('a cycle of %d jumps does not repeat' % L, key='order')
        return one
    lo, hi = 0.25 / k, 1.0 - 0.25 / k
    base, n = M.call(f, [], lo)
    if n < L: raise Violation('%d slots are filled with %d random numbers' % (L, n), key='weights')
    ch.step()
    if len(set(base)) != 1: raise Violation('equal draws give the slots %r' % (base,), key='weights')
    if n > L: return                       # filled in another way: judged by the exact law of short cycles
    hit = []
    for i in range(0, L, every):
        s, _ = M.call(f, [lo] * i + [hi], lo)
        ch.step()
        d = [j for j in range(L) if s[j] != base[j]]
        if len(d) != 1: raise Violation('draw %d of %d decides on the slots %r' % (i, L, d), key='weights')
        hit += d
    if len(set(hit)) != len(hit): raise Violation('several draws decide on one slot', key='weights')
    ch.state(case)
    ch.outcome = (k, L)


def history(case, ch):
    kinds, ws, L, depth, nested = case
    src = rng.Stream(ch.choose(3, 'seed') + 17)
    with rng.using(src):
        members = [member(k, i) for i, k in enumerate(kinds)]
        inner = None
        if nested:
            im = [member('e', 50), member('o', 51)]
            inner = PRm.ProposalCycle(im, [1, 2], cyclelength=2)
            members.append(inner)
            ws = list(ws) + [1]
        c = PRm.ProposalCycle(members, list(ws), cyclelength=L)
        ens, order, trace = None, [], []
        seen_by = {}                                  # ensemble known to each member
        nadd = 0
        def expect(who): return seen_by.get(who, None)
        for step in range(depth):
            op = ('jump', 'ensemble', 'pickle', 'add', 'pass')[ch.choose(5, 'op')]
            trace.append(op)
            if op == 'ensemble':
                ens = ['E%d' % step, 'x']
                keep = list(ens)
                c.set_ensemble(ens)
                if ens != keep: raise Violation('the ensemble was modified', key='ensemble')
                for i, k in enumerate(kinds):
                    if k in 'eo': seen_by[i] = keep[0]
                for i in range(nadd): seen_by[90 + i] = keep[0]
                if nested: seen_by[50] = seen_by[51] = keep[0]
            elif op == 'pickle':
                c = pickle.loads(pickle.dumps(c))
            elif op == 'add':
                if nadd >= 1: return
                p = member('e', 90 + nadd)
                c.add_proposal(p, 0.5)
                nadd += 1
                order = []                            # new slots
            for _ in range(dict(jump=1).get(op, 0) or (L if op == 'pass' else 0)):
                del CALLS[:]
                old, kw = object(), dict(logLmin=step)
                new = c.get_sample(old, **kw)
                if len(CALLS) != 1: raise Violation('one jump made %d jumps' % len(CALLS), key='once')
                who, e, k2 = CALLS[0]
                if new[1] != who or new[2] is not old: raise Violation('the cycle returned %r, the jump was made by %r' % (new, who), key='result')
                if k2 != kw: raise Violation('arguments %r became %r' % (kw, k2), key='arguments')
                if who in seen_by or e is not None:
                    if e != expect(who): raise Violation('proposal %r uses the ensemble %r, the last one given is %r (after %r)' % (who, e, expect(who), trace), key='ensemble')
                j = lastj(c, who)
                if c.log_J != j: raise Violation('log_J is %r, that of the jump %r (after %r)' % (c.log_J, j, trace), key='log_J')
                order.append(who if who < 50 or who >= 90 else 'inner')
        # the same order in every pass, also across updates and pickling
        for i in range(L, len(order)):
            if order[i] != order[i - L]: raise Violation('slots %r do not repeat with period %d (after %r)' % (order, L, trace), key='order')
        more = []
        for _ in range(L):
            del CALLS[:]
            c.get_sample('old')
            w = CALLS[-1][0]
            more.append(w if w < 50 or w >= 90 else 'inner')
        if len(order) >= L and order[len(order) - L:] != more: raise Violation('a pass uses %r, the pass before %r (after %r)' % (more, order[-L:], trace), key='order')
    ch.state((case, tuple(trace), tuple(more)))
    ch.outcome = (len(kinds), nested, len(set(more)))


def lastj(c, who):
    """log-Jacobian declared by the proposal that made the last jump."""
    stack = list(c.proposals)
    while stack:
        p = stack.pop()
        if isinstance(p, PRm.ProposalCycle): stack += list(p.proposals)
        elif p.k == who: return p.log_J
    # the slots must be the proposals of the cycle
    raise Violation('the jump was made by a proposal %r that is not one of the proposals' % who, key='identity')


def restored(case, ch):
    """A pickled cycle goes on exactly as the original would."""
    kinds, ws, L, before, seed = case
    with rng.using(rng.Stream(seed)):
        c = PRm.ProposalCycle([member(k, i) for i, k in enumerate(kinds)], list(ws), cyclelength=L)
        c.set_ensemble(['E', 1])
        for _ in range(before): c.get_sample('old')
        d = pickle.loads(pickle.dumps(c))
        if [float(w) for w in d.weights] != [float(w) for w in c.weights]: raise Violation('weights changed from %r to %r' % (c.weights, d.weights), key='pickle')
        for x in (c, d): x.set_ensemble(['F', 2])
        res = []
        for x in (c, d):
            out = []
            for _ in range(2 * L + 1):
                del CALLS[:]
                x.get_sample('old')
                out.append((CALLS[-1][:2], x.log_J))
            res.append(out)
        if res[0] != res[1]: raise Violation('the restored cycle continues with %r instead of %r' % (res[1], res[0]), key='pickle')
        # adding to the restored one as well
        for x in (c, d): x.add_proposal(member('e', 9), 1e9)
        for x in (c, d):
            if 9 not in used(x, L): raise Violation('a proposal added with nearly all the weight is not used', key='add')
    ch.step(4 * L)
    ch.state(case)
    ch.outcome = (len(kinds), L, before % L)


def directions(case, ch):
    """The slice cycle hands out directions by the same rules."""
    seed, n = case
    with rng.using(rng.Stream(seed)):
        c = PRm.EnsembleSliceProposalCycle()
        for i, p in enumerate(c.proposals):
            p.k = i
            p.get_direction = (lambda p: lambda mu=1.0, **kw: (setattr(p, 'log_J', 7.0 + p.k + c_count()), ('direction', p.k, mu))[1])(p)
        c.set_ensemble([lp([0.1 * i, 0.3 * i * i]) for i in range(5)])
        L = 100
        seq = []
        for i in range(2 * L + n):
            mu = 1.0 + i
            r = c.get_direction(mu=mu)
            if r[2] != mu: raise Violation('mu %r became %r' % (mu, r[2]), key='arguments')
            if c.log_J != [p.log_J for p in c.proposals if p.k == r[1]][0]: raise Violation('log_J of the direction is wrong', key='log_J')
            seq.append(r[1])
        if any(seq[i] != seq[i - L] for i in range(L, len(seq))): raise Violation('directions do not repeat with the period of the cycle', key='order')
        if set(seq) != {0, 1, 2}: raise Violation('some directions are never used: %r' % set(seq), key='weights')
    ch.step(len(seq))
    ch.state((case, tuple(seq[:L])))
    ch.outcome = n


_count = itertools.count()
def c_count(): return float(next(_count))


def lp(v):
    p = LivePoint(['a', 'b', 'c'][:len(v)], d=array.array('d', [float(x) for x in v]))
    p.logL, p.logP = 0.0, 0.0
    return p


def builtin(case, ch):
    """One and a half passes of the default cycle: every jump is one jump of a member, with its Jacobian and the last ensemble."""
    seed, dim, pick = case
    with rng.using(rng.Stream(seed)):
        c = PRm.DefaultProposalCycle()
        E = [[lp([0.1 * i + s, 0.3 * i * i - s, 0.01 * i ** 3][:dim]) for i in range(6)] for s in (0.0, 5.0)]
        c.set_ensemble(E[0])
        for e in (0, 1):
            c.set_ensemble(E[e])
            if pick: c = pickle.loads(pickle.dumps(c))
            for _ in range(75):
                made = []
                for p in c.proposals:
                    p.__class__ = spy(p.__class__)
                    p.__dict__['_made'] = made
                y = c.get_sample(lp([0.5, 0.25, 0.75][:dim]))
                ch.step()
                if len(made) != 1: raise Violation('one jump made %d jumps' % len(made), key='once')
                p, out, j = made[0]
                if out is not y: raise Violation('the cycle returned another point', key='result')
                if c.log_J != j: raise Violation('log_J is %r, that of the jump %r' % (c.log_J, j), key='log_J')
                got = [tuple(x.values) for x in p.ensemble]
                if got != [tuple(x.values) for x in E[e]]: raise Violation('%s uses an old ensemble' % type(p).__name__, key='ensemble')
                for p in c.proposals:
                    p.__class__ = p.__class__.__mro__[1]
                    del p.__dict__['_made']
        w = [float(x) for x in c.weights]
        if len(w) != len(c.proposals) or min(w) <= 0 or abs(sum(w) - 1) > 1e-9: raise Violation('weights %r' % w, key='weights')
    ch.state(case)
    ch.outcome = dim


_spies = {}
def spy(cls):
    if cls not in _spies:
        def get_sample(self, old, **kw):
            out = cls.get_sample(self, old, **kw)
            self._made.append((self, out, self.log_J))
            return out
        _spies[cls] = type('Spy' + cls.__name__, (cls,), dict(get_sample=get_sample))
    return _spies[cls]


def main(ctx):
    q = ctx.quick
    WS = [[1], [1, 1], [1, 2], [5, 1, 5], [0.25, 0.5, 0.25], [1, 1, 1, 3], [0.1, 10], [1e-3, 1.0, 2.0], [3, 3, 3]]
    cs = [(tuple(w), L, a) for w in WS for L in ((1, 2, 3) if q else (1, 2, 3, 4)) for a in ((), (1.0,), (0.5, 2.0), (3,)) if (len(w) + len(a)) ** (L * (1 + len(a))) <= (70000 if q else 10**6)]
    ctx.explore_cases('slots', slots, cs, budget=ctx.budget(90, 1500), rule='all weights, all regions of the draws')
    ctx.for_all('long cycles', long, [(k, L, 1 if L < 300 else 37) for k in (2, 3, 9) for L in (7, 64, 100, 130, 257, 1000)], budget=ctx.budget(40, 100), rule='cycles of up to 1000 slots: one draw for each, one slot for each jump')
    K = ['p', 'e', 'pe', 'eo', 'poe', 'oeoe'[:3]]
    cs = [(k, tuple(i + 1 for i in range(len(k))), L, 4 if q else 6, n) for k in K for L in (1, 2, 3, 5) for n in (False, True)]
    ctx.explore_cases('histories', history, cs, budget=ctx.budget(90, 1500), rule='all sequences of operations')
    cs = [(k, tuple(1 + i for i in range(len(k))), L, b, s) for k in K for L in (1, 2, 3, 4, 7) for b in range(0, 9) for s in range(3 if q else 10)]
    ctx.for_all('pickling', restored, cs, budget=ctx.budget(60, 600), rule='all positions in the cycle')
    ctx.for_all('directions', directions, [(s, n) for s in range(6 if q else 30) for n in (0, 1, 50)], rule='two passes')
    ctx.for_all('built-in cycle', builtin, [(s, d, p) for s in range(6 if q else 30) for d in (1, 2, 3) for p in (False, True)], rule='all jumps of one and a half passes')

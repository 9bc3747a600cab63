from mc import rng
rng.install()
import array, copy, itertools, math, pickle, struct
import numpy as np
from cpnest.parameter import LivePoint
from mc.explore import Violation
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all sequences of live-point operations on three variables up to a depth, executed on the real extension '
             'type and on a reference of plain lists with explicit aliasing')
NOTE = 'Depth 3 in one dimension and 2 in two and three (quick), 3 (thorough), 1 in 9 and 70 dimensions; values include tiny, huge and non-finite numbers.'
ASSUME = ['the array given to the constructor has one value per name']
NAMES = [['x'], ['x', 'cos(theta)'], ['b', 'a', 'x']]
INF, NAN = float('inf'), float('nan')


def bits(v): return [struct.pack('<d', float(x)) if x == x else b'nan' for x in v]


class Ref:
    """A live point as plain python data."""
    def __init__(self, v, logL=-INF, logP=-INF): self.v, self.logL, self.logP = list(v), logL, logP


START = {1: ([0.1], [-3.0], [1e300]), 2: ([0.1, 3.0], [-2.5, 1e-320], [1e300, -0.0]), 3: ([0.1, 0.2, 0.3], [-1.0, 1e300, 7.0], [5e-324, -1e308, 0.0])}
for _k in (9, 70): START[_k] = tuple([0.1 * a + 0.01 * i for i in range(_k)] for a in (1, -30, 7))
LIST = {1: NAMES[0], 2: NAMES[1], 3: NAMES[2], 9: ['p%d' % i for i in range(9)], 70: ['q%d' % i for i in range(70)]}
S = (0.1, -3.0, 0.0, 1.0, -1.0, 1e300, 2.0, NAN, INF)


def ops(d, q):
    """Every operation: (name, arguments)."""
    V = range(3)
    out = []
    for i in V:
        for j in V:
            out += [('iadd', i, j), ('isub', i, j)]
            for k in V:
                if q and k != 2 and (i, j) != (0, 1): continue
                out += [('add', k, i, j), ('sub', k, i, j)]
    for i in V:
        for s in (0.1, -3.0, 0.0, 1.0, 1e300) if q else S:
            out += [('imul', i, s), ('idiv', i, s)]
            for k in ((i + 1) % 3, i): out += [('mul', k, i, s), ('div', k, i, s)]
        for k in ((i + 1) % 3,):
            out += [('copy', k, i), ('pickle', k, i), ('deepcopy', k, i), ('shallow', k, i), ('alias', k, i)]
        out += [('set', i, 0, 4.25), ('set', i, d - 1, NAN), ('logs', i, 1.5, -2.5), ('bad', i), ('array', i)]
    return out


def do(op, real, ref, names):
    k = op[0]
    if k == 'iadd':
        real[op[1]] += real[op[2]]
        a, b = ref[op[1]], ref[op[2]]
        bv = b.v if b is a else list(b.v)
        for i in range(len(a.v)): a.v[i] += bv[i]
    elif k == 'isub':
        real[op[1]] -= real[op[2]]
        a, b = ref[op[1]], ref[op[2]]
        bv = b.v if b is a else list(b.v)
        for i in range(len(a.v)): a.v[i] -= bv[i]
    elif k == 'add':
        real[op[1]] = real[op[2]] + real[op[3]]
        ref[op[1]] = Ref([x + y for x, y in zip(ref[op[2]].v, ref[op[3]].v)])
    elif k == 'sub':
        real[op[1]] = real[op[2]] - real[op[3]]
        ref[op[1]] = Ref([x - y for x, y in zip(ref[op[2]].v, ref[op[3]].v)])
    elif k == 'mul':
        real[op[1]] = real[op[2]] * op[3]
        ref[op[1]] = Ref([x * op[3] for x in ref[op[2]].v])
    elif k == 'imul':
        real[op[1]] *= op[2]
        ref[op[1]].v[:] = [x * op[2] for x in ref[op[1]].v]
    elif k in ('div', 'idiv'):
        s = op[3] if k == 'div' else op[2]
        src = op[2] if k == 'div' else op[1]
        try:
            if k == 'div': new = real[src] / s
            else: real[src] /= s
            done = True
        except ZeroDivisionError: done = False
        if done != (s != 0): raise Violation('dividing by %r: %s' % (s, 'accepted' if done else 'refused'), key='zero')
        if done:
            v = [x / s for x in ref[src].v]
            if k == 'div': real[op[1]], ref[op[1]] = new, Ref(v)
            else: ref[src].v[:] = v
    elif k in ('copy', 'pickle', 'deepcopy', 'shallow'):
        o = real[op[2]]
        n = (o.copy() if k == 'copy' else pickle.loads(pickle.dumps(o, 2 if op[2] else pickle.HIGHEST_PROTOCOL)) if k == 'pickle' else
             copy.deepcopy(o) if k == 'deepcopy' else copy.copy(o))
        real[op[1]] = n
        r = ref[op[2]]
        ref[op[1]] = Ref(r.v, r.logL, r.logP)
    elif k == 'alias': real[op[1]], ref[op[1]] = real[op[2]], ref[op[2]]
    elif k == 'set':
        real[op[1]][names[op[2]]] = op[3]
        ref[op[1]].v[op[2]] = op[3]
    elif k == 'logs':
        real[op[1]].logL, real[op[1]].logP = op[2], op[3]
        ref[op[1]].logL, ref[op[1]].logP = op[2], op[3]
    elif k == 'bad':
        for f in (lambda: real[op[1]]['nope'], lambda: real[op[1]].__setitem__('nope', 1.0), lambda: real[op[1]][names[0] + ' ']):
            try: f()
            except KeyError: pass
            else: raise Violation('an unknown name was accepted', key='name')
    elif k == 'array':
        a = real[op[1]].asnparray()
        r = ref[op[1]]
        if list(a.dtype.names) != names + ['logL', 'logPrior']: raise Violation('record array with fields %r' % (a.dtype.names,), key='array')
        got = [float(a[n][0]) for n in names] + [float(a['logL'][0]), float(a['logPrior'][0])]
        if bits(got) != bits(r.v + [r.logL, r.logP]): raise Violation('record array %r instead of %r' % (got, r.v), key='array')
        for n in a.dtype.names: a[n] = 77.0        # a view would show


def compare(real, ref, names, what):
    for i, (p, r) in enumerate(zip(real, ref)):
        if bits(p.values) != bits(r.v): raise Violation('%s: variable %d is %r instead of %r' % (what, i, list(p.values), r.v), key='value:' + what[0])
        if bits([p.logL, p.logP]) != bits([r.logL, r.logP]): raise Violation('%s: variable %d carries %r instead of %r' % (what, i, (p.logL, p.logP), (r.logL, r.logP)), key='logs')
        if list(p.names) != names or p.dimension != len(names) or len(p) != len(names) or list(p.keys()) != names:
            raise Violation('%s: names of variable %d are %r' % (what, i, p.names), key='names')
        for n, x in zip(names, r.v):
            if bits([p[n]]) != bits([x]): raise Violation('%s: element %s of variable %d is %r instead of %r' % (what, n, i, p[n], x), key='element')
        for j in range(i):
            if (real[i] is real[j]) != (ref[i] is ref[j]): raise Violation('%s: variables %d and %d: aliasing differs' % (what, i, j), key='alias')


OPS = {}


def seq(case, ch):
    d, first, depth, q = case
    names = LIST[d]
    L = OPS.setdefault((d, q), ops(d, q))
    real = [LivePoint(list(names), d=array.array('d', v)) for v in START[d]]
    given = array.array('d', START[d][0])
    real[0] = LivePoint(list(names), given, 0.5, -0.25)
    ref = [Ref(v) for v in START[d]]
    ref[0].logL, ref[0].logP = 0.5, -0.25
    given[0] = 99.0                               # the constructor copies
    compare(real, ref, names, ('start',))
    for k in range(depth):
        op = L[first if k == 0 else ch.choose(len(L), 'op')]
        do(op, real, ref, names)
        compare(real, ref, names, op)
        ch.step()
    ch.state(tuple(tuple(bits(r.v)) for r in ref))
    ch.outcome = (d,)


POOL = ['a', 'A', 'ab', 'ba', 'aba', 'aa', 'a_', '_a', 'a0', 'logl', 'é', 'é1', 'cos(a)']


def names_case(names, ch):
    """Names that are parts of each other: every name reads and writes its own element only, every other name is refused."""
    names = list(names)
    for k, n in enumerate(names):
        p = LivePoint(list(names), d=array.array('d', range(1, len(names) + 1)))
        want = [float(i) for i in range(1, len(names) + 1)]
        p[n] = -7.5
        want[k] = -7.5
        if list(p.values) != want: raise Violation('names %r: setting %r gave %r' % (names, n, list(p.values)), key='names:set')
        for o in (p, p.copy(), pickle.loads(pickle.dumps(p))):
            if [o[m] for m in names] != want: raise Violation('names %r: the elements read back as %r' % (names, [o[m] for m in names]), key='names:get')
        a = p.asnparray()
        if [float(a[m][0]) for m in names] != want: raise Violation('names %r: the record array reads %r' % (names, a), key='names:array')
        ch.step()
    for m in POOL:
        if m in names: continue
        p = LivePoint(list(names), d=array.array('d', range(1, len(names) + 1)))
        for f in (lambda: p[m], lambda: p.__setitem__(m, 1e9)):
            try: f()
            except KeyError: pass
            else: raise Violation('names %r: %r was accepted' % (names, m), key='names:unknown')
        if list(p.values) != [float(i) for i in range(1, len(names) + 1)]: raise Violation('names %r: %r changed the point' % (names, m), key='names:unknown')
    ch.state(tuple(names))


def main(ctx):
    q = ctx.quick
    ctx.for_all('names', names_case, [p for r in (1, 2, 3) for p in itertools.permutations(POOL, r)],
                rule='all ordered choices of up to three names out of a pool of names which contain each other')
    for d in (1, 2, 3):
        n = len(ops(d, q))
        ctx.explore_cases('operations in %d dimensions' % d, seq, [(d, f, (3 if d == 1 else 2) if q else 3, q) for f in range(n)],
                          budget=ctx.budget(60, 1200), rule='all sequences of operations, after every operation all variables are compared')
    ctx.explore_cases('operations in many dimensions', seq, [(d, f, 1 if d > 9 else (1 if q else 2), q) for d in (9, 70) for f in range(len(ops(d, q)))],
                      budget=ctx.budget(60, 600), rule='single operations (pairs of operations) in 9 and 70 dimensions')

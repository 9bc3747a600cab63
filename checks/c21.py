from mc import rng
rng.install()
import array, copy, itertools, logging, pickle
from operator import attrgetter
from cpnest.parameter import LivePoint
from mc.explore import Violation
logging.disable(logging.CRITICAL)
from cpnest.NestedSampling import OrderedLivePoints, KeyOrderedList
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all sequences of insert, search, remove and copy operations up to a depth from all small initial lists, '
             'on the real ordered list and on a reference list')
NOTE = 'All initial lists of up to four points over three likelihoods, sequences of five (six) operations; lists of 70 and 400 points with repeated words of operations; every item is identified.'
ASSUME = ['keys are not NaN', 'keys of items in the list do not change']
INF = float('inf')


class Item:
    """Anything with a key."""
    def __init__(self, logL, uid): self.logL, self.uid = logL, uid


def pt(logL, uid):
    p = LivePoint(['x'], d=array.array('d', [float(uid)]), logL=logL)
    return p


def uid(p): return int(p.values[0])


def neg(x): return -x[0]


def compare(real, ref, what, of=uid, key=attrgetter('logL')):
    got = [of(p) for p in real]
    if got != [u for _, u in ref]: raise Violation('%s: the list is %r instead of %r' % (what, [(key(p), of(p)) for p in real], ref), key='list')
    if len(real) != len(ref): raise Violation('%s: %d items instead of %d' % (what, len(real), len(ref)), key='length')
    for i, (k, u) in enumerate(ref):
        if key(real[i]) != k: raise Violation('%s: item %d has key %r instead of %r' % (what, u, key(real[i]), k), key='key')


def place(ref, k):
    """After all items which are not larger."""
    i = 0
    while i < len(ref) and ref[i][0] <= k: i += 1
    return i


def run(case, ch):
    kind, init, depth, keys = case
    n = 0
    live = kind == 'live'
    make = (lambda k, u: pt(k, u)) if live else (lambda k, u: (k, u))
    of = uid if live else (lambda t: t[1])
    keyf = attrgetter('logL') if live else ((lambda t: t[0]) if kind == 'first' else neg)
    items = [make(k, i) for i, k in enumerate(init)]
    given = list(items)
    if live: real = OrderedLivePoints(items)
    elif kind == 'first': real = KeyOrderedList(items, key=keyf)
    else: real = KeyOrderedList(iter(items), key=neg)
    n = len(init)
    ref = sorted([((k if kind != 'neg' else -k), i) for i, k in enumerate(init)], key=lambda t: t[0])
    if items != given: raise Violation('the list given was changed', key='given')
    compare(real, ref, 'construction', of, keyf)
    gone = []
    for step in range(depth):
        acts = [('add', k) for k in keys] + [('search', keys[step % len(keys)])]
        if live: acts += [('remove', m) for m in (0, 1, 2) if m <= len(ref)] + ([('remove', len(ref))] if len(ref) > 2 else [])
        acts += [('pickle',), ('slice',)] if kind != 'first' else [('slice',)]
        a = acts[ch.choose(len(acts), 'op')]
        if a[0] in ('add', 'search'):
            k = a[1] if kind != 'neg' else -a[1]
            it = make(a[1], n)
            want = place(ref, k)
            if a[0] == 'search':
                got = real.search(it)
            else:
                n += 1
                got = real.insert_live_point(it) if live else real.add(it)
                ref.insert(want, (k, n - 1))
                if real[got] is not it: raise Violation('insertion of %r reports position %r but it is not there' % (a, got), key='position')
            if got != want: raise Violation('%s of key %r at position %r instead of %r' % (a[0], a[1], got, want), key='position')
        elif a[0] == 'remove':
            real.remove_n_worst_points(a[1])
            gone += ref[:a[1]]
            del ref[:a[1]]
        elif a[0] == 'pickle':
            old = real
            real = pickle.loads(pickle.dumps(real))
            compare(old, ref, 'pickling', of, keyf)
            if type(real) is not type(old): raise Violation('pickling changes the type to %s' % type(real).__name__, key='type')
        elif a[0] == 'slice':
            w = [of(p) for p in real[:2]]
            if w != [u for _, u in ref[:2]]: raise Violation('the lowest two are %r' % w, key='slice')
        compare(real, ref, '%s after %d operations' % (a, step), of, keyf)
        ch.step()
        ch.state((kind, tuple(ref)))
    ch.outcome = (kind, len(ref))


def long(case, ch):
    """Long histories of large lists."""
    n, word = case
    real = OrderedLivePoints([pt(float((i * 31) % (n // 2 + 1)), i) for i in range(n)])
    ref = sorted([(float((i * 31) % (n // 2 + 1)), i) for i in range(n)], key=lambda t: t[0])
    compare(real, ref, 'construction')
    for step in range(3 * n):
        a = word[step % len(word)]
        if a == 'remove':
            if len(ref) > 2: real.remove_n_worst_points(2); del ref[:2]
        elif a == 'pickle':
            if step % 40 < 4: real = pickle.loads(pickle.dumps(real))
        else:
            k = dict(low=ref[0][0] - 1.0, tie=ref[len(ref) // 2][0], high=ref[-1][0] + 1.0, last=ref[-1][0], near=ref[len(ref) * 9 // 10][0] + 0.25)[a]
            lo, hi = 0, len(ref)
            while lo < hi:
                m = (lo + hi) // 2
                if ref[m][0] <= k: lo = m + 1
                else: hi = m
            it = pt(k, n + step)
            got = real.insert_live_point(it)
            ref.insert(lo, (k, n + step))
            if got != lo or real[got] is not it: raise Violation('insertion of key %r in a list of %d at position %r instead of %r' % (k, len(ref) - 1, got, lo), key='position')
        if step % 50 == 0: compare(real, ref, 'after %d operations' % step)
        ch.step()
    compare(real, ref, 'at the end')
    ch.state(case)
    ch.outcome = len(ref)


def main(ctx):
    q = ctx.quick
    A = ('low', 'tie', 'high', 'last', 'near', 'remove', 'pickle')
    ws = [w for k in (1, 2, 3) for w in itertools.product(A, repeat=k) if any(a not in ('remove', 'pickle') for a in w)]
    ctx.for_all('large', long, [(n, w) for n in (70, 400) for w in ws if n < 100 or not q or len(w) < 3], budget=ctx.budget(40, 300), rule='lists of 70 and 400 items, words of up to three operations repeated to a length of three times the size')
    K = (1.0, 2.0)
    cs = []
    for n in range(0, 5):
        for init in itertools.product((-INF, 1.0, 2.0) if n < 4 else K, repeat=n): cs.append(('live', init, (5 if n < 3 else 4) if q else (6 if n < 4 else 5), (1.0, 2.0, 1.5)))
    for n in range(0, 4):
        for init in itertools.product(K, repeat=n):
            cs += [('first', init, 4 if q else 6, K), ('neg', init, 4 if q else 5, K)]
    ctx.explore_cases('operations', run, cs, budget=ctx.budget(120, 1200), rule='all sequences of operations from all small initial lists')

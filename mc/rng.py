"""Owns every random draw of the code under test.

install() replaces the functions of `random` and `numpy.random` (and the RandomState scipy uses) by shims that
ask the *current source*.  It must run before cpnest is imported, because cpnest binds the functions by name.

A source implements a few primitives; everything else is expressed by them.
"""
import random as _random
import threading
import numpy as np

_orig = {}
_tls = threading.local()
_default = None


class Source:
    """Primitives.  Subclasses implement u01, gauss, expo, index and weighted."""

    def u01(self): raise NotImplementedError
    def gauss(self): raise NotImplementedError
    def expo(self): raise NotImplementedError
    def index(self, n): raise NotImplementedError

    def uniform(self, a, b): return a + (b - a) * self.u01()

    def weighted(self, p):
        u = self.u01(); c = 0.0
        for i, w in enumerate(p):
            c += w
            if u < c: return i
        return max(i for i, w in enumerate(p) if w > 0)

    def perm(self, n):
        left = list(range(n)); out = []
        while left:
            out.append(left.pop(self.index(len(left)) if len(left) > 1 else 0))
        return out

    def subset(self, n, k):
        left = list(range(n)); out = []
        for _ in range(k):
            out.append(left.pop(self.index(len(left)) if len(left) > 1 else 0))
        return out

    # identity of the streams, for checks about seeding
    used_np = set()
    np_lineage = ('os',)
    py_lineage = ('os',)
    _fresh = 0

    def np_seed(self, s):
        Source._fresh += 1
        self.np_lineage = ('seed', int(s)) if s is not None else ('fresh', Source._fresh)

    def py_seed(self, s):
        Source._fresh += 1
        self.py_lineage = ('seed', s) if s is not None else ('fresh', Source._fresh)

    def get_np_state(self): return ('lineage', self.np_lineage)
    def set_np_state(self, st): self.np_lineage = st[1]
    def get_py_state(self): return ('lineage', self.py_lineage)
    def set_py_state(self, st): self.py_lineage = st[1]


class Stream(Source):
    """Deterministic pseudo-random stream (one generator for everything)."""

    def __init__(self, seed=0, np_lineage=('os',), py_lineage=('os',)):
        self.r = _random.Random(seed)
        self.used_np = set()
        self.np_lineage, self.py_lineage = np_lineage, py_lineage

    def u01(self): return self.r.random()
    def gauss(self): return self.r.normalvariate(0.0, 1.0)
    def expo(self): return self.r.expovariate(1.0)
    def index(self, n): return self.r.randrange(n)


def set_default(src):
    global _default
    _default = src


def set_thread(src):
    _tls.src = src


def cur():
    s = getattr(_tls, 'src', None)
    if s is None:
        s = _default
    if s is None:
        raise RuntimeError('random draw outside a controlled execution')
    return s


def curn():
    """Source for a numpy draw; notes from which stream it comes."""
    s = cur()
    s.used_np.add(s.np_lineage)
    return s


class using:
    """Context manager: make src the source of this thread."""
    def __init__(self, src): self.src = src
    def __enter__(self):
        self.old = getattr(_tls, 'src', None)
        _tls.src = self.src
        return self.src
    def __exit__(self, *a):
        _tls.src = self.old


def _fill(size, f):
    if size is None:
        return f()
    if isinstance(size, (int, np.integer)):
        size = (int(size),)
    n = int(np.prod(size)) if len(size) else 1
    vals = [f() for _ in range(n)]
    return np.array(vals).reshape(size) if n else np.zeros(size)


def _bcast(size, f, *args):
    """f(*scalars) -> value, with numpy broadcasting of args when they are arrays."""
    if all(np.ndim(a) == 0 for a in args):
        return _fill(size, lambda: f(*args))
    b = np.broadcast(*args) if size is None else None
    shape = b.shape if size is None else (size if isinstance(size, tuple) else (size,))
    arrs = [np.broadcast_to(a, shape) for a in args]
    out = np.empty(shape)
    for i in np.ndindex(*shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


# ---- python's random -----------------------------------------------------------------------------------------
def py_random(): return cur().u01()
def py_uniform(a, b): return cur().uniform(a, b)
def py_gauss(mu=0.0, sigma=1.0): return mu + sigma * cur().gauss()
def py_expovariate(lambd=1.0): return cur().expo() / lambd
def py_randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if len(r) == 0: raise ValueError('empty range for randrange()')
    return r[cur().index(len(r)) if len(r) > 1 else 0]
def py_randint(a, b): return py_randrange(a, b + 1)
def py_choice(seq):
    if not len(seq): raise IndexError('Cannot choose from an empty sequence')
    return seq[cur().index(len(seq)) if len(seq) > 1 else 0]
def py_sample(population, k, *, counts=None):
    if isinstance(population, (set, frozenset)) or not hasattr(population, '__getitem__'):
        raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
    n = len(population)
    if not 0 <= k <= n: raise ValueError('Sample larger than population or is negative')
    return [population[i] for i in cur().subset(n, k)]
def py_shuffle(x):
    p = cur().perm(len(x)); old = list(x)
    for i, j in enumerate(p): x[i] = old[j]
def py_choices(population, weights=None, *, cum_weights=None, k=1):
    n = len(population)
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    if weights is None:
        return [population[cur().index(n) if n > 1 else 0] for _ in range(k)]
    t = float(sum(weights))
    return [population[cur().weighted([w / t for w in weights])] for _ in range(k)]
def py_seed(a=None, version=2): cur().py_seed(a)
def py_getstate(): return cur().get_py_state()
def py_setstate(s): cur().set_py_state(s)


# ---- numpy.random --------------------------------------------------------------------------------------------
def np_uniform(low=0.0, high=1.0, size=None):
    return _bcast(size, lambda a, b: curn().uniform(a, b), low, high)
def np_random(size=None): return _fill(size, lambda: curn().u01())
def np_rand(*shape): return _fill(shape if shape else None, lambda: curn().u01())
def np_normal(loc=0.0, scale=1.0, size=None):
    return _bcast(size, lambda m, s: m + s * curn().gauss(), loc, scale)
def np_standard_normal(size=None): return _fill(size, lambda: curn().gauss())
def np_randn(*shape): return _fill(shape if shape else None, lambda: curn().gauss())
def np_exponential(scale=1.0, size=None): return _bcast(size, lambda s: s * curn().expo(), scale)
def np_standard_exponential(size=None): return _fill(size, lambda: curn().expo())
def np_randint(low, high=None, size=None, dtype=int):
    if high is None: low, high = 0, low
    if high <= low: raise ValueError('low >= high')
    n = int(high) - int(low)
    return _fill(size, lambda: int(low) + (curn().index(n) if n > 1 else 0))
def np_choice(a, size=None, replace=True, p=None):
    arr = np.arange(a) if np.ndim(a) == 0 else None
    if arr is None:
        try:
            arr = np.array(a, copy=False)
        except ValueError:
            arr = np.asarray(a)
    n = arr.shape[0]
    if n == 0: raise ValueError('a must be non-empty')
    if p is not None:
        p = np.asarray(p, float)
        if p.shape != (n,): raise ValueError("'a' and 'p' must have same size")
        if np.any(p < 0) or np.any(np.isnan(p)): raise ValueError('probabilities are not non-negative')
        if abs(p.sum() - 1.0) > 1.5e-8: raise ValueError('probabilities do not sum to 1')
    if replace:
        pick = (lambda: (curn().index(n) if n > 1 else 0)) if p is None else (lambda: curn().weighted(list(p)))
        if size is None: return arr[pick()]
        shape = size if isinstance(size, tuple) else (int(size),)
        idx = [pick() for _ in range(int(np.prod(shape)))]
        return arr[np.array(idx, dtype=int)].reshape(shape + arr.shape[1:])
    k = 1 if size is None else int(np.prod(size))
    if p is None:
        idx = curn().subset(n, k)
    else:
        q = list(p); idx = []
        for _ in range(k):
            t = sum(q); i = curn().weighted([x / t for x in q]); idx.append(i); q[i] = 0.0
    if size is None: return arr[idx[0]]
    return arr[np.array(idx, dtype=int)].reshape((size if isinstance(size, tuple) else (size,)) + arr.shape[1:])
def np_permutation(x):
    if np.ndim(x) == 0: return np.array(curn().perm(int(x)), dtype=int)
    a = np.array(x)
    return a[np.array(curn().perm(len(a)), dtype=int)] if len(a) else a
def np_shuffle(x):
    p = curn().perm(len(x))
    if isinstance(x, np.ndarray):
        if len(x): x[...] = x[np.array(p, dtype=int)].copy()
    else:
        old = list(x)
        for i, j in enumerate(p): x[i] = old[j]
def np_multivariate_normal(mean, cov, size=None, check_valid='warn', tol=1e-8):
    mean = np.atleast_1d(np.asarray(mean, float)); cov = np.atleast_2d(np.asarray(cov, float))
    w, v = np.linalg.eigh(cov)
    a = v * np.sqrt(np.maximum(w, 0.0))
    shape = () if size is None else (size if isinstance(size, tuple) else (int(size),))
    n = int(np.prod(shape)) if shape else 1
    out = np.array([mean + a @ np.array([curn().gauss() for _ in range(len(mean))]) for _ in range(n)])
    return out.reshape(shape + (len(mean),))
def np_seed(seed=None): cur().np_seed(seed)
def np_get_state(legacy=True): return cur().get_np_state()
def np_set_state(state): cur().set_np_state(state)


class _Rand:
    """Stands for the global RandomState (used by scipy)."""
    uniform = staticmethod(np_uniform); random_sample = staticmethod(np_random); random = staticmethod(np_random)
    rand = staticmethod(np_rand); randn = staticmethod(np_randn); normal = staticmethod(np_normal)
    standard_normal = staticmethod(np_standard_normal); exponential = staticmethod(np_exponential)
    randint = staticmethod(np_randint); choice = staticmethod(np_choice)
    permutation = staticmethod(np_permutation); shuffle = staticmethod(np_shuffle)
    multivariate_normal = staticmethod(np_multivariate_normal)
    seed = staticmethod(np_seed); get_state = staticmethod(np_get_state); set_state = staticmethod(np_set_state)
    def __reduce__(self): return (_the_rand, ())


RAND = _Rand()


def _the_rand(): return RAND


def install():
    if _orig: return
    for n, f in dict(random=py_random, uniform=py_uniform, gauss=py_gauss, normalvariate=py_gauss,
                     expovariate=py_expovariate, randrange=py_randrange, randint=py_randint, choice=py_choice,
                     sample=py_sample, shuffle=py_shuffle, choices=py_choices, seed=py_seed,
                     getstate=py_getstate, setstate=py_setstate).items():
        _orig['py.' + n] = getattr(_random, n)
        setattr(_random, n, f)
    for n, f in dict(uniform=np_uniform, random=np_random, random_sample=np_random, ranf=np_random, sample=np_random,
                     rand=np_rand, normal=np_normal, standard_normal=np_standard_normal, randn=np_randn,
                     exponential=np_exponential, standard_exponential=np_standard_exponential, randint=np_randint,
                     choice=np_choice, permutation=np_permutation, shuffle=np_shuffle,
                     multivariate_normal=np_multivariate_normal, seed=np_seed,
                     get_state=np_get_state, set_state=np_set_state).items():
        _orig['np.' + n] = getattr(np.random, n)
        setattr(np.random, n, f)
    np.random.mtrand._rand = RAND


class Enum(Source):
    """Every draw is a choice of the explorer.  Continuous draws come from finite atoms.

    u, g, e: lists of (atom, weight); weights multiply into self.weight, the probability of the execution.
    """
    def __init__(self, chooser, u=None, g=None, e=None):
        self.ch = chooser
        self.u_atoms = u or [(0.125, .25), (0.375, .25), (0.625, .25), (0.875, .25)]
        self.g_atoms = g or [(0.5, .25), (-0.5, .25), (1.5, .25), (-1.5, .25)]
        self.e_atoms = e or [(0.25, .5), (1.5, .5)]
        self.weight = 1
        self.log = []

    def _pick(self, kind, atoms):
        i = self.ch.choose(len(atoms), kind)
        self.weight = self.weight * atoms[i][1]
        self.log.append((kind, atoms[i][0]))
        return atoms[i][0]

    def u01(self): return self._pick('u', self.u_atoms)
    def gauss(self): return self._pick('g', self.g_atoms)
    def expo(self): return self._pick('e', self.e_atoms)

    def index(self, n):
        i = self.ch.choose(n, 'i')
        if hasattr(self.weight, 'denominator'):
            from fractions import Fraction
            self.weight = self.weight * Fraction(1, n)
        else:
            self.weight = self.weight / n
        self.log.append(('i', i))
        return i

    def weighted(self, p):
        nz = [i for i, w in enumerate(p) if w > 0]
        k = nz[self.ch.choose(len(nz), 'w')]
        self.weight = self.weight * p[k]
        self.log.append(('w', k))
        return k

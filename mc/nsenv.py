"""Real NestedSampler against scripted workers: the answers are enumerated, a reference sampler judges."""
import array, copy, logging, math, os, shutil, sys
from mc import rng
rng.install()
import numpy as np
import cpnest, cpnest.NestedSampling as NSm, cpnest.cpnest as CPm, cpnest.model as MODm
from cpnest.parameter import LivePoint
from mc.explore import Violation

logging.disable(logging.CRITICAL)
INF = float('inf')


class Val:
    """Shared value without scheduling."""
    def __init__(self, v=-INF): self.value = v
    def get_lock(self): return self
    def acquire(self, *a): return True
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def get_obj(self): return self


class Model(MODm.Model):
    names = ['x', 'y']
    bounds = [[-1.0, 1.0], [-1.0, 1.0]]
    def log_likelihood(self, p): return 0.0


def point(uid, logL, logP=0.0):
    """A worker's answer; the parameters identify it."""
    p = LivePoint(Model.names, d=array.array('d', [1.0 / (uid + 3.0), -uid * 0.1]))
    p.logL, p.logP = logL, logP
    return p


def ident(p): return tuple(p.values)


class Stuck(Exception): pass


class Pipe:
    def __init__(self, env, i): self.env, self.i, self.q = env, i, []
    def send(self, o): self.env.on_send(self.i, o)
    def recv(self): return self.env.on_recv(self.i)
    def poll(self, timeout=None): return bool(self.env.out[self.i])
    def close(self): pass


class Manager:
    def __init__(self, env, n):
        self.nthreads = n
        self.consumer_pipes = [Pipe(env, i) for i in range(n)]
        self.producer_pipes = self.consumer_pipes
        self.logLmin, self.logLmax = Val(), Val()
        self.periodic_checkpoint_interval = INF
        self.checkpoint_flag = Val(0)


class Env:
    """Environment of one NestedSampler run."""
    def __init__(self, nlive, nthreads, outdir, stopping=0.1, prior_sampling=False, verbose=0, answers=None, seed=7):
        self.N, self.n, self.outdir = nlive, nthreads, outdir
        self.stopping, self.prior_sampling, self.verbose, self.seed = stopping, prior_sampling, verbose, seed
        self.manager = Manager(self, nthreads)
        self.out = [[] for _ in range(nthreads)]       # outstanding requests per worker
        self.uid = 0
        self.delivered = {}                            # ident -> (logL, logP)
        self.closed = [False] * nthreads
        self.ckpt = [0] * nthreads
        self.answers = answers                         # f(env, i, request) -> (logL, logP)
        self.trace = []                                # (kind, ...) in order
        self.horizon = 4000
        self.lead = 0.0

    def make(self):
        self.ns = NSm.NestedSampler(Model(), manager=self.manager, nlive=self.N, output=self.outdir,
                                    verbose=self.verbose, seed=self.seed, prior_sampling=self.prior_sampling,
                                    stopping=self.stopping)
        return self.ns

    def on_send(self, i, o):
        self.horizon -= 1
        if self.horizon < 0: raise Violation('the main loop does not end (horizon reached)', key='horizon')
        if o is None:
            self.closed[i] = True
            self.trace.append(('close', i, self.manager.logLmin.value))
        elif isinstance(o, str):
            self.ckpt[i] += 1
        else:
            if self.closed[i]:
                raise Violation('request sent to worker %d after it was told to stop' % i, key='send-after-close')
            self.out[i].append(o)
            self.trace.append(('req', i, o, ident(o), float(o.logL)))

    def on_recv(self, i):
        self.horizon -= 1
        if self.horizon < 0: raise Violation('the main loop does not end (horizon reached)', key='horizon')
        if not self.out[i]:
            raise Violation('main process waits for worker %d, which has no request to answer: deadlock' % i, key='deadlock')
        req = self.out[i].pop(0)
        ans = self.answers(self, i, req)
        logL, logP = ans[:2]
        jumps = ans[2] if len(ans) > 2 else 3
        p = point(self.uid, logL, logP)
        self.uid += 1
        self.delivered[ident(p)] = (logL, logP)
        self.trace.append(('ans', i, ident(p), logL, logP, self.manager.logLmin.value, self.manager.logLmax.value))
        if logL + self.lead > self.manager.logLmax.value: self.manager.logLmax.value = logL + self.lead
        return (0.5, 0.25, jumps, p)

    def run(self):
        self.result = self.ns.nested_sampling_loop()
        return self.ns


# ---- reference ---------------------------------------------------------------------------------------------
def lae(a, b):
    if a == -INF: return b
    if b == -INF: return a
    m = max(a, b)
    if math.isinf(m): return m
    return m + math.log(math.exp(a - m) + math.exp(b - m))


def log1mexp(d):
    """log(1-exp(d)), d<0"""
    return math.log(-math.expm1(d))


def ref_trap(logLs, logvols):
    z = -INF
    for a, b, u, v in zip(logLs, logLs[1:], logvols, logvols[1:]):
        z = lae(z, lae(a, b) - math.log(2) + u + log1mexp(v - u))
    return z


class RefNS:
    """Reference nested sampler: same answers, plain bookkeeping."""
    def __init__(self, N, n, tol):
        self.N, self.n, self.tol = N, n, tol
        self.live, self.dead, self.idx = [], [], []
        self.logLs, self.vols = [-INF], [0.0]
        self.Z, self.S = -INF, 0.0
        self.H = 0.0
        self.it = 0
        self.cond = INF
        self.accepted = self.rejected = 0

    def populate(self, pts):
        self.live = sorted(pts, key=lambda q: q[1])      # stable

    def integrate(self, L, dlog):
        W = self.vols[-1] + L + log1mexp(dlog)
        oldZ = self.Z
        self.Z = lae(self.Z, W)
        if math.isfinite(self.Z) and math.isfinite(L):
            self.H = math.exp(W - self.Z) * L + (math.exp(oldZ - self.Z) * (self.H + oldZ) if math.isfinite(oldZ) else 0.0) - self.Z
            if math.isnan(self.H): self.H = 0.0
        self.logLs.append(L); self.vols.append(self.vols[-1] + dlog)

    def threshold(self): return self.live[self.n - 1][1]

    def begin(self, lmax):
        self.worst = self.live[:self.n]
        self.thr = self.threshold()
        self.integrate(self.thr, -self.n / self.N)
        self.dead += self.worst
        self.live = self.live[self.n:]
        self.cond = lae(self.Z, lmax - self.it / self.N) - self.Z
        return self.cond

    def accept(self, q):
        k = sum(1 for r in self.live if r[1] <= q[1])
        self.idx.append(k / len(self.live) if self.live else float('nan'))
        self.live.insert(k, q)
        self.it += 1

    def finish(self):
        for i, q in enumerate(self.live):
            self.integrate(q[1], -1.0 / (self.N - i))
            self.dead.append(q)
        self.logZ = ref_trap(self.logLs, self.vols)

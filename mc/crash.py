"""Runs under the crash shim: makes checkpointing die at every file-system call.  python -m mc.crash '{"kind":...}' prints a JSON result."""
import ctypes, json, os, sys
sys.path.insert(0, os.environ['MC_PKG'])
from mc import rng
import numpy as np
from mc import wenv as W, nsenv, nscheck
from checks.c12 import wstate, observe, same, proposal, Drv, acts

INF = float('inf')
lib = ctypes.CDLL(os.environ['LD_PRELOAD'].split(':')[0])
lib.crash_name.restype = ctypes.c_char_p
DIR = None
BASE = None
FAULTS = {0: 'dies before it', 1: 'dies with half of the data written', 2: 'dies with one byte written', 3: 'dies after it', 4: 'fails (no space)',
          5: 'writes half, then no space', 6: 'is answered by a short write', 7: 'does not happen: power is lost, with it the data not synced'}


def model(kind): return nsenv.Model() if kind == 'ns' else W.Model('quad', dim=2)


def make(kind, size):
    """An object to be checkpointed, with some history; size: so that the pickle takes several writes."""
    if kind == 'ns':
        N = 3 if size == 'small' else 1500
        st = dict(k=0)

        def ans(env, i, req):
            st['k'] += 1
            return (float(st['k']), -0.5)
        e = nsenv.Env(N, 2, DIR + os.sep, answers=ans)
        e.horizon = 10 ** 9
        e.make()
        e.ns.reset()
        for _ in range(3): e.ns.consume_sample()
        e.ns.keepalive = e = e
        del e.ns.keepalive
        return e.ns
    m = model(kind)
    drv = Drv(m, acts([], 'none'), nlive=2, seed=1)
    s = W.TYPES[kind](m, 6, seed=3, output=DIR, verbose=0, poolsize=24 if size == 'small' else 300, proposal=proposal(kind, m, True), manager=drv.m,
                      resume_file=os.path.join(DIR, dict(mhs='sampler_0.pkl', hmc='sampler_hmc_0.pkl', sli='sampler_sli_0.pkl')[kind]))
    drv.worker = s
    s.reset()
    return s


def advance(kind, o):
    """A little further, so that checkpoints differ."""
    if kind == 'ns': o.consume_sample()
    else: next(o.yield_sample(-INF))


def state(kind, o): return observe(o) if kind == 'ns' else wstate(o)


def resume(kind):
    f = path(kind)
    if kind == 'ns':
        e = nsenv.Env(3, 2, DIR + os.sep, answers=None)
        st = dict(k=10 ** 6)

        def ans(env, i, req):
            st['k'] += 1
            return (float(st['k']), -0.5)
        e.answers = ans
        e.horizon = 10 ** 9
        return nsenv.NSm.NestedSampler.resume(f, e.manager, model(kind))
    m = model(kind)
    return W.TYPES[kind].resume(f, Drv(m, None).m, m)


FILE = {}
def path(kind): return FILE[kind]


def snapshot():
    return {f: open(os.path.join(DIR, f), 'rb').read() for f in os.listdir(DIR)}


def put(snap):
    for f in os.listdir(DIR):
        if f not in snap: os.remove(os.path.join(DIR, f))
    for f, b in snap.items():
        with open(os.path.join(DIR, f), 'wb') as g: g.write(b)


def forked(fn):
    """fn() in a child; returns (exit status, what it sent)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
            os.write(w, json.dumps(out).encode())
            os._exit(0)
        except BaseException as e:
            try: os.write(w, json.dumps(dict(error='%s: %s' % (type(e).__name__, e))).encode())
            except BaseException: pass
            os._exit(1)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        b += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)), (json.loads(b) if b else None)


class Bad(Exception): pass


def main(spec):
    global DIR
    kind, size, depth, faults = spec['kind'], spec['size'], spec['depth'], spec['faults']
    rng.set_default(rng.Stream(4))
    base = DIR = spec['dir'] + os.sep + 'out'
    os.makedirs(DIR)
    o = make(kind, size)
    FILE[kind] = o.resume_file
    res = dict(points=0, pairs=0, states=set(), calls=[], violation=None)
    s_old = state(kind, o)

    def disk(allowed, what):
        """The checkpoint on disk is one of the allowed; None: there may be none.  Returns which."""
        if not os.path.exists(path(kind)):
            if None not in allowed: raise Bad('%s: there is no checkpoint' % what)
            return None

        def look():
            r = resume(kind)
            got = state(kind, r)
            for i, a in enumerate(allowed):
                if a is not None and near(a, got): return i
            return 'other: ' + str([k for k in got if not same(got[k], (allowed[-1] or {}).get(k))])
        # in a child: resuming must not be able to hurt
        rc, out = forked(look)
        if rc != 0: raise Bad('%s: the checkpoint cannot be resumed: %s' % (what, (out or {}).get('error')))
        if not isinstance(out, int): raise Bad('%s: the checkpoint holds neither the old nor the new state (%s)' % (what, out))
        return allowed[out]

    def near(a, got):
        # thresholds of the resumed one may be those of its points
        return same(a, got)

    def attempt(obj, k, mode, op):
        """op on obj in a child which dies at its k-th call."""
        def act():
            lib.crash_arm((DIR + os.sep).encode(), k, mode)
            err = None
            try: op(obj)
            except OSError as e: err = str(e)
            if mode == 7: lib.crash_power()
            n = lib.crash_count()
            lib.crash_disarm()
            return dict(n=n, err=err, names=[lib.crash_name(i).decode() for i in range(min(n, 400))])
        return forked(act)

    def checkpoint(x): x.checkpoint()

    def sweep(obj, old, new, level, label, then):
        """All faults of one checkpoint call of obj, whose file holds old before."""
        before = snapshot()
        rc, out = attempt(obj, 0, 0, checkpoint)
        if rc != 0: raise Bad('%scheckpointing failed: %s' % (label, (out or {}).get('error')))
        n, names = out['n'], out['names']
        if level == 0: res['calls'].append(names)
        if out['err']: raise Bad('%scheckpointing failed: %s' % (label, out['err']))
        disk([new], label + 'after a complete checkpoint')
        if n == 0: raise RuntimeError('the shim sees no calls')
        for k in range(1, n + 2):
            for mode in faults:
                if k > n and mode != 7: continue
                if mode in (1, 2, 5, 6) and names[k - 1] != 'write': continue
                put(before)
                what = '%scall %d of %d (%s) %s' % (label, k, n, names[k - 1], FAULTS[mode]) if k <= n else '%spower is lost after the checkpoint call, with it the data not synced' % label
                rc, out = attempt(obj, k, mode, checkpoint)
                res['points'] += 1
                if rc == 0 and not out['err']:
                    if mode <= 3 or mode == 7: raise RuntimeError('no death at ' + what)
                    disk([new], what + ' and the checkpoint call returned')
                    held = new
                elif rc in (99, 0):
                    held = disk([old, new], what)
                else: raise Bad('%s: %s' % (what, (out or {}).get('error')))
                left = sorted(os.listdir(DIR))
                res['states'].add((tuple(left), held is old, level))
                if then: then(held, what + '; then ')
        put(before)

    def second(obj2, s2):
        def f(held, label):
            """The next process resumes, goes on and writes a checkpoint: it must work, and may die as well."""
            res['pairs'] += 1
            if depth == 1:
                rc, out = attempt(obj2, 0, 0, checkpoint)
                if rc != 0 or out['err']: raise Bad('%sthe next checkpoint failed: %s' % (label, (out or {}).get('error') or out['err']))
                disk([s2], label + 'the next checkpoint')
            else:
                sweep(obj2, held, s2, 1, label, None)
        return f

    try:
        # the objects and states
        o.checkpoint()
        full0 = snapshot()
        s_old = state(kind, resume(kind))
        first = {f: b for f, b in full0.items() if f != os.path.basename(path(kind))}
        advance(kind, o)
        advance(kind, o)
        o.checkpoint()
        s_new = state(kind, resume(kind))
        put(full0)
        if same(s_old, s_new): raise RuntimeError('states do not differ')
        o2 = resume(kind)
        for _ in range(5): advance(kind, o2)
        o2.checkpoint()
        s2 = state(kind, resume(kind))
        put(full0)
        # with a previous checkpoint and without one
        sweep(o, s_old, s_new, 0, '', second(o2, s2))
        put(first)
        sweep(o, None, s_new, 0, 'no checkpoint before: ', second(o2, s2))
        # resuming does not hurt either
        put(full0)
        rc, out = attempt(None, 0, 0, lambda x: resume(kind))
        if rc != 0: raise Bad('resuming failed: %s' % (out or {}).get('error'))
        for k in range(1, out['n'] + 1):
            for mode in faults:
                put(full0)
                attempt(None, k, mode, lambda x: resume(kind))
                res['points'] += 1
                disk([s_old], 'died while resuming, at call %d' % k)
        put(full0)
        disk([s_old], 'after resuming')
    except Bad as e:
        res['violation'] = '%s: %s' % (dict(ns='nested sampler', mhs='Metropolis-Hastings sampler', hmc='Hamiltonian sampler', sli='slice sampler')[kind], e)
    res['states'] = sorted(map(str, res['states']))
    print('RESULT ' + json.dumps(res))


if __name__ == '__main__': main(json.loads(sys.argv[1]))

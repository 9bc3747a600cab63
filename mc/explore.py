"""Exhaustive depth-first exploration of choice sequences with a bound on deviations."""
import multiprocessing, os, pickle, sys, traceback
from time import time as _now     # the clock of the code under test may be replaced

_ctx = multiprocessing.get_context('fork')


class Violation(Exception):
    """The property is broken on the current execution. key identifies the failing thing, for known findings."""
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail

    def __reduce__(self): return (Violation, (self.msg, self.key, self.detail))


class Divergence(Exception):
    """Replaying a prefix met a different choice point: the harness does not own all nondeterminism."""


class Prune(Exception):
    """The harness abandons this execution (not a violation; counted)."""


class Chooser:
    def __init__(self, prefix=(), expect=None):
        self.prefix = list(prefix)
        self.expect = expect            # [(n, label)] for the prefix
        self.choices, self.points = [], []
        self.states = set()
        self.trans = 0
        self.outcome = None

    def choose(self, n, label='', dev=False):
        if n <= 1:
            return 0
        i = len(self.choices)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence('choice %d of %d at %r' % (c, n, label))
            if self.expect is not None and i < len(self.expect) and self.expect[i] != (n, str(label)):
                raise Divergence('expected %r, met %r' % (self.expect[i], (n, label)))
        self.choices.append(c)
        self.points.append((n, str(label), dev))
        self.trans += 1
        return c

    def state(self, obs):
        """Note an observed state (canonical, hashable)."""
        self.states.add(hash(obs))

    def step(self, k=1): self.trans += k


class Stats:
    def __init__(self):
        self.execs = self.pruned = self.trans = self.points = 0
        self.states, self.outcomes = set(), {}
        self.violations, self.samples = [], []
        self.capped = False
        self.maxdepth = 0
        self.bydev = {}
        self.subs = None

    def add(self, ch, dev):
        self.execs += 1
        self.trans += ch.trans
        self.points += len(ch.points)
        self.maxdepth = max(self.maxdepth, len(ch.choices))
        if len(self.states) < 3_000_000: self.states |= ch.states
        self.bydev[dev] = self.bydev.get(dev, 0) + 1
        if ch.outcome is not None:
            self.outcomes[ch.outcome] = self.outcomes.get(ch.outcome, 0) + 1
            if len(self.samples) < 3 and self.outcomes[ch.outcome] == 1:
                self.samples.append(dict(choices=trim(ch.choices), labels=[p[1] for p in ch.points][:40],
                                         outcome=str(ch.outcome)[:300]))

    def merge(self, o):
        self.execs += o.execs; self.pruned += o.pruned; self.trans += o.trans; self.points += o.points
        self.states |= o.states
        for k, v in o.outcomes.items(): self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.bydev.items(): self.bydev[k] = self.bydev.get(k, 0) + v
        self.violations += o.violations
        self.samples = (self.samples + o.samples)[:4]
        self.capped |= o.capped
        self.maxdepth = max(self.maxdepth, o.maxdepth)


def trim(choices):
    c = list(choices)
    while c and c[-1] == 0: c.pop()
    return c


def in_code(tb):
    """Does the traceback pass through cpnest?"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.sep + 'cpnest' + os.sep in f and '.build' in f or f.startswith('cpnest/'):
            return True
        tb = tb.tb_next
    return False


def guarded(run, ch):
    """Run one execution; a violation is returned as a dict, an exception inside cpnest counts as one."""
    try:
        run(ch)
        return None
    except Prune:
        return 'pruned'
    except Violation as v:
        return dict(msg=v.msg, key=v.key, detail=v.detail, choices=trim(ch.choices),
                    labels=[p[1] for p in ch.points][:len(trim(ch.choices)) + 5])
    except Divergence:
        raise
    except Exception as e:
        if isinstance(e, (MemoryError, OSError, ImportError)) and not isinstance(e, FileNotFoundError) and not in_code(e.__traceback__): raise
        # an exception in the harness comes from results which it has no use for; it never happens on correct code
        where = 'in cpnest' if in_code(e.__traceback__) else 'when using the results'
        return dict(msg='unexpected %s %s: %s' % (type(e).__name__, where, e), key='exception:' + type(e).__name__,
                    detail=traceback.format_exc()[-3000:], choices=trim(ch.choices),
                    labels=[p[1] for p in ch.points][:len(trim(ch.choices)) + 5])


def children(ch, base, bound):
    """Prefixes extending the execution ch by one more non-default choice after position base."""
    out, dev = [], 0
    for i, (n, _, d) in enumerate(ch.points):
        if i >= base:
            for alt in range(1, n):
                nd = dev + (1 if d else 0)
                if nd > bound: break
                out.append(ch.choices[:i] + [alt])
        if d and ch.choices[i]: dev += 1
    return out


def devs(ch): return sum(1 for c, p in zip(ch.choices, ch.points) if c and p[2])


def dfs(run, prefix, bound, deadline, stats, ignore, maxviol=1):
    stack = [(prefix, None)]
    while stack:
        if _now() > deadline:
            stats.capped = True
            return
        p, exp = stack.pop()
        ch = Chooser(p, exp)
        v = guarded(run, ch)
        if v == 'pruned':
            stats.pruned += 1
            v = None
        stats.add(ch, devs(ch))
        if v:
            if not ignore(v):
                stats.violations.append(v)
                if len(stats.violations) >= maxviol: return
            elif len(stats.violations) < 50:
                stats.violations.append(dict(v, known=True))
        exp = [(n, l) for n, l, _ in ch.points]
        for c in reversed(children(ch, len(p), bound)):
            stack.append((c, exp[:len(c)]))


def _never(v): return False


_job = None


def _work(args):
    prefixes, bound, deadline = args
    st = Stats()
    try:
        for p in prefixes:
            dfs(_job[0], p, bound, deadline, st, _job[1])
            if any(not v.get('known') for v in st.violations) or st.capped: break
        return ('ok', st)
    except BaseException:
        return ('err', traceback.format_exc())


def explore(run, bound=0, budget=60.0, jobs=8, ignore=_never, expand=None):
    """All executions of run(chooser) with at most `bound` deviations.  Returns Stats."""
    global _job
    t0 = _now(); deadline = t0 + budget
    stats = Stats()
    expand = expand or jobs * 24
    # widen breadth-first until there are enough subtrees
    frontier = [[]]
    while frontier and len(frontier) < expand:
        nxt = []
        for j, p in enumerate(frontier):
            if _now() > deadline:
                stats.capped = True
                return stats
            ch = Chooser(p)
            v = guarded(run, ch)
            if v == 'pruned': stats.pruned += 1; v = None
            stats.add(ch, devs(ch))
            if v:
                if not ignore(v):
                    stats.violations.append(v)
                    return stats
                stats.violations.append(dict(v, known=True))
            nxt += children(ch, len(p), bound)
        frontier = nxt
    if not frontier: return stats
    if jobs == 1 or len(frontier) < 16 or os.environ.get('MC_JOBS') == '1':
        for p in frontier:
            dfs(run, p, bound, deadline, stats, ignore)
            if any(not v.get('known') for v in stats.violations) or stats.capped: break
        return stats
    _job = (run, ignore)
    n = max(1, len(frontier) // (jobs * 16))
    chunks = [frontier[i::max(1, (len(frontier) + n - 1) // n)] for i in range(max(1, (len(frontier) + n - 1) // n))]
    merge_parallel(stats, _work, [(c, bound, deadline) for c in chunks], jobs)
    return stats


def _pin():
    """One core per worker: handing control between threads of a worker is much cheaper then."""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[multiprocessing.current_process()._identity[-1] % len(cpus)]})
    except Exception: pass


def merge_parallel(stats, work, tasks, jobs=8, subs=None):
    sys.stdout.flush(); sys.stderr.flush()
    with _ctx.Pool(min(jobs, max(1, len(tasks))), _pin) as pool:
        for kind, r in pool.imap_unordered(work, tasks):
            if subs is not None and kind == 'ok' and r.subs and r.subs[1]: subs.append(r.subs)
            if kind == 'err':
                pool.terminate()
                raise RuntimeError('harness error in worker:\n' + r)
            stats.merge(r)
            if any(not v.get('known') for v in stats.violations):
                pool.terminate()
                break


def _workcase(args):
    cases, deadline = args
    run, ignore = _job
    st = Stats()
    try:
        for c in cases:
            if _now() > deadline:
                st.capped = True
                break
            ch = Chooser()
            v = guarded(lambda ch: run(c, ch), ch)
            if v == 'pruned': st.pruned += 1; v = None
            st.add(ch, 0)
            if v:
                v['case'] = repr(c)[:2000]; v['case_obj'] = c
                if not ignore(v):
                    st.violations.append(v)
                    break
                st.violations.append(dict(v, known=True))
        return ('ok', st)
    except BaseException:
        return ('err', traceback.format_exc())


def for_all(run, cases, budget=60.0, jobs=8, ignore=_never):
    """run(case, chooser) for every case of a finite list (chooser only used for state/step counting)."""
    global _job
    cases = list(cases)
    stats = Stats()
    deadline = _now() + budget
    _job = (run, ignore)
    if len(cases) < 64 or jobs == 1 or os.environ.get('MC_JOBS') == '1':
        kind, r = _workcase((cases, deadline))
        if kind == 'err': raise RuntimeError('harness error:\n' + r)
        stats.merge(r)
        return stats
    k = jobs * 12
    merge_parallel(stats, _workcase, [(cases[i::k], deadline) for i in range(k) if cases[i::k]], jobs)
    return stats


def explore_cases(run, cases, bound=0, budget=60.0, jobs=8, ignore=_never):
    """For every case, all executions of run(case, chooser) with at most `bound` deviations."""
    global _job
    cases = list(cases)
    stats = Stats()
    deadline = _now() + budget
    _job = (run, ignore)
    if jobs == 1 or os.environ.get('MC_JOBS') == '1':
        for c in cases:
            kind, r = _workdfs((c, None, bound, deadline))
            if kind == 'err': raise RuntimeError('harness error:\n' + r)
            stats.merge(r)
            if any(not v.get('known') for v in stats.violations): break
        return stats
    # first the default execution of every case and (if there are few cases) one level of its alternatives ...
    subs = []
    tasks = [(c, 'root', bound, deadline) for c in cases]
    merge_parallel(stats, _workdfs, tasks, jobs, subs)
    if any(not v.get('known') for v in stats.violations) or not subs: return stats
    # ... then the subtrees, in pieces
    k = max(1, sum(len(p) for _, p in subs) // (jobs * 24))
    tasks = []
    for c, ps in subs:
        n = max(1, -(-len(ps) // k))
        tasks += [(c, ps[i::n], bound, deadline) for i in range(n)]
    merge_parallel(stats, _workdfs, tasks, jobs)
    return stats


def _workdfs(args):
    c, prefixes, bound, deadline = args
    run, ignore = _job
    st = Stats()
    try:
        f = lambda ch: run(c, ch)
        if prefixes == 'root':
            ch = Chooser()
            v = guarded(f, ch)
            if v == 'pruned': st.pruned += 1; v = None
            st.add(ch, 0)
            if v:
                if not ignore(v): st.violations.append(v)
                else: st.violations.append(dict(v, known=True))
            st.subs = (c, children(ch, 0, bound))
        else:
            for p in ([[]] if prefixes is None else prefixes):
                dfs(f, p, bound, deadline, st, ignore)
                if any(not v.get('known') for v in st.violations) or st.capped: break
        for v in st.violations: v['case'] = repr(c)[:2000]; v['case_obj'] = c
        return ('ok', st)
    except BaseException:
        return ('err', traceback.format_exc())

from mc import simrun as R, sim as S, rng
import itertools, logging, os, shutil, sys
from mc.explore import Violation, Prune
import cpnest
from cpnest import utils as U
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all sequences of opening, closing, logging and failing up to a depth on two log files, the files '
             'compared with an independent record of what was emitted; complete and interrupted runs under a controlled scheduler')
NOTE = 'Two files, all verbosities, three ranges of loggers, five levels, sequences of up to 6 (quick) or 8 operations; runs at every verbosity, interrupted at every scheduling point of one sampler mix.'
ASSUME = ['a log file is opened only when it is closed', 'records emitted by opening or closing the file itself may or may not be in it']
THRESH = [logging.CRITICAL, logging.WARNING, logging.INFO, logging.DEBUG]
EMIT = [('cpnest', logging.CRITICAL), ('cpnest.cpnest', logging.WARNING), ('cpnest.cpnest.CPNest', logging.INFO), ('cpnest.sampler', logging.DEBUG),
        ('cpnest.cpnest.CPNest', logging.ERROR), ('cpnest.sampler', logging.CRITICAL), ('cpnest', logging.DEBUG), ('cpnestling', logging.CRITICAL), ('other', logging.CRITICAL)]
BASE = logging.getLogger('cpnest')


class Quiet:
    """Logging is on, the console is silent, and what the package emits is recorded."""
    def __enter__(self):
        logging.disable(logging.NOTSET)
        self.null = open(os.devnull, 'w')
        self.streams = [(h, h.stream) for h in BASE.handlers if isinstance(h, logging.StreamHandler)]
        for h, _ in self.streams: h.stream = self.null
        self.root = logging.getLogger()
        self.roothandler = logging.NullHandler()
        self.root.addHandler(self.roothandler)
        self.handlers = {n: list(logging.getLogger(n).handlers) for n in names()}
        return self

    def left(self):
        out = []
        for n in names():
            for h in logging.getLogger(n).handlers:
                if h not in self.handlers.get(n, []): out.append((n, h))
        return out

    def __exit__(self, *a):
        for n, h in self.left(): logging.getLogger(n).removeHandler(h); h.close()
        for h, s in self.streams: h.stream = s
        self.root.removeHandler(self.roothandler)
        self.null.close()
        logging.disable(logging.CRITICAL)


def names(): return ['root'] + [n for n, l in logging.Logger.manager.loggerDict.items() if n.startswith('cpnest') and isinstance(l, logging.Logger)]


def fds(path):
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + f) == path: n += 1
        except OSError: pass
    return n


class Spec:
    """One log file and what must be in it."""
    def __init__(self, path, verbose, name):
        self.path, self.verbose, self.name = path, verbose, name
        self.log = U.LogFile(path, verbose=verbose, loggername=name)
        self.open = False
        self.want = []

    def emitted(self, logger, level, msg):
        if self.open and level >= THRESH[self.verbose] and (logger == self.name or logger.startswith(self.name + '.')): self.want.append(msg)


class Boom(Exception): pass


def ops(specs):
    o = [('emit',)]
    for i, s in enumerate(specs):
        o += [('close', i)] if s.open else [('open', i), ('fail', i), ('with', i)]
    return o


def history(case, ch):
    cfg, depth = case
    d = R.fresh()
    with Quiet() as q:
        specs = [Spec(os.path.join(d, 'log%d.txt' % i), v, n) for i, (v, n) in enumerate(cfg)]
        count = [0]
        everything = []

        def emit():
            for n, l in EMIT:
                msg = 'token-%d-end' % count[0]
                count[0] += 1
                everything.append(msg)
                for s in specs: s.emitted(n, l, msg)
                logging.getLogger(n).log(l, msg)
        trace, held = [], []
        for k in range(depth):
            choices = ops(specs)
            op = choices[ch.choose(len(choices), 'op')]
            trace.append(op)
            if op[0] == 'emit': emit()
            else:
                s = specs[op[1]]
                if op[0] == 'open': s.log.open(); s.open = True
                elif op[0] == 'close': s.open = False; s.log.close()
                elif op[0] == 'with':
                    with s.log:
                        s.open = True
                        held += [h for _, h in q.left()]
                        emit()
                        s.open = False
                else:
                    kind = (Boom, SystemExit, KeyboardInterrupt)[k % 3]
                    try:
                        with s.log:
                            s.open = True
                            held += [h for _, h in q.left()]
                            emit()
                            s.open = False
                            raise kind()
                    except kind: pass
                    else: raise Violation('leaving the log file hid an exception', key='exception')
            held += [h for _, h in q.left()]        # so that a file is closed by closing it, not by garbage collection
            open_now = sum(s.open for s in specs)
            if len(q.left()) != open_now: raise Violation('%d handlers attached with %d open log files after %r' % (len(q.left()), open_now, trace), key='handler')
            for s in specs:
                if not s.open and fds(s.path): raise Violation('a closed log file is still open in the process after %r' % (trace,), key='descriptor')
        for n, h in q.left(): h.flush()
        for s in specs:
            text = open(s.path).read() if os.path.exists(s.path) else ''
            for m in everything:
                c, w = text.count(m), s.want.count(m)
                if c != w: raise Violation('%s has %d copies of a record that belongs there %d times (verbosity %d, logger %s, after %r)' % (os.path.basename(s.path), c, w, s.verbose, s.name, trace), key='lost' if c < w else 'extra')
            order = [m for l in text.splitlines() for m in everything if m in l]
            if order != s.want: raise Violation('records are out of order', key='order')
            if s.open: s.log.close()
        ch.state((cfg, tuple(trace)))
        ch.outcome = tuple(sorted(o[0] for o in trace))


class Capture(logging.Handler):
    def __init__(self): super().__init__(0); self.rec = []
    def emit(self, r):
        p = S.me()
        self.rec.append((r.levelno, r.getMessage(), p is None or p.idx == 0))


def whole(case, ch):
    """A complete or interrupted run."""
    verbose, mix, kind, sig = case
    n, nham, nsl = mix
    model = R.Model(kind)
    out = R.fresh()
    with Quiet() as q:
        cap = Capture()
        BASE.addHandler(cap)
        try:
            stage = {}
            def before(sim, c):
                stage['init'] = len(cap.rec)
                if [x for x in q.left() if x[1] is not cap]: raise Violation('the constructor leaves a handler behind', key='handler')
                for l in (logging.CRITICAL, logging.DEBUG): logging.getLogger('cpnest.cpnest').log(l, 'token-between')
                c.NS.tolerance = 0.7
            sim, p, c = R.run(R.Default(ch) if sig is None else ch, model, out, before=before, sched=False, simseed=3, nlive=4, nthreads=n, nham=nham, nsl=nsl, verbose=verbose,
                              maxmcmc=10, poolsize=8, resume=True, signals=R.main_only if sig else None)
            R.check_ends(sim, p)
            if [x for x in q.left() if x[1] is not cap]: raise Violation('a run leaves handlers behind: %r' % (q.left(),), key='handler')
            path = os.path.join(out, 'cpnest.log')
            if fds(path): raise Violation('a run leaves its log file open', key='descriptor')
            lines = open(path).read()
            # a sampler process has its own copy of the open file: its records may come later than the end of the main process
            may = [m for l, m, main in cap.rec if l >= THRESH[verbose] and not m.startswith('Setting verbosity')]
            want = [m for l, m, main in cap.rec if main and l >= THRESH[verbose] and m != 'token-between' and not m.startswith('Setting verbosity')]
            if 'token-between' in lines: raise Violation('a record emitted while the log file was closed is in it', key='extra')
            pos = 0
            for m in want:
                i = lines.find(m, pos)
                if i < 0: raise Violation('the record %r is missing from the log file (verbosity %d)' % (m, verbose), key='lost')
                pos = i + len(m)
            for l, m, _ in set(cap.rec):
                if l < THRESH[verbose] and not any(m in w for w in may) and m in lines: raise Violation('the record %r of level %d is in the log file of verbosity %d' % (m, l, verbose), key='extra')
            heads = lines.count('Running with')
            if heads != sum('Running with' in m for m in want): raise Violation('a record was written %d times' % heads, key='extra')
            nl = sum(1 for l in lines.splitlines() if ' - cpnest' in l and 'Setting verbosity' not in l)
            if not len(want) <= nl <= len(may): raise Violation('the log file has %d records, emitted were %d' % (nl, len(want)), key='extra' if nl > len(may) else 'lost')
        finally: BASE.removeHandler(cap)
    ch.state((case, tuple(want)))
    ch.outcome = (verbose, p.exitcode)


def broken(case, ch):
    """A constructor that fails leaves no handler behind."""
    verbose, what = case
    out = R.fresh()
    class Bad(R.Model):
        def __init__(self): super().__init__('quad')
        def new_point(self): raise Boom()
    with Quiet() as q:
        try:
            if what == 'proposals': R.cpnest.CPNest(R.Model('quad'), nlive=4, nthreads=1, output=out, verbose=verbose, proposals=[])
            elif what == 'nthreads': R.cpnest.CPNest(R.Model('quad'), nlive=4, nthreads='x', output=out, verbose=verbose)
            else: R.cpnest.CPNest(None, nlive=4, nthreads=1, output=out, verbose=verbose)
        except Exception: pass
        else: return
        if q.left(): raise Violation('a failing constructor leaves a handler behind', key='handler')
        if fds(os.path.join(out, 'cpnest.log')): raise Violation('a failing constructor leaves its log file open', key='descriptor')
    ch.step()
    ch.state(case)
    ch.outcome = what


def main(ctx):
    q = ctx.quick
    N = ('cpnest', 'cpnest.cpnest', 'cpnest.sampler')
    cs = []
    for v in range(4):
        for n in N: cs.append((((v, n),), 5 if q else 7))
    for a, b in itertools.product(range(4), repeat=2):
        cs.append((((a, 'cpnest'), (b, 'cpnest')), 4 if q else 5))
    for n in N[1:]: cs.append((((2, 'cpnest'), (3, n)), 4 if q else 5))
    cs.append((((1, 'cpnest'), (3, 'cpnest')), 5 if q else 7))
    ctx.explore_cases('histories', history, cs, budget=ctx.budget(120, 1500), rule='all sequences of operations')
    rs = [(v, m, k, None) for v in range(4) for m in ((1, 0, 0), (2, 0, 0), (3, 1, 1)) for k in ('quad', 'minusinf')]
    ctx.explore_cases('runs', whole, rs, budget=ctx.budget(90, 900), rule='complete runs at every verbosity')
    ctx.explore_cases('interrupted runs', whole, [(v, m, 'quad', True) for v in ((0, 3) if q else range(4)) for m in ((1, 0, 0),)], bound=1, budget=ctx.budget(90, 900), rule='a signal at every scheduling point')
    ctx.for_all('failing constructors', broken, [(v, w) for v in range(4) for w in ('proposals', 'nthreads', 'model')], rule='all')

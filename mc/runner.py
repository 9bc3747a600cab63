"""Entry point: python -m mc.runner CXX   (VERIF_TIER=quick|thorough)

A check module has  PROP, LEVEL, ASSUME (list) and  main(ctx) which runs parts by ctx.explore(...) etc.
"""
import hashlib, importlib, json, os, pickle, shutil, sys, tempfile, traceback, base64
from time import time as _now
from . import build, explore as X

VERIF = build.VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.parts = []
        self.t0 = _now()
        self.known = load_known(prop)
        self.replay = None
        self.notes = {}
        self.tmp = None

    def budget(self, quick, thorough): return quick if self.quick else thorough * float(os.environ.get('MC_BUDGET', 1))
    def pick(self, quick, thorough): return quick if self.quick else thorough

    def ignore(self, part):
        def f(v):
            return any(k['key'] == v.get('key') for k in self.known)
        return f

    def _part(self, name, kind, stats, rule, extra):
        self.parts.append(dict(name=name, kind=kind, stats=stats, rule=rule, extra=extra))
        bad = [v for v in stats.violations if not v.get('known')]
        sys.stderr.write('[%s] %s: %d executions, %d states, %d transitions, %d outcomes, %s%s (%.1fs)\n' % (
            self.prop, name, stats.execs, len(stats.states), stats.trans, len(stats.outcomes),
            'capped' if stats.capped else 'complete', ', VIOLATION' if bad else '', _now() - self.t0))
        if bad: raise Found(name, bad[0])

    def want(self, name):
        """In replay mode only the part of the recorded violation is run."""
        return self.replay is None or self.replay['part'] == name

    def _replay(self, name, call):
        r = self.replay
        ch = X.Chooser(r['choices'])
        v = X.guarded(call, ch)
        print('replay of part %s, choices %s' % (name, r['choices']))
        print(v if v else 'no violation')
        raise Replayed(bool(v) and v != 'pruned')

    def explore(self, name, run, bound=0, budget=60, rule='', jobs=8, extra=None):
        if not self.want(name): return
        if self.replay: self._replay(name, run)
        st = X.explore(run, bound, budget, jobs, self.ignore(name))
        self._part(name, 'explore', st, rule, dict(extra or {}, deviation_bound=bound))
        return st

    def for_all(self, name, run, cases, budget=60, rule='', jobs=8, extra=None):
        if not self.want(name): return
        if self.replay:
            c = pickle.loads(base64.b64decode(self.replay['case_pickle']))
            self._replay(name, lambda ch: run(c, ch))
        st = X.for_all(run, cases, budget, jobs, self.ignore(name))
        self._part(name, 'for_all', st, rule, extra or {})
        return st

    def explore_cases(self, name, run, cases, bound=0, budget=60, rule='', jobs=8, extra=None):
        if not self.want(name): return
        if self.replay:
            c = pickle.loads(base64.b64decode(self.replay['case_pickle']))
            self._replay(name, lambda ch: run(c, ch))
        st = X.explore_cases(run, cases, bound, budget, jobs, self.ignore(name))
        self._part(name, 'explore_cases', st, rule, dict(extra or {}, deviation_bound=bound))
        return st


class Found(Exception):
    def __init__(self, part, v): self.part, self.v = part, v


class Replayed(Exception):
    def __init__(self, bad): self.bad = bad


def load_known(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))['known'] if k['property'] == prop]


def plain(o):
    try:
        json.dumps(o); return o
    except Exception:
        return repr(o)


def write_evidence(ctx, mod, violations):
    parts = ctx.parts
    tot = X.Stats()
    for p in parts: tot.merge(p['stats'])
    cov = {}
    samples = []
    for p in parts:
        for s in p['stats'].samples[:2]: samples.append(dict(part=p['name'], **s))
    if not samples: samples = [dict(part=p['name'], executions=p['stats'].execs) for p in parts]
    if mod.LEVEL == 'model_checking':
        cov = dict(states=len(tot.states), transitions=tot.trans, traces_validated_against_impl=tot.execs,
                   samples=samples[:12])
    else:
        cov = dict(evaluations=tot.execs, distinct_nontrivial=len(tot.outcomes), rule=getattr(mod, 'RULE', ''),
                   samples=samples[:12])
    cov['exhaustive'] = not tot.capped
    cov['distinct_outcomes'] = len(tot.outcomes)
    cov['parts'] = [dict(name=p['name'], executions=p['stats'].execs, states=len(p['stats'].states),
                         transitions=p['stats'].trans, choice_points=p['stats'].points,
                         distinct_outcomes=len(p['stats'].outcomes), max_depth=p['stats'].maxdepth,
                         executions_by_deviations={str(k): v for k, v in sorted(p['stats'].bydev.items())},
                         pruned=p['stats'].pruned, complete=not p['stats'].capped, rule=p['rule'],
                         **{k: plain(v) for k, v in p['extra'].items()}) for p in parts]
    cov['explanation'] = ('Executions are runs of the real code of /repo under enumerated choices, so every trace is '
                          'one of the implementation; "complete" parts enumerated their finite space within the bound.')
    cov.update({k: plain(v) for k, v in ctx.notes.items()})
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(mod.ASSUME), wall_s=round(_now() - ctx.t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    f = os.path.join(VERIF, 'evidence', ctx.prop + '.json')
    with open(f + '.tmp', 'w') as g: json.dump(ev, g, indent=1)
    os.replace(f + '.tmp', f)


def save_replay(ctx, part, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    r = dict(property=ctx.prop, tier=ctx.tier, part=part, msg=v['msg'], key=v.get('key'), choices=v.get('choices', []),
             labels=v.get('labels'), detail=plain(v.get('detail')), case=v.get('case'))
    if 'case_obj' in v:
        try: r['case_pickle'] = base64.b64encode(pickle.dumps(v['case_obj'])).decode()
        except Exception: pass
    s = json.dumps(r, indent=1, sort_keys=True)
    f = os.path.join(d, '%s-%s.json' % (ctx.prop, hashlib.sha256(s.encode()).hexdigest()[:10]))
    with open(f, 'w') as g: g.write(s)
    return f


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        ctx.replay = json.load(open(sys.argv[3]))
        ctx.tier = ctx.replay.get('tier', 'quick'); ctx.quick = ctx.tier == 'quick'
    pkg = build.build()
    os.environ['MC_PKG'] = pkg
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    ctx.tmp = tempfile.mkdtemp(prefix='mc-%s-' % prop, dir=base)
    os.environ['MC_TMP'] = ctx.tmp
    parent = os.getpid()
    rc = 2
    try:
        os.chdir(ctx.tmp)
        sys.path.insert(0, pkg)
        mod = importlib.import_module('checks.' + prop.lower())
        try:
            mod.main(ctx)
            seen = {}
            for p in ctx.parts:
                for v in p['stats'].violations:
                    if v.get('known'): seen[v['key']] = v
            for k in ctx.known:
                if k['key'] in seen or k.get('always'):
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            write_evidence(ctx, mod, 0)
            print('OK property=%s tier=%s executions=%d states=%d wall=%.1fs' % (
                prop, tier, sum(p['stats'].execs for p in ctx.parts),
                sum(len(p['stats'].states) for p in ctx.parts), _now() - ctx.t0))
            rc = 0
        except Found as e:
            f = save_replay(ctx, e.part, e.v)
            write_evidence(ctx, mod, 1)
            print('part %s: %s' % (e.part, e.v['msg']))
            if e.v.get('case'): print('case: %s' % e.v['case'][:600])
            if e.v.get('detail'): print(str(e.v['detail'])[-1500:])
            print('VIOLATION property=%s replay=%s' % (prop, f))
            rc = 1
        except Replayed as e:
            rc = 1 if e.bad else 0
        except Exception as e:
            # outside of an enumerated execution (a baseline, say): the code of cpnest itself raised
            if not X.in_code(e.__traceback__) or isinstance(e, (MemoryError, ImportError)): raise
            v = dict(msg='unexpected %s in cpnest: %s' % (type(e).__name__, e), key='exception:' + type(e).__name__,
                     detail=traceback.format_exc()[-3000:])
            f = save_replay(ctx, 'setup', v)
            write_evidence(ctx, mod, 1)
            print(v['detail'][-1500:])
            print('VIOLATION property=%s replay=%s' % (prop, f))
            rc = 1
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == parent:
            os.chdir('/')
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()

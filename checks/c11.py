from mc import build
from mc.explore import Violation
import json, os, shutil, subprocess, sys, tempfile
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive crash-point enumeration on the real code: checkpointing is run in child processes which die, lose power or meet a full disk, at each '
             'file-system call (intercepted in libc), with torn writes; afterwards the checkpoint is resumed and written again')
NOTE = 'Every call, every pair of calls of two successive checkpoints (thorough: also for large states), each sampler type and the nested sampler.'
ASSUME = ['when the process dies, what it wrote stays; when power is lost, data not synced are lost from the end of the file, and renames stay', 'file-system calls go through libc']


def run(case, ch):
    kind, size, depth, faults = case
    d = tempfile.mkdtemp(dir=os.environ['MC_TMP'])
    env = dict(os.environ, LD_PRELOAD=build.build_shim(), PYTHONPATH=build.VERIF)
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.crash', json.dumps(dict(kind=kind, size=size, depth=depth, faults=faults, dir=d))],
                           env=env, capture_output=True, text=True, cwd=d)
    finally: shutil.rmtree(d, ignore_errors=True)
    l = [x for x in r.stdout.splitlines() if x.startswith('RESULT ')]
    if not l: raise RuntimeError('no result: ' + r.stdout[-1000:] + r.stderr[-3000:])
    res = json.loads(l[0][7:])
    if res['violation']: raise Violation(res['violation'], key='crash:' + kind)
    ch.step(res['points'] + res['pairs'])
    for s in res['states']: ch.state((kind, size, s))
    ch.outcome = (kind, size, depth, str(res['calls']), res['points'], res['pairs'])


def main(ctx):
    build.build_shim()
    q = ctx.quick
    F = [0, 1, 2, 3, 4, 5, 6, 7]
    cs = [(k, 'small', 1, F) for k in ('ns', 'mhs', 'hmc', 'sli')] + [(k, 'large', 1, [0, 1, 3, 4, 7]) for k in ('ns', 'mhs', 'hmc', 'sli')]
    ctx.explore_cases('one crash', run, cs, budget=ctx.budget(150, 900), rule='every call and fault; then the next process resumes and writes a checkpoint')
    cs = [(k, 'small', 2, [0, 1, 3, 4, 7] if q else F) for k in ('ns', 'mhs', 'hmc', 'sli')]
    if not q: cs += [(k, 'large', 2, [0, 1, 3, 7]) for k in ('ns', 'mhs', 'hmc', 'sli')]
    ctx.explore_cases('two crashes', run, cs, budget=ctx.budget(150, 2400), rule='every pair of calls and faults of two successive checkpoints')

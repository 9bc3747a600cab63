"""Copy of /repo's cpnest package, with its extension built from the current sources, in /verif/.build."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CPNEST_REPO', '/repo')
OUT = os.path.join(VERIF, '.build')
PY = '/opt/venv/bin/python'


def _files(pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:24]


def ext_sources():
    return [f for f in _files(['setup.py', 'cpnest/**/*.pyx', 'cpnest/**/*.px[di]', 'cpnest/**/*.h'])]


def _stamp_matches():
    """Is the extension in /repo the one build.sh made from exactly these sources?"""
    stamp = os.path.join(REPO, 'build', '.vp-ext.sha256')
    sos = glob.glob(os.path.join(REPO, 'cpnest', 'parameter*.so'))
    if REPO != '/repo' or not os.path.exists(stamp) or len(sos) != 1:
        return None
    cmd = ("{ echo setup.py; find cpnest -name '*.pyx' -o -name '*.px[di]' -o -name '*.[ch]' ! -name parameter.c; }"
           " | LC_ALL=C sort | xargs sha256sum | sha256sum")
    r = subprocess.run(['bash', '-c', cmd], cwd=REPO, capture_output=True, text=True)
    return sos[0] if r.returncode == 0 and r.stdout.strip() == open(stamp).read().strip() else None


def build():
    """Returns the directory to put on sys.path."""
    os.makedirs(OUT, exist_ok=True)
    eh = _hash(ext_sources())
    extdir = os.path.join(OUT, 'ext-' + eh)
    if not glob.glob(os.path.join(extdir, '*.so')):
        tmp = tempfile.mkdtemp(dir=OUT)
        so = _stamp_matches()
        if so:
            shutil.copy(so, tmp)
        else:
            work = os.path.join(tmp, 'work')
            os.makedirs(os.path.join(work, 'cpnest'))
            for f in _files(['setup.py', 'DESCRIPTION.rst', 'pyproject.toml', 'README.rst', 'cpnest/*.py',
                             'cpnest/*.pyx', 'cpnest/*.px[di]', 'cpnest/*.h']):
                shutil.copy(f, os.path.join(work, os.path.relpath(f, REPO)))
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.11.0', PYTHONDONTWRITEBYTECODE='1')
            env.pop('LD_PRELOAD', None)
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=work, env=env,
                               capture_output=True, text=True)
            sos = glob.glob(os.path.join(work, 'cpnest', '*.so'))
            if r.returncode or not sos:
                sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
                raise SystemExit('building the extension failed')
            shutil.copy(sos[0], tmp)
            shutil.rmtree(work)
        try:
            os.rename(tmp, extdir)
        except OSError:
            shutil.rmtree(tmp)
    pys = _files(['cpnest/**/*.py'])
    pkg = os.path.join(OUT, 'pkg-' + hashlib.sha256((eh + _hash(pys)).encode()).hexdigest()[:24])
    if not os.path.isdir(pkg):
        tmp = tempfile.mkdtemp(dir=OUT)
        for f in pys:
            d = os.path.join(tmp, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f, d)
        for so in glob.glob(os.path.join(extdir, '*.so')):
            shutil.copy(so, os.path.join(tmp, 'cpnest'))
        try:
            os.rename(tmp, pkg)
        except OSError:
            shutil.rmtree(tmp)
    # keep only a few packages
    olds = sorted(glob.glob(os.path.join(OUT, 'pkg-*')), key=os.path.getmtime)
    for o in olds[:-6]:
        if o != pkg:
            shutil.rmtree(o, ignore_errors=True)
    return pkg


def build_shim():
    src = os.path.join(VERIF, 'mc', 'crashshim.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(OUT, 'crashshim-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(OUT, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'])
        os.rename(tmp, so)
    return so


if __name__ == '__main__':
    print(build())
    if os.path.exists(os.path.join(VERIF, 'mc', 'crashshim.c')):
        print(build_shim())

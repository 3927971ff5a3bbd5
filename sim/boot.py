"""Makes the current /repo working tree importable as `eventio`.

The compiled extensions in /repo/src are used only when their build stamps match
the current .pyx sources; otherwise the sources are copied to a scratch directory,
compiled there and imported from there (nothing is ever written to /repo).
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class BuildError(Exception):
    pass


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _stale():
    """True unless every extension is up to date by the key env.sh computes."""
    if os.path.realpath(REPO) != '/repo':
        return True
    os.environ.setdefault('LC_ALL', 'C')
    try:
        script = r'''
        cd %s || exit 1
        export LC_ALL=C
        meta=$(sha256sum setup.py pyproject.toml 2>&1 | sha256sum | cut -d' ' -f1)
        common=$(find src \( -name '*.pxd' -o -name '*.pxi' -o -name '*.h' \) -type f | sort | xargs -r sha256sum)
        find src -name '*.pyx' -type f | sort | while IFS= read -r pyx; do
            base=${pyx%%.pyx}
            key=$( { echo "$meta $common"; sha256sum "$pyx"; } | sha256sum | cut -d' ' -f1)
            [ "$(cat "build/vp-stamps/${base//\//_}" 2>/dev/null)" = "$key" ] || echo stale
            ls "$base".cpython-*.so >/dev/null 2>&1 || echo stale
        done
        ''' % REPO
        out = subprocess.run(['bash', '-c', script], capture_output=True, text=True)
        if out.returncode != 0 or out.stdout.strip():
            return True
    except OSError:
        return True
    return False


def prepare():
    """Return (import_root, scratch_or_None); build extensions in scratch if stale."""
    if not _stale():
        return SRC, None
    scratch = tempfile.mkdtemp(prefix='simbuild_')
    try:
        shutil.copytree(SRC, os.path.join(scratch, 'src'), symlinks=True,
                        ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.egg-info'))
        for name in ('setup.py', 'pyproject.toml', 'README.rst', 'MANIFEST.in', 'LICENSE', 'setup.cfg'):
            p = os.path.join(REPO, name)
            if os.path.exists(p):
                shutil.copy(p, scratch)
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0',
                   PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1',
                   PATH='/opt/venv/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
        # unoptimised objects compile in a fraction of the time and behave the same
        env['CFLAGS'] = (env.get('CFLAGS', '') + ' -O1').strip()
        r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', '8'],
                           cwd=scratch, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('extension build failed\n' + r.stdout[-2000:] + r.stderr[-4000:])
        n_pyx = len(glob.glob(os.path.join(scratch, 'src', '**', '*.pyx'), recursive=True))
        n_so = len(glob.glob(os.path.join(scratch, 'src', '**', '*.so'), recursive=True))
        if n_so < n_pyx:
            raise BuildError('extension build incomplete\n' + r.stdout[-2000:] + r.stderr[-4000:])
        return os.path.join(scratch, 'src'), scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


def import_eventio(root):
    sys.dont_write_bytecode = True
    for p in list(sys.path):
        if os.path.realpath(p) == os.path.realpath(SRC):
            sys.path.remove(p)
    sys.path.insert(0, root)
    import eventio
    real = os.path.realpath(eventio.__file__)
    assert real.startswith(os.path.realpath(root) + os.sep), (real, root)
    return eventio

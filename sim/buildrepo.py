"""Build the tree under test (working tree of /repo) into a private, git-ignored overlay.

The overlay is keyed by the content of every file the build can see, so that a check always runs
what is in /repo now; two checks that start at once share one build (the directory appears by
rename).  Nothing is written in /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('PYTORNADO_SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
PY = '/opt/venv/bin/python'
SKIP_DIRS = {'.git', '__pycache__', 'build', 'tests', 'docs', '.pytest_cache', 'pytornado.egg-info'}
NATIVE = ('.c', '.cc', '.cpp', '.h', '.hpp')


class BuildError(Exception):
    pass


def _files(repo):
    found = []
    for base, dirs, files in os.walk(repo):
        rel = os.path.relpath(base, repo)
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith('.egg-info'))
        if rel == '.':
            dirs[:] = [d for d in dirs if d in ('src', 'lib')]
        for f in sorted(files):
            if f.endswith(('.so', '.pyc', '.o')):
                continue
            found.append(os.path.normpath(os.path.join(rel, f)))
    return found


def _digest(repo, names):
    h = hashlib.sha256()
    for name in names:
        p = os.path.join(repo, name)
        h.update(name.encode() + b'\0')
        with open(p, 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def _compile(repo, names, key):
    """Compile the extension once per content of its inputs; return the directory with the .so."""
    dst = os.path.join(BUILD, 'ext-' + key)
    if os.path.isdir(dst):
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-ext-', dir=BUILD)
    try:
        for name in names:
            d = os.path.join(tmp, 'w', os.path.dirname(name))
            os.makedirs(d, exist_ok=True)
            shutil.copy2(os.path.join(repo, name), d)
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'],
                           cwd=os.path.join(tmp, 'w'), env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        sos = []
        for base, _, files in os.walk(os.path.join(tmp, 'w')):
            sos += [os.path.relpath(os.path.join(base, f), os.path.join(tmp, 'w'))
                    for f in files if f.endswith('.so')]
        if r.returncode or not sos:
            raise BuildError("the C++ extension does not build:\n" + r.stdout.decode(errors='replace')[-4000:])
        out = os.path.join(tmp, 'out')
        for so in sos:
            os.makedirs(os.path.join(out, os.path.dirname(so)), exist_ok=True)
            shutil.copy2(os.path.join(tmp, 'w', so), os.path.join(out, so))
        try:
            os.rename(out, dst)
        except OSError:
            if not os.path.isdir(dst):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build(repo=REPO):
    """Return (overlay directory, digest of the tree)."""
    names = _files(repo)
    key = _digest(repo, names)
    dst = os.path.join(BUILD, 'tree-' + key)
    if os.path.isdir(dst):
        return dst, key
    native = [n for n in names if n.endswith(NATIVE)]
    meta = [n for n in names if os.path.dirname(n) == '' and not n.endswith('.ipynb')]
    pkg_init = [n for n in names if n.endswith(('__version__.py',))]
    ext_inputs = sorted(set(native + [n for n in meta if n in ('setup.py', 'setup.cfg', 'pyproject.toml')]))
    ext = _compile(repo, sorted(set(native + meta + pkg_init)), _digest(repo, ext_inputs))
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-tree-', dir=BUILD)
    try:
        out = os.path.join(tmp, 'out')
        for name in names:
            d = os.path.join(out, os.path.dirname(name))
            os.makedirs(d, exist_ok=True)
            shutil.copy2(os.path.join(repo, name), d)
        for base, _, files in os.walk(ext):
            for f in files:
                d = os.path.join(out, os.path.relpath(base, ext))
                os.makedirs(d, exist_ok=True)
                shutil.copy2(os.path.join(base, f), d)
        try:
            os.rename(out, dst)
        except OSError:
            if not os.path.isdir(dst):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst, key


if __name__ == '__main__':
    print(*build(*sys.argv[1:]))

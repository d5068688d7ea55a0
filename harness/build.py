"""Make the code under test importable from /repo's *current* working tree.

Python sources are imported straight from /repo/src; the Fortran extension is built
out of tree into /verif/.build/<hash of every Fortran/meson/tool source>, so that a
stale build can never be used.
"""

import fcntl
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WHEELS = '/opt/veriftools/wheels'
DEPS = os.path.join(VERIF, '.deps')
BUILD = os.path.join(VERIF, '.build')


class BuildError(Exception):
    pass


def _writable(path):
    try:
        os.makedirs(path, exist_ok=True)
        return os.access(path, os.W_OK)
    except OSError:
        return False


def _root(path, name):
    if _writable(path):
        return path
    alt = os.path.join('/tmp', f'pysimulators-verif-{os.getuid()}', name)
    os.makedirs(alt, exist_ok=True)
    return alt


class _Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *args):
        self.f.close()


def ensure_deps():
    """Hypothesis (from the offline wheelhouse) on sys.path."""
    deps = _root(DEPS, 'deps')
    with _Lock(os.path.join(deps, '.lock')):
        if not os.path.isdir(os.path.join(deps, 'hypothesis')):
            p = subprocess.run(
                [
                    sys.executable, '-m', 'pip', 'install', '-q', '--no-index',
                    '--no-compile', '--find-links', WHEELS, '--target', deps,
                    'hypothesis',
                ],
                stdin=subprocess.DEVNULL,
                capture_output=True,
                text=True,
            )
            if not os.path.isdir(os.path.join(deps, 'hypothesis')):
                site = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
                for pattern in ('hypothesis', '_hypothesis*', 'attr', 'attrs',
                                'sortedcontainers'):
                    for src in glob.glob(os.path.join(site, pattern)):
                        dst = os.path.join(deps, os.path.basename(src))
                        if not os.path.lexists(dst):
                            os.symlink(src, dst)
            if not os.path.isdir(os.path.join(deps, 'hypothesis')):
                raise BuildError('cannot install hypothesis: ' + p.stderr[-2000:])
    if deps not in sys.path:
        sys.path.append(deps)
    return deps


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src', 'flib')):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files)]
    for root, dirs, files in os.walk(os.path.join(REPO, 'tools')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        out += [os.path.join(root, f) for f in sorted(files)]
    for f in ('meson.build', 'meson.options', 'src/meson.build'):
        out.append(os.path.join(REPO, f))
    return [f for f in out if os.path.isfile(f)]


def source_hash(flavour=''):
    h = hashlib.sha256(flavour.encode())
    for f in _sources():
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(fd.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def ensure_build(flavour=''):
    """Build the extension of the current tree; return the path of the shared object."""
    root = _root(BUILD, 'build')
    bdir = os.path.join(root, source_hash(flavour))
    with _Lock(os.path.join(root, '.lock')):
        so = glob.glob(os.path.join(bdir, 'src', 'flib', '_flib*.so'))
        if so and os.path.exists(os.path.join(bdir, '.ok')):
            return so[0]
        # keep few builds around
        for old in glob.glob(os.path.join(root, '*')):
            if os.path.isdir(old) and os.path.getmtime(old) < _now() - 6 * 3600:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)
        args = []
        if flavour == 'checked':
            # the bounds of the arrays, those that are allocated elsewhere included
            args = [
                '-Dfortran_args=-fcheck=bounds,mem,pointer,do -g',
                '-Db_sanitize=address',
                '-Db_lundef=false',
            ]
        log = ''
        for cmd in (
            ['meson', 'setup', bdir, REPO, '--buildtype=release', *args],
            ['ninja', '-C', bdir],
        ):
            p = subprocess.run(
                cmd,
                stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
            )
            log += p.stdout
            if p.returncode:
                shutil.rmtree(bdir, ignore_errors=True)
                raise BuildError(f'{" ".join(cmd)} failed:\n{log[-6000:]}')
        so = glob.glob(os.path.join(bdir, 'src', 'flib', '_flib*.so'))
        if not so:
            raise BuildError('no extension module was built')
        open(os.path.join(bdir, '.ok'), 'w').close()
        return so[0]


def checked_flavour():
    """The flavour with address checks and its environment, if it works here."""
    p = subprocess.run(
        ['gcc', '-print-file-name=libasan.so'],
        stdin=subprocess.DEVNULL, capture_output=True, text=True,
    )
    env = {
        'LD_PRELOAD': p.stdout.strip(),
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1',
        'PYTHONMALLOC': 'malloc',
    }
    p = subprocess.run(
        [sys.executable, '-c', 'import numpy; print(numpy.arange(3).sum())'],
        stdin=subprocess.DEVNULL, capture_output=True, text=True,
        env={**os.environ, **env},
    )
    if p.returncode or p.stdout.strip() != '3' or 'asan' in p.stderr:
        return '', {}
    return 'checked', env


def _now():
    import time

    return time.time()


class _Finder(importlib.abc.MetaPathFinder):
    """pysimulators from /repo/src, its extension from our own build."""

    def __init__(self, so):
        self.so = so
        self.src = os.path.join(REPO, 'src')

    def find_spec(self, fullname, path=None, target=None):
        if fullname == 'pysimulators._flib':
            return importlib.util.spec_from_file_location(fullname, self.so)
        if fullname == 'pysimulators':
            return importlib.machinery.PathFinder.find_spec(fullname, [self.src])
        if fullname.startswith('pysimulators.'):
            parent = fullname.rpartition('.')[0].split('.')
            return importlib.machinery.PathFinder.find_spec(
                fullname, [os.path.join(self.src, *parent)]
            )
        return None


def install_finder(so):
    sys.meta_path.insert(0, _Finder(so))

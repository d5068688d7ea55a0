"""Run functions of the check modules on several MPI processes.

A pool of ranks is kept alive by the process that searches: every rank is connected to it
by a unix socket, receives the pickled case, calls `func(case, comm)` where `comm` holds
the first `size` ranks, and sends its result back. A rank that fails while the others wait
for it in a collective call does not block the search: the pool is killed and restarted.
"""

import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

from . import build

NPROCS = 4
TIMEOUT = 30.0
GRACE = 4.0


class Deadlock(Exception):
    pass


def _send(sock, obj):
    blob = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('<Q', len(blob)) + blob)


def _recv(sock, deadline=None):
    def read(n):
        out = b''
        while len(out) < n:
            if deadline is not None:
                sock.settimeout(max(0.01, deadline - time.monotonic()))
            chunk = sock.recv(n - len(out))
            if not chunk:
                raise EOFError
            out += chunk
        return out

    try:
        (n,) = struct.unpack('<Q', read(8))
        return pickle.loads(read(n))
    finally:
        sock.settimeout(None)


class Pool:
    def __init__(self):
        self.proc = None

    def start(self):
        self.dir = tempfile.mkdtemp(prefix='mpi-')
        path = os.path.join(self.dir, 's')
        server = socket.socket(socket.AF_UNIX)
        server.bind(path)
        server.listen(NPROCS)
        env = dict(os.environ)
        env.update(
            PYTHONPATH='/opt/mpi4py',
            OMP_NUM_THREADS='1',
            OPENBLAS_NUM_THREADS='1',
            OMPI_MCA_btl='self,vader',
            OMPI_MCA_btl_vader_single_copy_mechanism='none',
            OMPI_MCA_plm='isolated',
            OMPI_MCA_rmaps_base_oversubscribe='1',
            OMPI_MCA_mpi_yield_when_idle='1',
            OMPI_MCA_hwloc_base_binding_policy='none',
        )
        self.log = open(os.path.join(self.dir, 'log'), 'w+')
        self.proc = subprocess.Popen(
            ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(NPROCS),
             sys.executable, '-m', 'harness.mpi', path],
            cwd=build.VERIF, env=env, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=self.log,
        )
        self.socks = [None] * NPROCS
        self.pids = [None] * NPROCS
        server.settimeout(120)
        try:
            for _ in range(NPROCS):
                s, _a = server.accept()
                s.settimeout(None)
                rank, pid = _recv(s)
                self.socks[rank], self.pids[rank] = s, pid
        except Exception:
            self.log.seek(0)
            text = self.log.read()[-2000:]
            self.kill()
            raise RuntimeError(f'the MPI processes cannot be started: {text}')
        finally:
            server.close()

    def kill(self):
        if self.proc is None:
            return
        for s in self.socks:
            if s is not None:
                s.close()
        for pid in self.pids:
            if pid is not None:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        self.proc.terminate()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.log.close()
        self.proc = None

    def run(self, module, func, case, size):
        """List of the values returned by the ranks; the exception of the first failure."""
        if self.proc is None or self.proc.poll() is not None:
            self.kill()
            self.start()
        blob = pickle.dumps(case, protocol=4)
        for r in range(size):
            _send(self.socks[r], (module, func, blob, size))
        deadline = time.monotonic() + TIMEOUT
        results = [None] * size
        pending = list(range(size))
        failure = None
        import select

        while pending:
            timeout = deadline - time.monotonic()
            if timeout <= 0:
                break
            ready, _, _ = select.select([self.socks[r] for r in pending], [], [], timeout)
            for r in list(pending):
                if self.socks[r] not in ready:
                    continue
                try:
                    status, value = _recv(self.socks[r], deadline + 5)
                except (EOFError, OSError) as exc:
                    status, value = 'died', f'the process died ({exc!r})'
                pending.remove(r)
                results[r] = value
                if status != 'ok' and failure is None:
                    failure = (r, status, value)
                    deadline = min(deadline, time.monotonic() + GRACE)
        if failure is not None:
            r, status, value = failure
            if pending or status == 'died':
                self.kill()
            from .core import Discard, Violation

            if status == 'discard':
                raise Discard()
            raise Violation(f'rank {r}/{size}: {value}')
        if pending:
            self.kill()
            raise Deadlock(f'ranks {pending} of {size} do not answer')
        return results


_pool = Pool()


def run(module, func, case, size):
    return _pool.run(module, func, case, size)


def main(path):
    import faulthandler

    build.ensure_deps()
    build.install_finder(os.environ.get('VERIF_SO') or build.ensure_build())
    from mpi4py import MPI

    from .core import Discard

    world = MPI.COMM_WORLD
    comms = [None] + [
        world.Split(0 if world.rank < n else 1, world.rank)
        for n in range(1, world.size + 1)
    ]
    import pysimulators  # noqa: F401

    faulthandler.enable()
    sock = socket.socket(socket.AF_UNIX)
    sock.connect(path)
    _send(sock, (world.rank, os.getpid()))
    while True:
        try:
            name, func, blob, size = _recv(sock)
        except (EOFError, OSError):
            os._exit(0)
        try:
            module = importlib.import_module(name)
            value = 'ok', getattr(module, func)(pickle.loads(blob), comms[size])
        except Discard:
            value = 'discard', None
        except Exception as exc:
            import traceback

            tb = traceback.format_exc().splitlines()[-6:]
            value = 'error', f'{type(exc).__name__}: {exc}\n' + '\n'.join(tb)
        try:
            _send(sock, value)
        except OSError:
            os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])

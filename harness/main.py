"""Command line driver: see ../run."""

import base64
import glob
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')
NWORKERS = 4
LEVEL = 'exploration'


# the properties decided with the extension built with bounds and address checks
CHECKED = ('C30',)


def load_module(prop):
    files = glob.glob(os.path.join(VERIF, 'checks', f'{prop.lower()}_*.py'))
    if len(files) != 1:
        raise SystemExit(f'no unique check module for property {prop}: {files}')
    return importlib.import_module('checks.' + os.path.basename(files[0])[:-3])


def registry(module):
    from . import core

    return [s for s in core.REGISTRY if s.check.__module__ == module.__name__]


def prepare(flavour=''):
    build.ensure_deps()
    so = os.environ.get('VERIF_SO') or build.ensure_build(flavour)
    build.install_finder(so)
    import warnings

    warnings.simplefilter('ignore')
    import numpy as np

    np.seterr(all='ignore')
    import pysimulators

    src = os.path.realpath(os.path.join(build.REPO, 'src'))
    if not os.path.realpath(pysimulators.__file__).startswith(src):
        raise build.BuildError(f'imported {pysimulators.__file__}')
    warnings.simplefilter('ignore')


# ---------------------------------------------------------------- worker side


def worker(prop, tier, seed, tasks, outdir):
    """Run tasks [(sub, shard, nshards, budget)] one after the other."""
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        prepare()
        from . import core

        module = load_module(prop)
    except BaseException as exc:
        import traceback

        traceback.print_exc()
        print(f'cannot load the code under test: {exc}', file=sys.stderr)
        os._exit(3)
    subs = {s.name: s for s in registry(module)}
    scratch = tempfile.mkdtemp(prefix='work-', dir=outdir)
    os.chdir(scratch)

    for name, shard, nshards, budget in tasks:
        sub = subs[name]
        n = sub.quick if tier == 'quick' else max(sub.thorough // nshards, sub.quick)
        last = os.path.join(outdir, f'last-{name}-{shard}')
        fd = os.open(last, os.O_CREAT | os.O_RDWR | os.O_TRUNC)

        def last_case(_, case, fd=fd):
            blob = pickle.dumps(case, protocol=4)
            os.pwrite(fd, len(blob).to_bytes(8, 'little') + blob, 0)

        r = core.run_sub(sub, seed + 7919 * shard, n, budget, last_case)
        os.close(fd)
        tmp = os.path.join(outdir, f'tmp-{name}-{shard}')
        with open(tmp, 'wb') as f:
            pickle.dump(r.__dict__, f)
        os.rename(tmp, os.path.join(outdir, f'res-{name}-{shard}.pkl'))
    os._exit(0)


# ---------------------------------------------------------------- parent side


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop]


def write_replay(prop, name, blob, message, tb, seed):
    d = os.path.join(VERIF, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.mkdtemp(prefix='replays-')
    path = os.path.join(d, f'{prop}-{name}.json')
    try:
        text = repr(pickle.loads(blob))
    except Exception as exc:
        text = f'<{exc}>'
    with open(path, 'w') as f:
        json.dump(
            {
                'property': prop,
                'sub': name,
                'seed': seed,
                'message': message[:4000],
                'case': text[:20000],
                'traceback': tb[-6000:],
                'pickle': base64.b64encode(blob).decode(),
            },
            f,
            indent=1,
        )
    return path


def run_property(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    evidence = os.path.join(VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    try:
        build.ensure_deps()
        flavour, extra = '', {}
        if prop in CHECKED:
            flavour, extra = build.checked_flavour()
        so = build.ensure_build()
        os.environ['VERIF_SO'] = so
        prepare()
        from . import core

        module = load_module(prop)
        if flavour:
            os.environ['VERIF_SO'] = build.ensure_build(flavour)
    except Exception as exc:
        print(f'check error: {type(exc).__name__}: {exc}')
        return 2

    names = [s.name for s in registry(module)]
    quick = tier == 'quick'
    nshards = getattr(module, 'QUICK_SHARDS', 3) if quick else getattr(module, 'SHARDS', 4)
    qb = getattr(module, 'QUICK_BUDGET', 30.0)
    total = getattr(module, 'THOROUGH_BUDGET', 300.0)
    nworkers = getattr(module, 'WORKERS', NWORKERS)
    ntasks = len(names) * nshards
    budget = qb if quick else max(30.0, total * nworkers / max(ntasks, nworkers))
    tasks = [(n, s, nshards, budget) for s in range(nshards) for n in names]
    outdir = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    env = dict(os.environ)
    env.update(getattr(module, 'ENV', {}))
    env.update(extra)
    env.setdefault('OMP_NUM_THREADS', '2')
    env.setdefault('OPENBLAS_NUM_THREADS', '1')
    env['TMPDIR'] = outdir
    env['PYTHONFAULTHANDLER'] = '0'
    failures = []
    errors = []
    try:
        queue = [[] for _ in range(min(nworkers, len(tasks)))]
        for i, t in enumerate(tasks):
            queue[i % len(queue)].append(t)
        procs = []

        def start(ts, k=[0]):
            k[0] += 1
            spec = os.path.join(outdir, f'spec-{k[0]}.json')
            with open(spec, 'w') as f:
                json.dump([prop, tier, seed, ts, outdir], f)
            log = open(os.path.join(outdir, f'log-{k[0]}'), 'w+')
            p = subprocess.Popen(
                [sys.executable, '-m', 'harness.main', '--worker', spec],
                cwd=VERIF, env=env, stdout=log, stderr=log,
                stdin=subprocess.DEVNULL, start_new_session=True,
            )
            procs.append((p, ts, log, time.monotonic()))

        for ts in queue:
            start(ts)
        while procs:
            time.sleep(0.05)
            for item in list(procs):
                p, ts, log, tstart = item
                limit = sum(t[3] for t in ts) + 60 * len(ts) + 120
                if p.poll() is None:
                    if time.monotonic() - tstart > limit:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        procs.remove(item)
                        todo = [t for t in ts if not _has(outdir, t)]
                        name, shard = todo[0][:2]
                        failures.append((name, _last(outdir, name, shard),
                                         'the case does not terminate', ''))
                    continue
                procs.remove(item)
                log.seek(0)
                text = log.read()
                log.close()
                if p.returncode == 0:
                    continue
                todo = [t for t in ts if not _has(outdir, t)]
                if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                                    -signal.SIGFPE, -signal.SIGILL) or _fatal(p, text):
                    name, shard = todo[0][:2]
                    failures.append((name, _last(outdir, name, shard),
                                     f'the process crashed (exit status {p.returncode})'
                                     + _summary(text),
                                     text[-3000:]))
                    if len(todo) > 1:
                        start(todo[1:])
                else:
                    errors.append(f'worker exit status {p.returncode}\n' + text[-4000:])

        evaluations, discarded, hashes, samples, per = 0, 0, 0, [], {}
        for name in names:
            hs = set()
            e = d = 0
            for s in range(nshards):
                path = os.path.join(outdir, f'res-{name}-{s}.pkl')
                if not os.path.exists(path):
                    continue
                with open(path, 'rb') as f:
                    r = pickle.load(f)
                e += r['evaluations']
                d += r['discarded']
                hs |= r['hashes']
                if s == 0:
                    samples += r['samples'][:2]
                if r['failure']:
                    f_ = r['failure']
                    failures.append((name, f_['case'], f_['message'], f_['traceback']))
            evaluations += e
            discarded += d
            hashes += len(hs)
            per[name] = {'evaluations': e, 'discarded': d, 'distinct_nontrivial': len(hs)}
    finally:
        for p, *_ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(outdir, ignore_errors=True)

    # findings recorded in known_findings.json: replay each of them
    for entry in load_known(prop):
        if entry.get('status') != 'known':
            continue
        probe = getattr(module, 'KNOWN_PROBES', {}).get(entry['id'])
        if probe is None:
            errors.append(f'no probe for finding {entry["id"]}')
            continue
        if probe():
            print(f'KNOWN-FINDING: property={prop} {entry["id"]}: {entry["what"]}')
        else:
            print(f'note: the recorded finding {entry["id"]} no longer fails')

    rules = '; '.join(
        f'[{s.name}] {" ".join(s.rule.split())}' for s in registry(module) if s.rule
    )
    doc = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': hashes,
            'rule': ' '.join((getattr(module, 'RULE', '') or '').split()) + ' ' + rules,
            'samples': samples[:12] or ['none'],
            'discarded': discarded,
            'per_check': per,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len({f[0] for f in failures}),
    }
    with open(evidence, 'w') as f:
        json.dump(doc, f, indent=1)

    for name, v in per.items():
        print(f'{prop}.{name}: {v["evaluations"]} cases, '
              f'{v["distinct_nontrivial"]} distinct non-trivial, {v["discarded"]} discarded')
    print(f'{prop} tier={tier} seed={seed} wall={doc["wall_s"]}s')
    if failures:
        seen = set()
        for name, blob, message, tb in failures:
            if name in seen:
                continue
            seen.add(name)
            path = write_replay(prop, name, blob, message, tb, seed)
            print(f'--- {prop}.{name}: {message[:1500]}')
            print(f'VIOLATION property={prop} replay={path}')
        for e in errors:
            print('check error:', e)
        return 1
    if errors:
        for e in errors:
            print('check error:', e)
        return 2
    if not evaluations:
        print('check error: nothing was evaluated')
        return 2
    return 0


def _has(outdir, task):
    return os.path.exists(os.path.join(outdir, f'res-{task[0]}-{task[1]}.pkl'))


def _last(outdir, name, shard):
    try:
        with open(os.path.join(outdir, f'last-{name}-{shard}'), 'rb') as f:
            n = int.from_bytes(f.read(8), 'little')
            return f.read(n)
    except OSError:
        return pickle.dumps(None)


def _fatal(p, text):
    # gfortran's run time error and glibc's heap checks
    return any(s in text for s in ('Fortran runtime error', 'malloc', 'free():',
                                   'Error termination', 'AddressSanitizer'))


def _summary(text):
    # what the sanitizer or the Fortran run time says
    for line in text.splitlines():
        if 'ERROR: AddressSanitizer' in line or 'Fortran runtime error' in line:
            return ': ' + line[:200]
    return ''


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    if doc['property'] in CHECKED and 'VERIF_SO' not in os.environ:
        flavour, extra = build.checked_flavour()
        if flavour:
            env = {**os.environ, **extra, 'VERIF_SO': build.ensure_build(flavour)}
            p = subprocess.run(
                [sys.executable, '-m', 'harness.main', '--replay', path], cwd=VERIF, env=env
            )
            if p.returncode not in (0, 1):
                print(f'VIOLATION property={doc["property"]} replay={path}')
            return int(p.returncode != 0)
    prepare()
    from . import core

    module = load_module(doc['property'])
    sub = {s.name: s for s in registry(module)}[doc['sub']]
    case = pickle.loads(base64.b64decode(doc['pickle']))
    print('case:', doc['case'][:4000])
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        sub.check(case)
    except core.Discard:
        print('the case is out of the domain of the property')
        return 0
    except Exception:
        import traceback

        traceback.print_exc()
        print(f'VIOLATION property={doc["property"]} replay={path}')
        return 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print('the property holds on this case')
    return 0


def main(argv):
    if argv[:1] == ['--setup']:
        build.ensure_deps()
        build.ensure_build()
        return 0
    if argv[:1] == ['--worker']:
        with open(argv[1]) as f:
            args = json.load(f)
        return worker(*args)
    if argv[:1] == ['--replay']:
        return replay(os.path.abspath(argv[1]))
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run_property(argv[0], tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

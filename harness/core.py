"""Registry of executable property checks and the generated-input search that runs them."""

import contextlib
import hashlib
import pickle
import reprlib
import time
import traceback
import zlib

REGISTRY = []  # sub-checks of the property module that is loaded
ASSUMPTIONS = []


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, nontrivial, rule):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial
        self.rule = rule


class Discard(Exception):
    """The generated case lies outside of the property's domain."""


def discard(condition=True):
    if condition:
        raise Discard()


def sub(strategy, quick=200, thorough=None, nontrivial=None, rule=''):
    """Register `check(case)`: it raises when the generated case breaks the property."""

    def decorator(func):
        REGISTRY.append(
            Sub(
                func.__name__,
                strategy,
                func,
                quick,
                quick * 40 if thorough is None else thorough,
                nontrivial or (lambda case: True),
                rule or (func.__doc__ or '').strip(),
            )
        )
        return func

    return decorator


class Violation(AssertionError):
    pass


def fail(msg, **info):
    for k, v in info.items():
        msg += f' {k}={_repr.repr(v)}'
    raise Violation(msg)


def require(condition, msg='violated', **info):
    if not condition:
        fail(msg() if callable(msg) else msg, **info)


_repr = reprlib.Repr()
_repr.maxstring = _repr.maxother = 200
_repr.maxlist = _repr.maxtuple = _repr.maxset = 12
_repr.maxdict = 20
_repr.maxlevel = 6


def short(obj):
    return _repr.repr(obj)


def case_hash(case):
    try:
        data = pickle.dumps(case, protocol=4)
    except Exception:
        data = repr(case).encode()
    return hashlib.blake2b(data, digest_size=8).hexdigest()


class Result:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.discarded = 0
        self.hashes = set()
        self.samples = []
        self.failure = None
        self.wall = 0.0


def run_sub(sub_, seed, n, budget, last_case=None):
    """Search `n` generated cases (or `budget` seconds) for a violation; shrink it."""
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    for attr in ('MAX_SHRINKING_SECONDS',):
        if hasattr(engine, attr):
            setattr(engine, attr, 45)

    result = Result(sub_.name)
    t0 = time.monotonic()
    state = {'fail': None, 'first': None}

    def body(case):
        if state['fail'] is None and time.monotonic() - t0 > budget:
            return
        if last_case is not None:
            last_case(sub_.name, case)
        try:
            # the check may modify the arrays of the case: identify it beforehand
            h = case_hash(case) if state['fail'] is None else None
            blob = pickle.dumps(case, protocol=4)
            sub_.check(case)
        except Discard:
            result.discarded += 1
            return
        except Exception as exc:
            msg = f'{type(exc).__name__}: {exc}'
            entry = (blob, msg, traceback.format_exc())
            state['fail'] = entry
            if state['first'] is None:
                state['first'] = entry
            raise
        if state['fail'] is not None:
            return
        result.evaluations += 1
        if h in result.hashes:
            return
        if sub_.nontrivial(pickle.loads(blob)):
            result.hashes.add(h)
            if len(result.samples) < 3 and result.evaluations % 7 == 1:
                result.samples.append(f'{sub_.name}: {short(pickle.loads(blob))}')

    strategy = sub_.strategy() if callable(sub_.strategy) else sub_.strategy
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.target, Phase.shrink),
    )(given(strategy)(body))
    test = hypothesis.seed((seed * 1000003 + zlib.crc32(sub_.name.encode())) & 0xFFFFFFFF)(test)
    try:
        with contextlib.redirect_stdout(None):
            test()
    except hypothesis.errors.Unsatisfiable:
        pass
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        if state['fail'] is None:
            raise  # an error of the generators themselves
        blob, msg, tb = state['fail']
        result.failure = {'case': blob, 'message': msg, 'traceback': tb}
    result.wall = time.monotonic() - t0
    return result

"""C30: no effect of the number of threads, of uninitialised memory, of what is nearby."""

import contextlib
import ctypes

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, fail, require, sub

from . import c28_operator_contract as c28
from . import c29_representations as c29

S = 'src/pysimulators/'
PROPERTY = dict(
    title='Memory safety, and no effect of threads or of uninitialised memory',
    statement=(
        'The functions, methods and operators return the same results for any number of '
        'OpenMP threads, and twice exactly the same ones with a single thread. Their results do '
        'not depend on the content of the memory that is allocated for them. No access '
        'is done outside of the arrays, including for arguments and outputs whose '
        'size, number of dimensions or type are not those expected: these are refused by '
        'an exception or dealt with, without changing anything around the given outputs.'
    ),
    over=['inputs', 'schedules'],
    text='every argument size, output, number of threads and content of the memory',
    why=(
        'A stray access or an uninitialised value usually has no visible effect in the '
        'process that runs the tests, whose new memory is zeroed, and the tests use '
        'arguments that match each other.'
    ),
    files=[
        S + _
        for _ in (
            'operators.py', 'sparse.py', 'datautils.py', 'geometry.py', 'wcsutils.py',
            'noises.py', 'packedtables/core.py', 'packedtables/scenes.py',
            'packedtables/samplings.py', 'instruments.py', 'acquisitions.py',
        )
    ],
    mechanism=[
        ('calls to the compiled routines, and their sizes', S + 'operators.py'),
        ('_FSMatrix._matvec', S + 'sparse.py'),
        ('ProjectionBaseOperator.get_pTx_pT1, PointingMatrix.pack', S + 'operators.py'),
        ('create_grid, rotate, surface_simple_polygon', S + 'geometry.py'),
        ('distance, distance2', S + 'datautils.py'),
        ('np.empty', S + 'packedtables/core.py'),
    ],
)
RULE = (
    'A case is a function or operator and its arguments, evaluated with the extension built '
    'with bounds and address checks; it is non-trivial when an argument has several elements.'
)
ENV = {'OMP_NUM_THREADS': '3', 'OMP_WAIT_POLICY': 'passive'}
QUICK_BUDGET = 40.0

EXTRA = {}


def extra(f):
    EXTRA[f.__name__] = f
    return f


@extra
def pack(r):
    pm = c28.pointing_matrix(r)

    def call(mask):
        m = pm.copy()
        m.pack(mask)
        return m['index'], m['value'], m.shape_input

    mask = np.ones(pm.shape_input, bool)
    mask.flat[pm['index'].ravel()] = False
    return {'mask': mask}, call


@extra
def backprojection_mask(r):
    op, _ = c28.in_memory(r)
    a = {
        'x': r.uniform(-1, 1, op.shapeout),
        'mask': r.integers(0, 2, op.shapeout).astype(bool),
    }
    return a, lambda x, mask: op.get_pTx_pT1(x, mask=mask)


@extra
def intersects(r):
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator

    shape = c29.shape2(r)
    pm = PointingMatrix.zeros(c29.shape2(r) + (2,), shape, verbose=False)
    pm['index'] = r.integers(-1, int(np.prod(shape)), pm.shape)
    pm['index'][..., 1][pm['index'][..., 0] == -1] = -1
    op = ProjectionInMemoryOperator(pm)
    axis = [None, 0, 1][r.integers(3)]
    return {'coords': r.integers(1, 3, 2)}, lambda coords: op.intersects(coords, axis)


@extra
def apply_mask(r):
    pm = c28.pointing_matrix(r)

    def call(mask):
        from pysimulators import ProjectionInMemoryOperator

        op = ProjectionInMemoryOperator(pm.copy())
        op.apply_mask(mask)
        return op.matrix['index'], op.matrix['value']

    return {'mask': r.integers(0, 2, pm.shape[:-1]).astype(bool)}, call


@extra
def restrict(r):
    from pysimulators.operators import ProjectionOperator

    from harness import sparse as s

    c = c28.sparse_case(r, True)

    def call(mask):
        op = ProjectionOperator(s.build(c)).restrict(mask)
        return op.matrix.data['index'], op.matrix.shape

    return {'mask': r.integers(0, 2, c['nin']).astype(bool)}, call


@extra
def corestrict(r):
    from pysimulators.operators import ProjectionOperator

    from harness import sparse as s

    c = c28.sparse_case(r, True)
    while c['kind'] == 'block':
        c = c28.sparse_case(r, True)

    def call(mask):
        op = ProjectionOperator(s.build(c)).corestrict(mask)
        return op.matrix.data['index'], op.matrix.shape

    return {'mask': r.integers(0, 2, c['nout']).astype(bool)}, call


@extra
def matvec(r):
    from harness import sparse as s

    mat = s.build(c28.sparse_case(r, False))
    return {'x': r.uniform(-1, 1, mat.shape[1])}, lambda x: mat * x


@extra
def scene(r):
    from pysimulators import SceneGrid

    n = int(r.integers(2, 6))
    x = r.uniform(-1, n, (3, 4, 2))
    grid = SceneGrid((n, n + 1))

    def call(x):
        data = grid.get_integration_operator(x).matrix
        return data.shape, data.data['index'], data.data['value']

    return {'x': x}, call


NAMES = sorted('f:' + _ for _ in c29.ENTRIES) + sorted('o:' + _ for _ in c28.ZOO)
NAMES += sorted('g:' + _ for _ in EXTRA)
# a private function, and operators which are partitioned by an empty argument
NOT_RESIZED = 'f:interpolated_psd', 'f:invntt', 'f:invntt_psd'


def threads(n):
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)


def fresh(case):
    """The arguments and a function of them."""
    kind, _, name = case['name'].partition(':')
    r = gen.rng(case['seed'])
    with np.errstate(all='ignore'):
        if kind == 'g':
            return EXTRA[name](r)
        if kind == 'f':
            return c29.ENTRIES[name](r)
        op, x = c28.ZOO[name](r)
        if case['transpose'] and op.flags.linear and op.flags.real:
            x = r.uniform(-1, 1, np.shape(op(np.array(x))))
            op = op.T
    return {'x': x}, lambda x: op(x)


@st.composite
def cases(draw):
    return {
        'name': draw(st.sampled_from(NAMES)),
        'seed': draw(gen.seeds()),
        'transpose': draw(st.booleans()),
    }


def evaluate(call, args):
    np.random.seed(0)
    args = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in args.items()}
    return [
        (p, np.array(type(a.flat[0]).__name__) if a.dtype.kind == 'O' else a, u)
        for p, a, u in c29.flat(call(**args))
    ]


@sub(cases(), quick=800, thorough=20000)
def schedules(case):
    """1 to 8 threads."""
    args, call = fresh(case)
    try:
        threads(1)
        expected = evaluate(call, args)
        c29.compare(evaluate(call, args), expected, f'{case["name"]}, again', exact=True)
        for n in 2, 5, 8:
            threads(n)
            c29.compare(evaluate(call, args), expected, f'{case["name"]}, {n} threads')
    finally:
        threads(3)


@contextlib.contextmanager
def allocations(byte):
    """The new arrays are filled with a byte."""
    originals = np.empty, np.empty_like

    def fill(out):
        if type(out) is np.ndarray and not out.dtype.hasobject and out.size:
            b = byte & 1 if out.dtype == bool else byte
            out.ravel(order='K').view(np.uint8)[...] = b
        return out

    np.empty = lambda *args, **keywords: fill(originals[0](*args, **keywords))
    np.empty_like = lambda *args, **keywords: fill(originals[1](*args, **keywords))
    try:
        yield
    finally:
        np.empty, np.empty_like = originals


@sub(cases(), quick=1200, thorough=30000)
def uninitialised(case):
    """Same results whatever the new memory holds."""
    from pyoperators.core import _pool

    results = []
    for byte in 0xFF, 0x40:
        # no buffer is used again
        del _pool._buffers[:]
        with allocations(byte):
            args, call = fresh(case)
            results.append(evaluate(call, args))
    c29.compare(*results, f'{case["name"]}, other uninitialised memory')


def resize(a, how, r):
    """Another size, or number of dimensions."""
    a = np.asarray(a)
    if how == 'dimension':
        return a[..., None] if r.integers(2) else a[None]
    if how == 'scalar':
        return a.ravel()[0] if a.size else np.array(1, a.dtype)
    if not a.ndim:
        return a
    axis = int(r.integers(a.ndim))
    if how == 'empty':
        return np.take(a, [], axis)
    if how == 'element':
        return np.take(a, 0, axis) if a.shape[axis] else a
    n = a.shape[axis]
    if how == 'shorter':
        return np.take(a, range(max(n - 1, 0)), axis)
    if not n:
        return a
    return np.take(a, np.arange(n + 1 + int(r.integers(5))) % n, axis)


@st.composite
def resize_cases(draw):
    case = draw(cases())
    if case['name'] in NOT_RESIZED:
        case['name'] = 'f:distance'
    sizes = ['dimension', 'scalar', 'empty', 'element', 'shorter', 'longer']
    case['sizes'] = draw(
        st.lists(st.sampled_from([None] + sizes), min_size=1, max_size=4)
    )
    return case


@sub(resize_cases(), quick=1200, thorough=40000, nontrivial=lambda c: any(c['sizes']))
def resized(case):
    """Refused or not, arguments of other sizes do not lead to stray accesses."""
    args, call = fresh(case)
    r = gen.rng(case['seed'])
    given = dict(args)
    for k, how in zip(args, case['sizes']):
        if how is not None:
            given[k] = np.array(resize(args[k], how, r))
    copies = {k: np.array(v) for k, v in given.items()}
    results = []
    for byte in 0xFF, 0x40:
        with allocations(byte):
            try:
                results.append(evaluate(call, given))
            except Exception as error:
                results.append(repr(type(error)))
    for k, v in copies.items():
        require(
            np.array_equal(v, given[k], equal_nan=v.dtype.kind in 'fc'),
            f'{case["name"]}: the argument {k} has been modified',
        )
    what = f'{case["name"]} {case["sizes"]}'
    if isinstance(results[0], str) or isinstance(results[1], str):
        require(results[0] == results[1], f'{what}: {results}, with other memory')
    else:
        c29.compare(*results, f'{what}, other uninitialised memory')


OUTPUTS = {}


def outputs(f):
    OUTPUTS[f.__name__] = f
    return f


# each function returns the shapes and types of the outputs, and a function of these
# outputs that returns what should be the outputs


@outputs
def distance(r):
    import pysimulators as p

    shape = c29.shape2(r)
    return [(shape, float)], lambda out: p.distance(shape, center=(1, 2), out=out)


@outputs
def distance2(r):
    from pysimulators.datautils import distance2

    shape = c28.some_shape(r)
    return [(shape, float)], lambda out: distance2(shape, out=out)


@outputs
def grid(r):
    from pysimulators import geometry

    shape = c29.shape2(r, 1)
    return [(shape + (2,), float)], lambda out: geometry.create_grid(shape, 0.5, out=out, angle=20)


@outputs
def grid_squares(r):
    from pysimulators import geometry

    shape = c29.shape2(r, 1)
    return [(shape + (4, 2), float)], lambda out: geometry.create_grid_squares(
        shape, 0.5, filling_factor=0.8, out=out
    )


@outputs
def circle(r):
    from pysimulators import geometry

    n = int(r.integers(3, 6))
    return [((n, 2), float)], lambda out: geometry.create_circle(2, n=n, out=out)


@outputs
def rectangle(r):
    from pysimulators import geometry

    shape = c28.some_shape(r)
    size = r.uniform(1, 2, shape + (2,))
    return [(shape + (4, 2), float)], lambda out: geometry.create_rectangle(size, out=out, angle=5)


@outputs
def square(r):
    from pysimulators import geometry

    shape = c28.some_shape(r)
    size = r.uniform(1, 2, shape)
    return [(shape + (4, 2), float)], lambda out: geometry.create_square(size, out=out)


@outputs
def rotate(r):
    from pysimulators import geometry

    x = r.uniform(-1, 1, c28.some_shape(r) + (2,))
    return [(x.shape, float)], lambda out: geometry.rotate(x, 30, out=out)


@outputs
def surface(r):
    from pysimulators import geometry

    x = r.uniform(-1, 1, c28.some_shape(r) + (4, 2))
    return [(x.shape[:-2], float)], lambda out: geometry.surface_simple_polygon(x, out=out)


@outputs
def sparse(r):
    from harness import sparse as s

    c = c28.sparse_case(r, False)
    mat = s.build(c)
    x = r.uniform(-1, 1, mat.shape[1])

    def product(out):
        out[...] = 0
        return mat._matvec(x, out)

    return [((mat.shape[0],), float)], product


def projection(r):
    from pysimulators.operators import ProjectionOperator

    from harness import sparse as s

    c = c28.sparse_case(r, True)
    mat = s.build(c)
    return ProjectionOperator(mat), c


@outputs
def kernel(r):
    op, c = projection(r)
    return [((c['nin'],), bool)], lambda out: op.canonical_basis_in_kernel(out=out)


@outputs
def coverage(r):
    op, c = projection(r)
    return [((c['nin'],), float)], lambda out: op.pT1(out=out)


@outputs
def backprojection(r):
    op, c = projection(r)
    if c['kind'] == 'rot2d' or c['bs'][0] != c['bs'][1]:
        discard()
    shape = (c['nout'],) + ((c['bs'][0],) if c['bs'][0] > 1 else ())
    x = r.uniform(-1, 1, shape)
    return [((c['nin'],), float)] * 2, lambda *out: op.pTx_pT1(x, out=out)


@outputs
def pointing_mask(r):
    op, x = c28.in_memory(r)

    def mask(out):
        out[...] = True
        return op.get_mask(out=out)

    return [(x.shape, bool)], mask


@outputs
def pointing_pTp(r):
    op, x = c28.in_memory(r)

    def pTp(out):
        out[...] = 0
        return op.get_pTp(out=out)

    return [((x.size, x.size), float)], pTp


@outputs
def pointing_backprojection(r):
    op, x = c28.in_memory(r)
    y = r.uniform(-1, 1, op.shapeout)
    mask = None if r.integers(2) else r.integers(0, 2, y.shape).astype(bool)

    def pTx_pT1(*out):
        for o in out:
            o[...] = 0
        return op.get_pTx_pT1(y, out=out, mask=mask)

    return [(x.shape, float)] * 2, pTx_pT1


@outputs
def operator(r):
    name = sorted(c28.ZOO)[r.integers(len(c28.ZOO))]
    op, x = c28.ZOO[name](r)
    with np.errstate(all='ignore'):
        y = np.asarray(op(np.array(x)))
    return [(y.shape, y.dtype)], lambda out: op(np.array(x), out)


@outputs
def pack(r):
    import pysimulators as p

    n = int(r.integers(2, 6))
    table = p.PackedTable((n, 2), selection=slice(0, 2 * n, 2))
    x = r.uniform(-1, 1, (n, 2))
    return [(table.pack(x).shape, float)], lambda out: table.pack(x, out=out)


@outputs
def unpack(r):
    import pysimulators as p

    n = int(r.integers(2, 6))
    table = p.PackedTable((n, 2), selection=slice(0, 2 * n, 2))
    x = r.uniform(-1, 1, n)
    return [((n, 2), float)], lambda out: table.unpack(x, out=out)


def make_output(shape, dtype, how, r):
    """An output with guards, of another shape or type, and the whole memory."""
    shape, dtype = tuple(shape), np.dtype(dtype)
    if how == 'longer' and shape:
        i = int(r.integers(len(shape)))
        shape = shape[:i] + (shape[i] + 1,) + shape[i + 1 :]
    elif how == 'shorter' and shape:
        i = int(r.integers(len(shape)))
        shape = shape[:i] + (shape[i] - 1,) + shape[i + 1 :]
    elif how == 'flat':
        shape = (int(np.prod(shape)),)
    elif how == 'transposed':
        shape = shape[::-1]
    elif how == 'dimension':
        shape = shape + (1,)
    elif how == 'wide':
        shape = shape + (2,)
    elif how in ('f4', 'i8', 'c16', 'i1', '>f8', 'f2'):
        dtype = np.dtype(how)
    if how == 'strided' and shape:
        memory = np.full(shape[:-1] + (2 * shape[-1] + 2,), 1, dtype)
        return memory, memory[..., 1:-1:2]
    if how == 'reversed' and shape:
        memory = np.full((shape[0] + 2,) + shape[1:], 1, dtype)
        return memory, memory[-2:0:-1]
    n = int(np.prod(shape))
    memory = np.full(n + 16, 1, dtype)
    return memory, memory[8 : 8 + n].reshape(shape)


HOWS = [
    None, 'longer', 'shorter', 'flat', 'transposed', 'dimension', 'wide', 'f4', 'i8', 'c16',
    'i1', '>f8', 'f2', 'strided', 'reversed',
]


@st.composite
def output_cases(draw):
    return {
        'name': draw(st.sampled_from(sorted(OUTPUTS))),
        'seed': draw(gen.seeds()),
        'how': draw(st.lists(st.sampled_from(HOWS), min_size=2, max_size=2)),
    }


@sub(output_cases(), quick=2500, thorough=60000, nontrivial=lambda c: any(c['how']))
def given_outputs(case):
    """An output is filled with the values, or is refused; its surroundings are intact."""
    r = gen.rng(case['seed'])
    specs, call = OUTPUTS[case['name']](r)
    fresh = [np.zeros(s, d) for s, d in specs]
    expected = call(*fresh)
    if len(specs) == 1:
        expected = (expected,)
    expected = [np.array(_) for _ in expected]
    pairs = [make_output(s, d, h, r) for (s, d), h in zip(specs, case['how'])]
    before = [m.copy() for m, _ in pairs]
    what = f'{case["name"]}, output {case["how"][:len(specs)]}'
    done = False
    try:
        result = call(*(o for _, o in pairs))
        done = True
    except Exception as error:
        if not any(case['how'][: len(specs)]):
            fail(f'{what}: {error!r}')
    for (memory, out), b in zip(pairs, before):
        # the surroundings are as before once the output is restored
        after = out.copy()
        out[...] = 1
        require(np.array_equal(memory, b), lambda: f'{what}: written outside of the output')
        out[...] = after
    if not done:
        return
    for (_, out), e, s in zip(pairs, expected, specs):
        if out.shape != tuple(s[0]) or out.dtype.kind not in 'fcb':
            # accepted because there is as much room
            continue
        tol = {'f2': 1e-2, 'f4': 1e-5}.get(out.dtype.str[1:], 1e-12)
        scale = np.max(np.abs(e), initial=0, where=np.isfinite(e))
        require(
            np.allclose(out, e, rtol=tol, atol=tol * scale, equal_nan=True),
            lambda: f'{what}: {out.tolist()} instead of {e.tolist()}',
        )

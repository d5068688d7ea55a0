"""C01: products by the fixed-sparse matrices."""

import operator

import numpy as np
from hypothesis import strategies as st

from harness import gen, sparse
from harness.core import fail, require, sub
from harness.sparse import nontrivial, vector

PROPERTY = dict(
    title='Fixed-sparse products equal the products by the matrix the entries define',
    statement=(
        'For every fixed-sparse-row or -column matrix (scalar, block, 2-d or 3-d rotation '
        'entries, any integer index and real value type), matrix * vector, vector * matrix '
        'and the sparse operator applied to an array equal the product by the dense matrix '
        'obtained by summing the entries, negative indices being ignored and repeated '
        'indices accumulated. This holds whether the output is allocated, given, strided or '
        'accumulated into, and for compiled as well as fallback type combinations; todense '
        'returns that same dense matrix.'
    ),
    over=['inputs', 'configurations'],
    text='every matrix format, block shape, entry table, index/value/vector type and output mode',
    why=(
        'The tests multiply a handful of small hand-written matrices; the answer depends on '
        'format x block shape x index type x value type x vector type x output layout, with '
        'unset and repeated entries.'
    ),
    files=['src/pysimulators/sparse.py', 'src/flib/sparse.f90.j2'],
    mechanism=[
        ('_FSMatrix._matvec and the per-format fallbacks', 'src/pysimulators/sparse.py'),
        ('fsr/fsc_*matvec kernels', 'src/flib/sparse.f90.j2'),
    ],
)
RULE = (
    'A case is a fixed-sparse matrix (format, block shape, index and value types, entry '
    'table with unset and repeated indices) and a vector; it is non-trivial when at '
    'least one set entry has a non-zero value.'
)
VTYPES = ['f4', 'f8', 'f8', 'f2', 'g', 'i8', 'i2', 'c16', 'c8', '>f8', '>f4', '>c16', '>i4']


@st.composite
def cases(draw, **keywords):
    c = draw(sparse.matrices(**keywords))
    vtype = draw(st.sampled_from(VTYPES))
    if c['rtype'] == 'c16' and vtype == 'c8':
        vtype = 'c16'
    extra = draw(st.sampled_from([None, 1, 2, 3, 6])) if c['kind'] == 'plain' else None
    m, n = sparse.shape_of(c)
    v = vector(draw, n * (extra or 1), c['exact'], vtype)
    w = vector(draw, m * (extra or 1), c['exact'], vtype)
    return {'m': c, 'vtype': vtype, 'extra': extra, 'v': v, 'w': w}


def expected(c, M, v, extra, transposed=False):
    V = np.asarray(v).astype(np.clongdouble if np.iscomplexobj(v) else np.longdouble)
    V = V.reshape(M.shape[1], extra or 1)
    e = M @ V
    A = sparse.dense(c, absolute=True)
    b = (A.T if transposed else A) @ np.abs(V)
    return e, b


@sub(cases, quick=500, thorough=12000, nontrivial=nontrivial)
def matrix_times_vector(case):
    """matrix * vector and vector * matrix against the dense matrix."""
    c = case['m']
    mat = sparse.build(c)
    M = sparse.dense(c)
    t = sparse.tol(c, np.result_type(np.dtype(c['rtype']), case['v'].dtype))
    before = np.array(mat.data)
    v = case['v'].copy()
    e, b = expected(c, M, v, case['extra'])
    sparse.same(mat * v, e.ravel(), b.ravel(), t, 'matrix * vector')
    require(np.array_equal(v, case['v']), 'the input vector has been modified')
    e, b = expected(c, M.T, case['w'], case['extra'], True)
    sparse.same(case['w'] * mat, e.ravel(), b.ravel(), t, 'vector * matrix')
    require(
        before.tobytes() == np.array(mat.data).tobytes(), 'the matrix has been modified'
    )


@st.composite
def operator_cases(draw):
    case = draw(cases())
    case['mode'] = draw(st.sampled_from(['plain', 'out', 'iadd', 'strided', 'inshape', 'other']))
    case['otype'] = draw(st.sampled_from(['f4', 'f8', 'g']))
    case['transpose'] = draw(st.booleans())
    if case['mode'] == 'other' and 'c' in (case['v'].dtype.kind, case['m']['rtype'][0]):
        case['mode'] = 'iadd'
    if case['vtype'] in ('f2', 'i2') and case['mode'] in ('iadd', 'out', 'strided'):
        case['mode'] = 'plain'
    return case


@sub(operator_cases, quick=500, thorough=12000, nontrivial=nontrivial)
def sparse_operator(case):
    """SparseOperator applied to arrays: allocated, given, strided or accumulated output."""
    from pysimulators.sparse import SparseOperator

    c, mode = case['m'], case['mode']
    M = sparse.dense(c)
    mat = sparse.build(c)
    extra = case['extra']
    v = case['v']
    rdtype = np.result_type(np.dtype(c['rtype']), v.dtype)
    bs = c['bs']

    def shape(n, b):
        if c['kind'] == 'plain':
            if extra == 6:
                return (n, 2, 3)
            return (n,) if extra is None else (n, extra)
        return (n,) if b == 1 else (n, b)

    shapein, shapeout = shape(c['nin'], bs[1]), shape(c['nout'], bs[0])
    keywords = {}
    if mode == 'inshape':
        if extra is None and c['nin'] % 2 == 0:
            shapein = (2, c['nin'] // 2) + shapein[1:]
        if extra is None and c['nout'] % 3 == 0:
            shapeout = (3, c['nout'] // 3) + shapeout[1:]
        keywords = {'shapein': shapein, 'shapeout': shapeout}
    op = SparseOperator(mat, **keywords)
    if case['transpose']:
        # the operator that is applied is the transpose of that of the transpose
        op = op.T.T
    x = v.reshape(shapein)
    e, b = expected(c, M, v, extra)
    e, b = e.reshape(shapeout), b.reshape(shapeout)
    t = sparse.tol(c, rdtype)
    if mode == 'plain' or mode == 'inshape':
        y = op(x)
    elif mode == 'out':
        y = np.full(shapeout, 7, np.result_type(op.dtype, v.dtype))
        op(x, y)
    elif mode == 'iadd':
        y = np.full(shapeout, 2, np.result_type(op.dtype, v.dtype))
        op(x, y, operation=operator.iadd)
        e, b = e + 2, b + 2
    elif mode == 'other':
        # accumulation, by the direct method, in an array of any other type
        y = np.full(shapeout, 2, case['otype'])
        op.direct(x, y, operator.iadd)
        e, b = e + 2, b + 2
        t = max(t, sparse.tol(c, case['otype']))
    else:
        xx = np.zeros(tuple(2 * s for s in shapein), v.dtype)
        sl = tuple(slice(None, None, 2) for _ in shapein)
        xx[sl] = x
        y = np.zeros(shapeout + (2,), np.result_type(op.dtype, v.dtype))[..., 1]
        op(xx[sl], y)
    sparse.same(y, e, b, t, f'operator ({mode})')


@sub(
    lambda: cases(rtypes=('f4', 'f8', 'f2', 'g')),
    quick=250,
    thorough=5000,
    nontrivial=nontrivial,
)
def dense_representation(case):
    """todense() returns the dense matrix that the entries define."""
    from pysimulators.sparse import SparseOperator

    c = case['m']
    shapein = None if c['kind'] != 'plain' else (c['nin'],)
    op = SparseOperator(sparse.build(c), shapein=shapein)
    M, A = sparse.dense(c), sparse.dense(c, absolute=True)
    sparse.same(op.todense(), M, A, sparse.tol(c), 'todense')
    if c['kind'] == 'plain' and case['extra']:
        k = case['extra']
        op = SparseOperator(sparse.build(c), shapein=(c['nin'], k))
        K, A = np.kron(M, np.eye(k)), np.kron(A, np.eye(k))
        sparse.same(op.todense(), K, A, sparse.tol(c), 'todense (broadcast)')


@st.composite
def alloc_cases(draw):
    c = draw(
        sparse.matrices(itypes=('i4', 'i8', 'i2'), rtypes=('f4', 'f8'))
    )
    c['lead'] = False
    m, n = sparse.shape_of(c)
    return {'m': c, 'v': gen.quarter(draw, n)}


@sub(alloc_cases, quick=150, thorough=3000, nontrivial=nontrivial)
def allocated_matrix(case):
    """A matrix created from its shape and filled afterwards behaves as its entries."""
    c = case['m']
    cls = sparse.classes()[c['kind'], c['fmt']]
    keywords = {'dtype': c['rtype'], 'dtype_index': c['itype']}
    keywords['ncolmax' if c['fmt'] == 'fsr' else 'nrowmax'] = c['nmax']
    if c['kind'] == 'block':
        keywords['block_shape'] = c['bs']
    mat = cls(sparse.shape_of(c), **keywords)
    data = data_before = sparse.data_of(c)
    require(
        mat.data.shape == data.shape,
        lambda: f'the entry table has shape {mat.data.shape}, expected {data.shape}',
    )
    require(mat.data.dtype == data_before.dtype, 'invalid entry type')
    mat.data[...] = data
    M = sparse.dense(c)
    V = case['v'].astype(np.longdouble)
    A = sparse.dense(c, absolute=True)
    sparse.same(mat * case['v'], M @ V, A @ np.abs(V), sparse.tol(c), 'filled matrix')
    # the number of entries may also be given with the entries, if it is theirs
    del keywords['dtype'], keywords['dtype_index']
    name = 'ncolmax' if c['fmt'] == 'fsr' else 'nrowmax'
    mat = cls(sparse.shape_of(c), data=data.copy(), **keywords)
    require(getattr(mat, name) == c['nmax'], f'{name} is {getattr(mat, name)}')
    sparse.same(mat * case['v'], M @ V, A @ np.abs(V), sparse.tol(c), 'filled matrix')
    keywords[name] += 1
    try:
        cls(sparse.shape_of(c), data=data.copy(), **keywords)
    except ValueError:
        return
    fail(f'{name}={keywords[name]} is accepted with {c["nmax"]} entries')


@st.composite
def invalid_blocks(draw):
    bs = draw(st.tuples(st.integers(1, 6), st.integers(1, 6)))
    fmt = draw(st.sampled_from(['fsr', 'fsc']))
    return {'bs': bs, 'fmt': fmt, 'n': draw(st.integers(1, 3)), 'alloc': draw(st.booleans())}


@sub(invalid_blocks, quick=60, thorough=400, nontrivial=lambda c: max(c['bs']) > 3)
def unsupported_blocks(case):
    """A block shape is either refused or multiplied correctly, never silently ignored."""
    m, n = case['bs']
    cls = sparse.classes()['block', case['fmt']]
    k = case['n']
    shape = (k * m, k * n)
    name = 'ncolmax' if case['fmt'] == 'fsr' else 'nrowmax'
    try:
        if case['alloc']:
            mat = cls(shape, (m, n), **{name: 1})
        else:
            vs = (m, n) if case['fmt'] == 'fsr' else (n, m)
            mat = cls(shape, data=np.zeros((k, 1), [('index', int), ('value', float, vs)]))
    except (ValueError, NotImplementedError):
        require(
            max(m, n) > 3 or (m, n) == (1, 1), f'the block shape {m, n} is refused'
        )
        return
    mat.data['index'][:, 0] = np.arange(k)
    mat.data['value'] = 1
    require(
        np.array_equal(mat * np.ones(k * n), np.full(k * m, n)),
        f'wrong product for blocks of shape {m, n}',
    )



@st.composite
def repeated_cases(draw):
    bs = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (2, 1), (3, 1)]))
    return {
        'bs': bs,
        'n': draw(st.integers(1, 200)),
        'm': draw(st.integers(1, 20)),
        'nmax': draw(st.integers(1, 5)),
        'rtype': draw(st.sampled_from(['f4', 'f8'])),
        'seed': draw(gen.seeds()),
    }


@sub(repeated_cases, quick=60, thorough=1500, nontrivial=lambda c: c['n'] * c['nmax'] > 1)
def repeated_products(case):
    """The products by FSC blocks of several rows do not depend on the scheduling."""
    from pysimulators.sparse import FSCBlockMatrix

    bs = case['bs']
    mat = FSCBlockMatrix(
        (case['m'] * bs[0], case['n'] * bs[1]), bs, nrowmax=case['nmax'],
        dtype=case['rtype'], dtype_index='i4',
    )
    r = gen.rng(case['seed'])
    mat.data['index'] = r.integers(0, case['m'], mat.data.shape)
    mat.data['value'] = r.uniform(-1, 1, mat.data['value'].shape)
    v = r.uniform(-1, 1, mat.shape[1])
    ref = mat * v
    for i in range(10):
        require(np.array_equal(mat * v, ref), f'repetition {i} of the product differs')

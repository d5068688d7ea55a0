"""C02: transposition, products and scaling of sparse operators keep their meaning."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, sparse
from harness.core import require, sub
from harness.sparse import nontrivial, vector

PROPERTY = dict(
    title='Sparse operators keep their meaning when transposed, combined or scaled',
    statement=(
        'The transpose of a fixed-sparse operator is the exact adjoint, P.T * P (also with '
        'weights, a real scalar, or after simplification to a diagonal or block diagonal '
        'operator) acts as the product of the factors, and multiplying the matrix or '
        'operator by a real scalar, also in place, scales every product. Simplification '
        'rules never change the action of a composition, whatever the storage format, the '
        'number of entries per row and the explicit or implicit shapes.'
    ),
    over=['inputs', 'configurations'],
    text='every sparse operator, operator shape and expression of products, transposes and scalings',
    why=(
        'The tests check one or two matrices per rule; the rules trigger on combinations of '
        'format, types, entries per row and shapes.'
    ),
    files=['src/pysimulators/sparse.py', 'src/flib/sparse.f90.j2'],
    mechanism=[
        ('SparseOperator._rule_transpose, _rule_pTp', 'src/pysimulators/sparse.py'),
        ('fsr*_ptp kernels', 'src/flib/sparse.f90.j2'),
    ],
)
RULE = (
    'A case is a fixed-sparse matrix, operator shapes and an operator expression; it is '
    'non-trivial when at least one set entry has a non-zero value.'
)


@st.composite
def cases(draw, **keywords):
    keywords.setdefault('rtypes', ('f4', 'f8', 'f8', 'g', 'f2'))
    c = draw(sparse.matrices(**keywords))
    extra = draw(st.sampled_from([None, None, 1, 2, 3])) if c['kind'] == 'plain' else None
    m, n = sparse.shape_of(c)
    return {
        'm': c,
        'extra': extra,
        'multi': draw(st.booleans()),
        'explicit': draw(st.booleans()),
        'cls': draw(st.sampled_from(['sparse', 'projection'])),
        'x': vector(draw, n * (extra or 1), c['exact'], 'f8'),
        'y': vector(draw, m * (extra or 1), c['exact'], 'f8'),
    }


def make(case, mat=None, explicit=None):
    """Return operator, shapein, shapeout."""
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import SparseOperator

    c, extra = case['m'], case['extra']
    bs = c['bs']
    explicit = case['explicit'] if explicit is None else explicit

    def shape(n, b):
        s = (n,)
        if case['multi'] and explicit and n % 2 == 0:
            s = (2, n // 2)
        if c['kind'] != 'plain':
            return s if b == 1 else s + (b,)
        return s if extra is None else s + (extra,)

    shapein, shapeout = shape(c['nin'], bs[1]), shape(c['nout'], bs[0])
    keywords = {}
    if explicit:
        keywords = {'shapein': shapein, 'shapeout': shapeout}
    cls = SparseOperator
    if case['cls'] == 'projection' and c['fmt'] == 'fsr':
        cls = ProjectionOperator
    return cls(sparse.build(c) if mat is None else mat, **keywords), shapein, shapeout


def full(case, absolute=False):
    """Dense matrix with the broadcast dimension."""
    M = sparse.dense(case['m'], absolute=absolute)
    return M if case['extra'] is None else np.kron(M, np.eye(case['extra']))


@sub(cases, quick=500, thorough=12000, nontrivial=nontrivial)
def transpose(case):
    """The transpose of an operator is the transposed dense matrix, whatever the shapes."""
    op, shapein, shapeout = make(case)
    M, A = full(case), full(case, absolute=True)
    t = sparse.tol(case['m'], float)
    x, y = case['x'].reshape(shapein), case['y'].reshape(shapeout)
    P, Q = op(x), op.T(y)
    X, Y = x.ravel().astype(np.longdouble), y.ravel().astype(np.longdouble)
    sparse.same(P, (M @ X).reshape(shapeout), (A @ abs(X)).reshape(shapeout), t, 'P(x)')
    e = (M.T @ Y).reshape(shapein)
    b = (A.T @ abs(Y)).reshape(shapein)
    sparse.same(Q, e, b, t, 'P.T(y)')
    e = (M @ X).reshape(shapeout)
    sparse.same(op.T.T(x), e, (A @ abs(X)).reshape(shapeout), t, 'P.T.T(x)')
    if case['explicit']:
        sparse.same(op.T.todense(), M.T, A.T, t, 'P.T.todense()')


@st.composite
def composition_cases(draw):
    case = draw(
        cases(
            max_ncol=draw(st.sampled_from([1, 1, 2])),
            formats=('fsr', 'fsr', 'fsr', 'fsc'),
            itypes=('i4', 'i8', 'i4', 'i8', 'i2'),
        )
    )
    case['expr'] = draw(st.sampled_from(['PtP', 'PtP', 'PtDP', 'PPt', '2PtP', 'PtPx']))
    case['opdtype'] = draw(st.sampled_from([None, None, 'f4', 'f8']))
    m, n = sparse.shape_of(case['m'])
    case['d'] = gen.quarter(draw, m * (case['extra'] or 1))
    return case


@sub(composition_cases, quick=500, thorough=12000, nontrivial=nontrivial)
def compositions(case):
    """Composed operators (P.T*P, P.T*D*P, ...), simplified or not, act as dense products."""
    from pyoperators import DiagonalOperator

    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import SparseOperator

    c = case['m']
    op, shapein, shapeout = make(case)
    low = c['rtype']
    if case['opdtype'] is not None:
        cls = type(op)
        keywords = {'dtype': case['opdtype']}
        if case['explicit']:
            keywords.update(shapein=shapein, shapeout=shapeout)
        op = cls(sparse.build(c), **keywords)
        low = np.promote_types(low, case['opdtype']) if False else min(
            np.dtype(low), np.dtype(case['opdtype']), key=lambda d: d.itemsize
        )
    M = full(case)
    A = full(case, absolute=True)
    d = case['d'].astype(np.longdouble)
    x = case['x']
    expr = case['expr']
    if expr == 'PtP' or expr == 'PtPx':
        new, E, B = op.T * op, M.T @ M, A.T @ A
    elif expr == '2PtP':
        new, E, B = 2 * op.T * op * 2, 4 * M.T @ M, 4 * A.T @ A
    elif expr == 'PtDP':
        D = DiagonalOperator(case['d'].reshape(shapeout))
        new, E, B = op.T * D * op, M.T @ (d[:, None] * M), A.T @ (abs(d)[:, None] * A)
    else:
        new, E, B = op * op.T, M @ M.T, A @ A.T
        x = case['y']
    t = sparse.tol(c, float, low) * (B.shape[0] + 4)
    s = shapeout if expr == 'PPt' else shapein
    X = x.astype(np.longdouble)
    sparse.same(new(x.reshape(s)), (E @ X).reshape(s), (B @ abs(X)).reshape(s), t, expr)
    if case['explicit'] and expr != 'PtPx':
        sparse.same(new.todense(), E, B, t, expr + '.todense()')


SCALARS = st.one_of(
    st.integers(-4, 4),
    st.integers(-16, 16).map(lambda i: i / 4),
    st.integers(-16, 16).map(lambda i: np.float32(i / 4)),
    st.integers(-4, 4).map(np.int64),
)


@st.composite
def scaling_cases(draw):
    case = draw(cases())
    case['s'] = draw(SCALARS)
    case['left'] = draw(st.booleans())
    return case


@sub(scaling_cases, quick=400, thorough=6000, nontrivial=nontrivial)
def scaling(case):
    """scalar * matrix and copies: right product, original matrix left untouched."""
    c, s = case['m'], case['s']
    mat = sparse.build(c)
    before = np.array(mat.data).tobytes()
    new = s * mat if case['left'] else mat * s
    require(type(new) is type(mat), f'the product is a {type(new).__name__}')
    M = sparse.dense(c)
    X = case['x'].astype(np.longdouble).reshape(M.shape[1], -1)
    t = sparse.tol(c, float)
    e = (float(s) * (M @ X)).ravel()
    b = (abs(float(s)) * (sparse.dense(c, absolute=True) @ abs(X))).ravel()
    sparse.same(new * case['x'], e, b, t, 'scaled matrix')
    require(np.array(mat.data).tobytes() == before, 'the scaled matrix has been modified')
    cp = mat.copy()
    require(type(cp) is type(mat) and cp.shape == mat.shape, 'invalid copy')
    cp.data[...] = 0
    require(np.array(mat.data).tobytes() == before, 'the copy shares its entries')
    op, shapein, shapeout = make(case, mat)
    if s == 0 and not case['explicit']:
        return  # 0 * operator is a ZeroOperator of implicit shape
    op2 = op * float(s) if case['left'] else float(s) * op
    x = case['x'].reshape(shapein)
    sparse.same(op2(x), e.reshape(shapeout), b.reshape(shapeout), t, 'scaled operator')
    sparse.same(
        op2.T(case['y'].reshape(shapeout)),
        (float(s) * full(case).T @ case['y'].astype(np.longdouble)).reshape(shapein),
        (abs(float(s)) * full(case, absolute=True).T @ abs(case['y'])).reshape(shapein),
        t,
        'transposed scaled operator',
    )

"""C03: kernel, coverage, back projection and restriction of projections."""

import operator

import numpy as np
from hypothesis import strategies as st

from harness import gen, sparse
from harness.core import require, sub
from harness.sparse import nontrivial

PROPERTY = dict(
    title='Projection kernel, coverage, back projection and restrictions are exact',
    statement=(
        'For every projection, the canonical-basis kernel flags exactly the input components '
        'that no entry of non-zero value hits, pT1 is the sum over the entries of their '
        'value by input component, and pTx_pT1 returns P.T(x) together with pT1; an out '
        'argument is assigned or combined with the requested operation. Restricting (or '
        'corestricting) to a mask keeps exactly the columns (or rows) selected by the mask, '
        'renumbered in order, and leaves the original untouched unless inplace is set.'
    ),
    over=['inputs', 'configurations'],
    text='every projection matrix, operator shape, mask, data type and output mode',
    why=(
        'The tests use one fixed matrix per format; kernels, coverage and renumbering depend '
        'on unset, repeated and null entries and on the index and value types.'
    ),
    files=[
        'src/pysimulators/operators.py',
        'src/pysimulators/sparse.py',
        'src/flib/sparse.f90.j2',
    ],
    mechanism=[
        ('ProjectionOperator.canonical_basis_in_kernel, pT1, pTx_pT1', 'src/pysimulators/operators.py'),
        ('SparseOperator.restrict, corestrict', 'src/pysimulators/sparse.py'),
        ('fsr_kernel, fsr_restrict', 'src/flib/sparse.f90.j2'),
    ],
)
RULE = (
    'A case is a projection (fixed-sparse-row matrix, shapes, types) with masks or '
    'inputs; it is non-trivial when at least one set entry has a non-zero value.'
)
KINDS = ('plain', 'rot2d', 'rot3d')


@st.composite
def projections(draw, kinds=KINDS, itypes=('i4', 'i8', 'i1', 'i2', 'i4', 'i8'),
                rtypes=('f4', 'f8', 'f8', 'f4', 'f2', 'g'), extra=True):
    c = draw(sparse.matrices(formats=('fsr',), kinds=kinds, itypes=itypes, rtypes=rtypes))
    r = gen.rng(draw(gen.seeds()))
    if c['kind'] in ('rot2d', 'rot3d'):
        # entries are a value times a rotation; null values keep the sign of the sine
        val = np.asarray(c['values'])[0]
        angle = np.radians(r.integers(0, 12, val.shape) * 30)
        # quarter turns are exact
        co, si = (val * np.round(f(angle), 15) for f in (np.cos, np.sin))
        c['values'] = np.array([co, si] if c['kind'] == 'rot2d' else [val, co, si])
    if draw(st.booleans()):
        # some explicit zeros
        zero = r.integers(0, 2, np.asarray(c['values']).shape[1:3]).astype(bool)
        v = np.array(c['values'])
        v[:, zero] *= 0
        c['values'] = v
    explicit = draw(st.booleans())
    plain = c['kind'] == 'plain'
    k = draw(st.sampled_from([None, None, 2, 3])) if plain and extra and explicit else None
    multi_in = explicit and c['nin'] % 2 == 0 and draw(st.booleans())
    multi_out = explicit and c['nout'] % 2 == 0 and draw(st.booleans())
    c['lead'] = bool(multi_out)
    return {
        'm': c,
        'explicit': explicit,
        'extra': k,
        'multi_in': bool(multi_in),
        'multi_out': bool(multi_out),
    }


def shapes(case):
    c = case['m']

    def s(n, multi, b):
        out = (2, n // 2) if multi else (n,)
        if c['kind'] != 'plain':
            return out if b == 1 else out + (b,)
        return out if case['extra'] is None else out + (case['extra'],)

    return (
        s(c['nin'], case['multi_in'], c['bs'][1]),
        s(c['nout'], case['multi_out'], c['bs'][0]),
    )


def make(case, **keywords):
    from pysimulators.operators import ProjectionOperator

    if case['explicit']:
        keywords['shapein'], keywords['shapeout'] = shapes(case)
    return ProjectionOperator(sparse.build(case['m']), **keywords)


def coverage(case):
    """Sum of the values of the entries by input component, and of their magnitude."""
    c = case['m']
    data = np.asarray(sparse.data_of(c)).reshape(len(c['index']), c['nmax'])
    cov = np.zeros(c['nin'], np.longdouble)
    mag = np.zeros(c['nin'], np.longdouble)
    hit = np.zeros(c['nin'], bool)
    for row in data:
        for e in row:
            i = int(e['index'])
            if i < 0:
                continue
            if c['kind'] == 'plain':
                v = np.longdouble(e['value'])
                nz = v != 0
            elif c['kind'] == 'rot2d':
                v = np.sqrt(np.longdouble(e['r11']) ** 2 + np.longdouble(e['r21']) ** 2)
                nz = e['r11'] != 0 or e['r21'] != 0
            elif c['kind'] == 'rot3d':
                v = np.longdouble(e['r11'])
                nz = any(e[n] != 0 for n in ('r11', 'r22', 'r32'))
            else:
                v, nz = 0, np.any(e['value'] != 0)
            cov[i] += v
            mag[i] += abs(v)
            hit[i] |= bool(nz)
    return cov, mag, hit


def expand(a, case, shape=None):
    """One value per input component -> the shape of the non-block input dimensions."""
    sin = shapes(case)[0]
    if case['m']['kind'] != 'plain':
        return a.reshape(sin if case['m']['bs'][1] == 1 else sin[:-1])
    if case['extra'] is not None:
        a = np.repeat(a[:, None], case['extra'], axis=1)
    return a.reshape(sin)


@st.composite
def kernel_cases(draw):
    case = draw(projections(kinds=('plain', 'rot2d', 'rot3d', 'block')))
    shape = shapes(case)[0]
    if case['m']['kind'] != 'plain' and case['m']['bs'][1] > 1:
        shape = shape[:-1]
    case['mode'] = draw(st.sampled_from(['none', 'out', 'iand', 'ior', 'ixor']))
    case['out'] = gen.rng(draw(gen.seeds())).integers(0, 2, shape).astype(bool)
    case['strided'] = draw(st.booleans())
    return case


@sub(kernel_cases, quick=500, thorough=12000, nontrivial=nontrivial)
def kernel(case):
    """A component is flagged in the kernel iff no entry with a non-zero value hits it."""
    op = make(case)
    expected = expand(~coverage(case)[2], case)
    mode = case['mode']
    if mode == 'none':
        actual = op.canonical_basis_in_kernel()
    else:
        out = case['out'].copy()
        if case['strided']:
            out = np.repeat(out, 2, axis=-1)[..., ::2]
        if mode == 'out':
            actual = op.canonical_basis_in_kernel(out=out)
        else:
            f = getattr(operator, mode)
            op.canonical_basis_in_kernel(out=out, operation=f)
            actual = out
            expected = f(case['out'].copy(), expected)
        require(np.array_equal(out, actual), 'the output argument is not filled')
    require(actual.dtype == bool, 'the kernel is not boolean')
    require(
        np.array_equal(actual, expected),
        lambda: f'kernel {np.asarray(actual).tolist()}, expected {expected.tolist()}',
    )


@st.composite
def pt_cases(draw, kinds=KINDS):
    case = draw(projections(kinds=kinds))
    case['mode'] = draw(st.sampled_from(['none', 'out', 'iadd']))
    case['optype'] = draw(st.sampled_from([None, 'f4', 'f8']))
    case['strided'] = draw(st.booleans())
    n = int(np.prod(shapes(case)[1]))
    case['x'] = gen.rng(draw(gen.seeds())).uniform(-1, 1, n).astype(
        draw(st.sampled_from(['f8', 'f4', 'f8'])))
    if draw(st.booleans()):
        case['x'] = gen.quarter(draw, n)
    return case


def outputs(case, shape, dtype, n):
    outs = []
    for i in range(n):
        o = np.full(shape, 3 + i, dtype)
        if case['strided'] and case['mode'] == 'out':
            o = np.repeat(o, 2, axis=-1)[..., ::2]
        outs.append(o)
    return outs


@sub(pt_cases, quick=500, thorough=12000, nontrivial=nontrivial)
def pT1(case):
    """The coverage is the sum over the entries of their value, by input component."""
    keywords = {} if case['optype'] is None else {'dtype': case['optype']}
    op = make(case, **keywords)
    cov, mag, _ = coverage(case)
    cov, mag = expand(cov, case), expand(mag, case)
    t = sparse.tol(case['m'], op.dtype)
    if case['mode'] == 'none':
        actual = op.pT1()
    else:
        (actual,) = outputs(case, cov.shape, op.dtype, 1)
        if case['mode'] == 'out':
            op.pT1(out=actual)
        else:
            op.pT1(out=actual, operation=operator.iadd)
            cov, mag = cov + 3, mag + 3
    sparse.same(actual, cov, mag, t, 'pT1')


@sub(lambda: pt_cases(kinds=('plain', 'rot3d')), quick=500, thorough=12000,
     nontrivial=nontrivial)
def pTx_pT1(case):
    """Back projection and coverage computed together equal P.T(x) and pT1."""
    c = case['m']
    keywords = {} if case['optype'] is None else {'dtype': case['optype']}
    op = make(case, **keywords)
    shapein, shapeout = shapes(case)
    x = case['x'].reshape(shapeout)
    M, A = sparse.dense(c), sparse.dense(c, absolute=True)
    if case['extra'] is not None:
        M, A = (np.kron(_, np.eye(case['extra'])) for _ in (M, A))
    X = case['x'].astype(np.longdouble)
    e, b = (M.T @ X).reshape(shapein), (A.T @ abs(X)).reshape(shapein)
    if c['kind'] == 'rot3d':
        e, b = e[..., 0], b[..., 0]
    cov, mag, _ = coverage(case)
    cov, mag = expand(cov, case), expand(mag, case)
    dtype = np.result_type(op.dtype, x.dtype)
    t = sparse.tol(c, op.dtype, x.dtype)
    if case['mode'] == 'none':
        y, y1 = op.pTx_pT1(x)
    else:
        y, y1 = outputs(case, cov.shape, dtype, 2)
        if case['mode'] == 'out':
            op.pTx_pT1(x, out=(y, y1))
        else:
            op.pTx_pT1(x, out=(y, y1), operation=operator.iadd)
            e, b, cov, mag = e + 3, b + 3, cov + 4, mag + 4
    sparse.same(y, e, b, t, 'pTx')
    sparse.same(y1, cov, mag, t, 'pT1')


@st.composite
def restrict_cases(draw):
    case = draw(projections(kinds=('plain', 'rot2d', 'rot3d', 'block')))
    c = case['m']
    case['in'] = draw(st.lists(st.booleans(), min_size=c['nin'], max_size=c['nin']))
    case['out'] = draw(st.lists(st.booleans(), min_size=c['nout'], max_size=c['nout']))
    case['inplace'] = draw(st.booleans())
    case['seed'] = draw(gen.seeds())
    case['then'] = draw(st.booleans())
    return case


def check_dense(op, D, A, case, nrow, ncol, t, what):
    """op acts as D on fresh inputs, in both directions."""
    c = case['m']
    k = case['extra'] or 1
    r = gen.rng(case['seed'])
    m, n = c['bs']

    def sh(a, b):
        if c['kind'] == 'plain':
            return (a,) if case['extra'] is None else (a, case['extra'])
        return (a,) if b == 1 else (a, b)

    if case['extra'] is not None:
        D, A = (np.kron(_, np.eye(k)) for _ in (D, A))
    x = r.uniform(-1, 1, sh(ncol, n))
    y = r.uniform(-1, 1, sh(nrow, m))
    X, Y = (a.ravel().astype(np.longdouble) for a in (x, y))
    px, pty = op(x), op.T(y)
    require(px.shape == y.shape, f'{what}: shape {px.shape} instead of {y.shape}')
    require(pty.shape == x.shape, f'{what}.T: shape {pty.shape} instead of {x.shape}')
    sparse.same(np.asarray(px).ravel(), D @ X, A @ abs(X), t, what)
    sparse.same(np.asarray(pty).ravel(), D.T @ Y, A.T @ abs(Y), t, what + ' transposed')


@sub(restrict_cases, quick=500, thorough=10000, nontrivial=nontrivial)
def restriction(case):
    """Restricting to a subset of input components keeps exactly their columns."""
    from harness.core import discard

    c = case['m']
    mask = np.array(case['in'])
    discard(not mask.any())
    m, n = c['bs']
    op = make(case)
    # the kept dimensions are flattened: keep the output one-dimensional as well
    discard(case['multi_out'])
    before = np.array(op.matrix.data).tobytes()
    M = sparse.dense(c)
    D, A = (
        _.reshape(M.shape[0], c['nin'], n)[:, mask].reshape(M.shape[0], -1)
        for _ in (M, sparse.dense(c, absolute=True))
    )
    t = sparse.tol(c, float)
    mask_ = mask
    if case['multi_in']:
        mask_ = mask.reshape(2, -1)
    matrix = op.matrix
    new = op.restrict(mask_, inplace=case['inplace'])
    if not case['inplace']:
        require(
            np.array(matrix.data).tobytes() == before, 'the operator has been modified'
        )
    check_dense(new, D, A, case, c['nout'], int(mask.sum()), t, 'restricted operator')
    if case['then'] and not case['multi_in']:
        # a second restriction, and the kernel of the restricted projection
        mask2 = gen.rng(case['seed'] + 1).integers(0, 2, int(mask.sum())).astype(bool)
        if mask2.any():
            new2 = new.restrict(mask2)
            D2, A2 = (
                _.reshape(M.shape[0], -1, n)[:, mask2].reshape(M.shape[0], -1)
                for _ in (D, A)
            )
            check_dense(new2, D2, A2, case, c['nout'], int(mask2.sum()), t, 'twice restricted')
            hit = coverage(case)[2][mask]
            if case['extra'] is None:
                kernel = new.canonical_basis_in_kernel()
                require(np.array_equal(kernel, ~hit), 'kernel of the restriction')


@sub(restrict_cases, quick=400, thorough=8000, nontrivial=nontrivial)
def corestriction(case):
    """Corestricting to a subset of output components keeps exactly their rows."""
    from harness.core import discard

    c = case['m']
    discard(c['kind'] == 'block' or case['multi_in'])
    mask = np.array(case['out'])
    discard(not mask.any())
    m, n = c['bs']
    op = make(case)
    before = np.array(op.matrix.data).tobytes()
    matrix = op.matrix
    M = sparse.dense(c)
    D, A = (
        _.reshape(c['nout'], m, M.shape[1])[mask].reshape(m * mask.sum(), M.shape[1])
        for _ in (M, sparse.dense(c, absolute=True))
    )
    mask_ = mask.reshape(2, -1) if case['multi_out'] else mask
    new = op.corestrict(mask_, inplace=case['inplace'])
    require(np.array(matrix.data).tobytes() == before, 'the operator has been modified')
    t = sparse.tol(c, float)
    check_dense(new, D, A, case, int(mask.sum()), c['nin'], t, 'corestricted operator')

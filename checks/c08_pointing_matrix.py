"""C08: pointing matrices and their in-memory and on-the-fly projections."""

import operator

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

PROPERTY = dict(
    title='Pointing matrices project, back project, mask and pack exactly',
    statement=(
        'For any pointing matrix whose unset elements (index -1) come last in each sample, '
        'the in-memory and on-the-fly projections compute timeline = sum(value * map[index]) '
        'and its exact adjoint (samples without element project on zero), also once composed '
        'as P.T * P or with a diagonal, masked, restricted to samples, or with units. '
        'Coverage, P.T P, observation mask, validity and pixel intersection queries agree '
        'with the elements, and packing by a mask keeps exactly the unmasked pixels, '
        'renumbered in order. On-the-fly operators give the in-memory results in whatever '
        'order the operators of a group are used.'
    ),
    over=['inputs', 'configurations', 'histories'],
    text='every pointing matrix, map and timeline shape, memory layout, mask, and order of use',
    why=(
        'Only the construction, mask and packing of one 2x4 matrix are tested; the '
        'projections themselves are not.'
    ),
    files=[
        'src/pysimulators/operators.py',
        'src/flib/module_pointingmatrix.f90',
        'src/flib/pointingmatrix_old.f90',
    ],
    mechanism=[
        ('PointingMatrix.pack, get_mask, isvalid', 'src/pysimulators/operators.py'),
        ('ProjectionBaseOperator, ProjectionOnFlyOperator.matrix', 'src/pysimulators/operators.py'),
        ('pmatrix_direct, pmatrix_transpose, pmatrix_pack', 'src/flib/module_pointingmatrix.f90'),
    ],
)
RULE = (
    'A case is a pointing matrix (samples x elements per sample), with unset elements last, '
    'and inputs; it is non-trivial when at least one set element has a non-zero value.'
)


@st.composite
def matrices(draw, ndim=None):
    shape_input = draw(st.sampled_from([(5,), (2, 3), (3, 2), (1, 4), (7,), (2, 3, 2), (2, 1, 3)]))
    ndim = ndim or draw(st.sampled_from([1, 2, 2]))
    shape = tuple(draw(st.lists(st.integers(1, 4), min_size=ndim, max_size=ndim)))
    nmax = draw(st.sampled_from([1, 1, 2, 3] * 3 + [0]))
    large = draw(gen.rarely())
    if large:
        shape_input = draw(st.sampled_from([(300,), (40, 7), (2, 70), (3, 7, 11)]))
        shape = draw(st.sampled_from([(70,), (129,)] if ndim == 1 else [(70, 2), (3, 50), (2, 130)]))
    npix = int(np.prod(shape_input))
    nsamples = int(np.prod(shape))
    index = np.full((nsamples, nmax), -1)
    if large:
        r = gen.rng(draw(gen.seeds()))
        rows = [r.integers(0, npix, r.integers(0, nmax + 1)) for _ in range(nsamples)]
    else:
        rows = draw(
            st.lists(
                st.lists(st.integers(0, npix - 1), max_size=nmax),
                min_size=nsamples,
                max_size=nsamples,
            )
        )
    for row, i in zip(index, rows):
        row[: len(i)] = i
    value = gen.rng(draw(gen.seeds())).uniform(-1, 1, (nsamples, nmax))
    if draw(st.booleans()):
        value = gen.quarter(draw, (nsamples, nmax))
    value = value.astype(np.float32)
    value[index < 0] = 0
    return {
        'shape_input': shape_input,
        'shape': shape,
        'nmax': nmax,
        'index': index,
        'value': value,
    }


def build(m, strided=False):
    from pysimulators import PointingMatrix

    if strided:
        # one sample out of two of a larger matrix
        shape = m['shape'][:-1] + (2 * m['shape'][-1], m['nmax'])
        pm = PointingMatrix.ones(shape, m['shape_input'], verbose=False)[..., ::2, :]
    else:
        pm = PointingMatrix.zeros(m['shape'] + (m['nmax'],), m['shape_input'], verbose=False)
    pm['index'] = m['index'].reshape(pm.shape)
    pm['value'] = m['value'].reshape(pm.shape)
    return pm


def dense(m, absolute=False):
    npix = int(np.prod(m['shape_input']))
    M = np.zeros((m['index'].shape[0], npix), np.longdouble)
    for i, (row, val) in enumerate(zip(m['index'], m['value'])):
        for j, v in zip(row, val):
            if j >= 0:
                M[i, j] += abs(v) if absolute else v
    return M


def nontrivial(case):
    m = case['m']
    return bool(np.any(m['value'][m['index'] >= 0] != 0))


def same(actual, e, bound, what):
    actual = np.asarray(actual)
    require(actual.shape == e.shape, f'{what}: shape {actual.shape} instead of {e.shape}')
    require(
        np.all(abs(actual - e) <= 1e-13 * bound),
        lambda: f'{what}: {actual.tolist()} instead of {np.asarray(e, float).tolist()}',
    )


def strided(x, how):
    if how == 'c':
        return x.copy()
    if how == 'f':
        return x.copy(order='F')
    y = np.repeat(x, 2, axis=-1)[..., ::2]
    return y


@st.composite
def product_cases(draw):
    m = draw(matrices())
    r = gen.rng(draw(gen.seeds()))
    return {
        'm': m,
        'x': r.uniform(-1, 1, m['shape_input']),
        'y': r.uniform(-1, 1, m['shape']),
        'd': r.uniform(-1, 1, m['shape']),
        'layout': draw(st.sampled_from(['c', 'c', 'f', 's'])),
        'mode': draw(st.sampled_from(['alloc', 'out', 'strided'])),
    }


@sub(product_cases, quick=1000, thorough=20000, nontrivial=nontrivial)
def products(case):
    """Direct, transpose, P.T P and D P against the dense matrix."""
    from pyoperators import DiagonalOperator
    from pysimulators import ProjectionInMemoryOperator

    m = case['m']
    M = dense(m)
    pm = build(m)
    before = np.asarray(pm).tobytes()
    op = ProjectionInMemoryOperator(pm)
    require(op.shapein == m['shape_input'] and op.shapeout == m['shape'], 'shapes')
    X, Y = (case[_].ravel().astype(np.longdouble) for _ in 'xy')
    D = case['d'].ravel().astype(np.longdouble)[:, None]
    aM = dense(m, True)
    variants = [
        (op, 'x', M, aM, 'direct'),
        (op.T, 'y', M.T, aM.T, 'transpose'),
        # the products of elements are computed in the precision of the values
        (op.T * op, 'x', M.T @ M, 1e7 * aM.T @ aM, 'P.T * P'),
        (DiagonalOperator(case['d']) * op, 'x', D * M, 1e7 * abs(D) * aM, 'D * P'),
        ((DiagonalOperator(case['d']) * op).T, 'y', (D * M).T, 1e7 * (abs(D) * aM).T,
         '(D * P).T'),
        (op.T * DiagonalOperator(case['d']) * op, 'x', M.T @ (D * M),
         1e7 * aM.T @ (abs(D) * aM), 'P.T * D * P'),
    ]
    for f, name, A, B, what in variants:
        v = case[name]
        V = v.ravel().astype(np.longdouble)
        shape = m['shape'] if A.shape[0] == M.shape[0] and f.shapeout == m['shape'] else (
            m['shape_input'])
        x = strided(v, case['layout'])
        if case['mode'] == 'alloc':
            actual = f(x)
        else:
            out = np.full(shape, 7.0)
            if case['mode'] == 'strided':
                out = strided(out, 's')
            actual = f(x, out)
            require(np.array_equal(out, actual), f'{what}: the output is not filled')
        bound = B @ abs(V) + 1e-30
        same(actual, (A @ V).reshape(shape), bound.reshape(shape), what)
    out = np.full(m['shape_input'], 3.0)
    op.transpose(case['y'].copy(), out, operation=operator.iadd)
    same(out, (M.T @ Y).reshape(out.shape) + 3, np.full(out.shape, 100.0), 'accumulated')
    require(np.asarray(pm).tobytes() == before, 'the pointing matrix has been modified')


@st.composite
def query_cases(draw):
    m = draw(matrices(ndim=2))
    r = gen.rng(draw(gen.seeds()))
    return {
        'm': m,
        'y': r.uniform(-1, 1, m['shape']),
        'mask': r.integers(0, 2, m['shape']).astype(bool),
        'how': draw(st.sampled_from(['none', 'arg', 'tod'])),
        'out': r.integers(0, 2, m['shape_input']).astype(bool),
        'given': draw(st.booleans()),
        'bad': draw(st.sampled_from([None, None, -2, int(np.prod(m['shape_input'])), -7])),
        'where': draw(st.integers(0, max(m['index'].size - 1, 0))),
        'outs': draw(st.sampled_from([None, 'c', 'f', 's'])),
        'noncontiguous': draw(st.booleans()),
    }


@sub(query_cases, quick=800, thorough=15000, nontrivial=nontrivial)
def queries(case):
    """Coverage, P.T P, masks, validity and intersections against the elements."""
    from pysimulators import ProjectionInMemoryOperator, Tod

    m = case['m']
    M = dense(m)
    pm = build(m, case['noncontiguous'])
    op = ProjectionInMemoryOperator(pm)
    si = m['shape_input']
    P = M.T @ M
    aM = dense(m, True)
    aP = aM.T @ aM
    # the products are computed in the single precision of the values
    same(op.get_pTp(), P, 1e7 * aP + 1e-30, 'pTp')
    out = np.zeros(P.shape)
    try:
        op.get_pTp(out=out[1:] if out.shape[0] > 1 else np.zeros((2, 2)))
        require(False, 'get_pTp accepts an output that has not the right shape')
    except ValueError:
        pass
    op.get_pTp(out=out)
    same(out, P, 1e7 * aP + 1e-30, 'pTp with the output given')
    # back projection and coverage
    keep = np.ones(M.shape[0], bool)
    y = case['y'].copy()
    keywords = {}
    if case['outs'] is not None:
        keywords['out'] = tuple(strided(np.zeros(si), case['outs']) for _ in range(2))
    if case['how'] == 'arg':
        pTx, pT1 = op.get_pTx_pT1(y, mask=case['mask'], **keywords)
        keep = ~case['mask'].ravel()
    elif case['how'] == 'tod':
        pTx, pT1 = op.get_pTx_pT1(Tod(y, mask=case['mask']), **keywords)
        keep = ~case['mask'].ravel()
    else:
        pTx, pT1 = op.get_pTx_pT1(y, **keywords)
    if keywords:
        pTx, pT1 = keywords['out']
    K = M[keep]
    Y = y.ravel()[keep]
    bound = (aM[keep].sum(axis=0) + aM.max(initial=0) * 10 + 1e-30).reshape(si)
    same(pTx, (K.T @ Y).reshape(si), bound, 'pTx')
    same(pT1, K.sum(axis=0).reshape(si), bound, 'pT1')
    # observation mask
    seen = np.zeros(int(np.prod(si)), bool)
    seen[m['index'][(m['index'] >= 0) & (m['value'] != 0)]] = True
    seen = seen.reshape(si)
    if case['given']:
        out = case['out'].copy()
        pm.get_mask(out=out)
        require(np.array_equal(out, case['out'] & ~seen), 'mask updated in place')
    else:
        require(np.array_equal(op.get_mask(), ~seen), f'mask {op.get_mask().tolist()}')
    # validity
    require(pm.isvalid() is True, 'a valid pointing matrix is rejected')
    if case['bad'] is not None and m['nmax'] > 0:
        wrong = pm.copy()
        wrong.reshape(-1)['index'][case['where']] = case['bad']
        require(wrong.isvalid() is False, f'index {case["bad"]} is accepted')
    # intersections, in FITS coordinates (x, y)
    index = m['index'].reshape(m['shape'] + (-1,))
    # without elements, the query is refused
    for i in range(int(np.prod(si)) if m['nmax'] > 0 else 0):
        coords = tuple(c + 1 for c in np.unravel_index(i, si)[::-1])
        e = index == i
        require(op.intersects(coords) == e.any(), f'intersects{coords}')
        for axis, other in ((0, (0, 2)), (1, (1, 2)), (-2, (1, 2)), (-3, (0, 2))):
            actual = op.intersects(coords, axis=axis)
            require(
                np.array_equal(actual, e.any(axis=other)),
                lambda: f'intersects{coords} axis={axis}: {actual}',
            )
    # masked samples
    op.apply_mask(case['mask'])
    M2 = M.copy()
    M2[case['mask'].ravel()] = 0
    x = np.arange(1.0, M.shape[1] + 1)
    same(
        op(x.reshape(si)), (M2 @ x).reshape(m['shape']),
        (aM @ x + 1e-30).reshape(m['shape']), 'after apply_mask',
    )


@st.composite
def pack_cases(draw):
    m = draw(matrices())
    r = gen.rng(draw(gen.seeds()))
    return {'m': m, 'mask': r.integers(0, 2, m['shape_input']).astype(bool),
            'own': draw(st.booleans()), 'noncontiguous': draw(st.booleans())}


@sub(pack_cases, quick=800, thorough=15000, nontrivial=nontrivial)
def pack(case):
    """The packed matrix is the one restricted to the unmasked pixels."""
    from harness.core import discard
    from pysimulators import ProjectionInMemoryOperator

    m = case['m']
    M = dense(m)
    pm = build(m, case['noncontiguous'])
    mask = pm.get_mask() if case['own'] else case['mask']
    discard(mask.all())
    pm.pack(mask)
    K, aK = M[:, ~mask.ravel()], dense(m, True)[:, ~mask.ravel()]
    npix = int((~mask).sum())
    require(tuple(np.atleast_1d(pm.shape_input)) == (npix,), f'shape {pm.shape_input}')
    require(pm.isvalid(), 'the packed matrix is not valid')
    idx = np.asarray(pm['index']).reshape(m['index'].shape)
    unset = idx < 0
    require(np.all(unset[:, 1:] >= unset[:, :-1]), 'unset elements are not the last ones')
    op = ProjectionInMemoryOperator(pm)
    x = np.arange(1.0, npix + 1)
    same(op(x), (K @ x).reshape(m['shape']), (aK @ x + 1e-30).reshape(m['shape']), 'packed')
    y = np.arange(1.0, M.shape[0] + 1)
    same(op.T(y.reshape(m['shape'])), K.T @ y, aK.T @ y + 1e-30, 'packed transpose')


@st.composite
def fly_cases(draw):
    m = draw(matrices())
    n = draw(st.integers(1, 3))
    r = gen.rng(draw(gen.seeds()))
    values = [m['value'] * r.uniform(0.5, 2) for _ in range(n)]
    perms = [r.permutation(m['index'].shape[0]) for _ in range(n)]
    uses = draw(
        st.lists(
            st.tuples(
                st.integers(0, n - 1),
                st.sampled_from(['direct', 'T', 'again', 'failure']),
            ),
            min_size=1,
            max_size=8,
        )
    )
    return {'m': m, 'values': values, 'perms': perms, 'uses': uses,
            'x': r.uniform(-1, 1, m['shape_input']), 'y': r.uniform(-1, 1, m['shape'])}


@sub(fly_cases, quick=400, thorough=8000, nontrivial=nontrivial)
def on_the_fly(case):
    """Whatever the order of use, and failures, each operator of the group has its matrix."""
    from pysimulators import ProjectionOnFlyOperator

    m = case['m']
    ms = [
        dict(m, index=m['index'][p], value=v.astype(np.float32)[p])
        for v, p in zip(case['values'], case['perms'])
    ]
    holder, calls, failing = {}, [], []

    def func(i):
        calls.append(i)
        if failing:
            raise MemoryError
        return build(ms[int(i[1:])])

    ids = [f'p{i}' for i in range(len(ms))]
    ops = [
        ProjectionOnFlyOperator(
            holder, i, func, shapein=m['shape_input'], shapeout=m['shape']
        )
        for i in ids
    ]
    last = None
    for i, how in case['uses']:
        n = len(calls)
        M = dense(ms[i])
        if how == 'failure':
            # the computation of the matrix fails: the next use computes it again
            failing.append(1)
            try:
                ops[i](case['x'])
            except MemoryError:
                require(i != last, f'the matrix of {i} is computed again')
                last = None
            failing.clear()
            continue
        if how == 'T':
            e, b = M.T @ case['y'].ravel(), dense(ms[i], True).T @ abs(case['y'].ravel())
            actual = ops[i].T(case['y'])
        else:
            e, b = M @ case['x'].ravel(), dense(ms[i], True) @ abs(case['x'].ravel())
            actual = ops[i](case['x'])
        same(np.ravel(actual), e, b + 1e-30, f'operator {i} {how}')
        require(
            calls[n:] == ([] if i == last else [ids[i]]),
            f'the pointing matrices {calls[n:]} are computed to use {i} after {last}',
        )
        last = i


@st.composite
def unit_cases(draw):
    units = draw(
        st.sampled_from(
            [
                (('Jy/detector', 'Jy/pixel'), 'Jy/pixel', 'Jy/detector'),
                (('Jy/detector', 'Jy/pixel'), 'mJy/pixel', 'mJy/detector'),
                (('V', 'K'), 'K', 'V'),
                (('V', 'K'), '', ''),
                (None, 'K', 'K'),
            ]
        )
    )
    return {'m': draw(matrices()), 'units': units,
            'how': draw(st.sampled_from(['direct', 'transpose', 'diagonal', 'normal']))}


@sub(unit_cases, quick=150, thorough=1000, nontrivial=nontrivial)
def units(case):
    """The unit of the operator multiplies that of the map and divides the timeline's."""
    from pyoperators import DiagonalOperator
    from pysimulators import Map, ProjectionInMemoryOperator, Quantity, Tod

    m = case['m']
    units, uin, uout = case['units']
    m_ = Map(np.ones(m['shape_input']), unit=uin)
    derived = {'a': Quantity(2, 'm')}, {'b': Quantity(3, 's')}
    op = ProjectionInMemoryOperator(build(m), units=units, derived_units=derived)
    how = case['how']
    if how == 'direct':
        actual, e, d = op(m_), uout, derived[0]
    elif how == 'transpose':
        actual, e, d = op.T(Tod(np.ones(m['shape']), unit=uout)), uin, derived[1]
    elif how == 'diagonal':
        d = DiagonalOperator(np.ones(m['shape']))
        actual, e, d = (d * op)(m_), uout, derived[0]
    else:
        actual, e, d = (op.T * op)(m_), uin, derived[1]
    require(
        actual._unit == Quantity(1, e)._unit, lambda: f'unit {actual.unit!r} instead of {e!r}'
    )
    require(
        list(actual.derived_units) == list(d),
        lambda: f'derived units {actual.derived_units} instead of {d}',
    )

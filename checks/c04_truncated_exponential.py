"""C04: convolution by a truncated exponential."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

PROPERTY = dict(
    title='Truncated exponential response: recurrence and exact adjoint, any layout',
    statement=(
        'For time constants tau >= 0 (scalar or one per detector, dimensionless), the '
        'truncated exponential operator outputs y[0] = x[0] and y[i] = w y[i-1] + (1-w) x[i] '
        'with w = exp(-1/tau) (the identity for tau = 0) along the last dimension of a '
        '1- or 2-dimensional input, and its transpose is the exact adjoint of that map. The '
        'result is the same in single and double precision (up to rounding), out of place, '
        'in place, for a supplied output and for rows that are not adjacent in memory.'
    ),
    over=['inputs', 'configurations'],
    text='every tau, signal length, precision, memory layout and output mode, direct and transpose',
    why=(
        'The tests use a few lengths in double precision out of place; the compiled code has '
        'one branch per precision, direction and placement, with explicit strides.'
    ),
    files=[
        'src/pysimulators/operators.py',
        'src/flib/operators.f90.j2',
        'src/flib/module_operators.f90.j2',
    ],
    mechanism=[
        ('ConvolutionTruncatedExponentialOperator, _ravel_strided', 'src/pysimulators/operators.py'),
        ('trexp_direct/transpose, in and out of place', 'src/flib/module_operators.f90.j2'),
    ],
)
RULE = (
    'A case is time constants, a signal, types, layout and output mode; it is non-trivial '
    'when a time constant is positive and the signal has at least two samples.'
)

LAYOUTS = ['contiguous', 'rows', 'cols', 'reversed', 'fortran', 'step', 'swapped']


@st.composite
def cases(draw):
    ndim = draw(st.sampled_from([1, 2, 2]))
    nd = draw(st.integers(1, 4)) if ndim == 2 else 1
    nt = draw(st.integers(1, 7))
    scalar = draw(st.booleans())
    tau = draw(
        st.lists(
            st.one_of(
                st.sampled_from([0.0, 0.01, 0.5, 1.0, 3.0]),
                st.floats(0.05, 30, allow_nan=False),
            ),
            min_size=1 if scalar else nd,
            max_size=1 if scalar else nd,
        )
    )
    r = gen.rng(draw(gen.seeds()))
    if draw(gen.rarely()):
        nd = draw(st.sampled_from([3, 70])) if ndim == 2 else 1
        nt = draw(st.sampled_from([40, 130, 300])) if nd < 70 else 9
        tau = r.choice([0, 0.3, 1, 4, 25.0, 140], 1 if scalar else nd)
    x = r.uniform(-1, 1, (nd, nt)) if nd * nt > 30 or draw(st.booleans()) else np.array(
        gen.quarter(draw, (nd, nt)))
    return {
        'tau': np.array(tau),
        'scalar': scalar and draw(st.booleans()),
        'tautype': draw(st.sampled_from(['f8', 'f4', 'f8'])),
        'xtype': draw(st.sampled_from(['f8', 'f4', 'f8', 'f4', 'i8'])),
        'ndim': ndim,
        'x': np.asarray(x, float),
        'layout': draw(st.sampled_from(LAYOUTS)),
        'olayout': draw(st.sampled_from(LAYOUTS)),
        'mode': draw(st.sampled_from(['alloc', 'out', 'inplace'])),
        'transpose': draw(st.booleans()),
    }


def nontrivial(case):
    return bool(np.any(case['tau'] > 0)) and case['x'].shape[-1] > 1


def lay(x, layout):
    """Copy x in an array of same values and of given memory layout, with guard cells."""
    shape = x.shape
    if layout == 'contiguous':
        return x.copy(), None
    if layout == 'fortran':
        return x.copy(order='F'), None
    if layout == 'rows':
        base = np.full((2 * shape[0],) + shape[1:], 77, x.dtype)
        sl = (slice(None, None, 2),) + (slice(None),) * (x.ndim - 1)
    elif layout == 'cols':
        base = np.full(shape[:-1] + (shape[-1] + 3,), 77, x.dtype)
        sl = (Ellipsis, slice(1, shape[-1] + 1))
    elif layout == 'reversed':
        base = np.full(shape, 77, x.dtype)
        sl = (slice(None, None, -1),)
    elif layout == 'swapped':
        base = np.full((shape[0], 3) + shape[1:], 77, x.dtype)
        sl = (slice(None), 1)
    else:
        base = np.full(shape[:-1] + (2 * shape[-1],), 77, x.dtype)
        sl = (Ellipsis, slice(None, None, 2))
    view = base[sl]
    view[...] = x
    guard = np.ones(base.shape, bool)
    guard[sl] = False
    return view, (base, guard)


def matrix(tau, n):
    """The dense response matrix, in extended precision."""
    tau = np.longdouble(tau)
    if tau == 0:
        return np.eye(n, dtype=np.longdouble)
    w = np.exp(-1 / tau)
    v = -np.expm1(-1 / tau)
    i, j = np.indices((n, n))
    m = np.where(i < j, 0, np.where(j == 0, 1, v) * w ** np.maximum(i - j, 0))
    return m.astype(np.longdouble)


def expected(case, tau, x):
    n = x.shape[-1]
    out = np.empty(x.shape, np.longdouble)
    for i in range(x.shape[0]):
        m = matrix(tau[min(i, len(tau) - 1)], n)
        out[i] = (m.T if case['transpose'] else m) @ x[i].astype(np.longdouble)
    return out


def refused(layout, ndim, n):
    """Layouts for which the samples of a row are not adjacent may be refused."""
    if layout in ('contiguous', 'cols'):
        return False
    if layout in ('rows', 'swapped'):
        return ndim == 1
    return True


@sub(cases, quick=1500, thorough=30000, nontrivial=nontrivial)
def response(case):
    """The output is the one of the dense response matrix (or of its transpose)."""
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator as Op

    tau = case['tau'].astype(case['tautype'])
    op = Op(tau[0] if case['scalar'] else tau)
    x = case['x'] if case['ndim'] == 2 else case['x'][0]
    x = (8 * x if case['xtype'] == 'i8' else x).astype(case['xtype'])
    dtype = np.result_type(op.dtype, x.dtype)
    e = expected(case, tau, x.reshape(case['x'].shape)).reshape(x.shape)
    xin, guard = lay(x, case['layout'])
    oguard = None
    strict = not refused(case['layout'], x.ndim, x.shape[-1])
    if case['mode'] == 'inplace' and x.dtype == dtype:
        out = xin
        oguard = guard
    elif case['mode'] == 'out':
        out, oguard = lay(np.zeros(x.shape, dtype), case['olayout'])
        strict = strict and not refused(case['olayout'], x.ndim, x.shape[-1])
    else:
        out = None
    f = op.T if case['transpose'] else op
    if case['transpose'] and tau.max() > 0 and out is xin:
        # the transposed operator works on a copy: call the method itself
        def f(x, out):
            op.transpose(x, out)
            return out

    try:
        actual = f(xin) if out is None else f(xin, out)
    except (ValueError, NotImplementedError):
        if strict:
            raise
        return
    require(actual.dtype == dtype, f'type of the output: {actual.dtype}')
    eps = max(np.finfo(d).eps for d in (dtype, tau.dtype))
    # the rounding of w = exp(-1/tau) is amplified by 1/(1-w) ~ tau
    tol = 10 * eps * (x.shape[-1] + 2) * (1 + tau.max()) ** 2 * max(1, abs(x).max())
    err = abs(actual - e)
    require(
        np.all(err <= tol),
        lambda: f'{actual.tolist()} instead of {e.astype(float).tolist()}',
    )
    if out is not None:
        require(np.shares_memory(actual, out), 'the output is not returned')
        require(np.array_equal(actual, out), 'the output is not filled')
    if out is not xin:
        require(np.array_equal(xin, x), 'the input has been modified')
    for g in (guard, oguard):
        if g is not None:
            require(np.all(g[0][g[1]] == 77), 'memory next to the array is modified')


@st.composite
def block_cases(draw):
    case = draw(cases())
    case['x'] = case['x'] if case['x'].shape[1] > 1 else np.repeat(case['x'], 2, axis=1)
    case['cut'] = draw(st.integers(1, case['x'].shape[1] - 1))
    case['tau2'] = draw(st.floats(0.1, 10))
    return case


@sub(block_cases, quick=400, thorough=8000, nontrivial=nontrivial)
def by_blocks(case):
    """Applied chunk by chunk along time, each chunk has its own response."""
    from pyoperators import BlockDiagonalOperator
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator as Op

    x = case['x'].astype('f4' if case['xtype'] == 'f4' else 'f8')
    dtype = x.dtype
    tau = case['tau'].astype(dtype)
    tau2 = np.array([case['tau2']], dtype)
    n, k = x.shape[-1], case['cut']
    op = BlockDiagonalOperator(
        [Op(tau), Op(tau2)], partitionin=[k, n - k], axisin=-1
    )
    e = np.concatenate(
        [expected(case, tau, x[:, :k]), expected(case, tau2, x[:, k:])], axis=-1
    )
    f = op.T if case['transpose'] else op
    actual = f(x)
    tol = 10 * np.finfo(dtype).eps * (n + 2) * (1 + max(tau.max(), tau2[0])) ** 2
    require(
        np.all(abs(actual - e) <= tol * max(1, abs(x).max())),
        lambda: f'{actual.tolist()} instead of {e.astype(float).tolist()}',
    )


@st.composite
def unit_cases(draw):
    return {
        'tau': draw(st.floats(0.5, 20)),
        'step': draw(st.floats(0.5, 20)),
        'unit': draw(st.sampled_from(['s', 'ms', 'us'])),
        'ustep': draw(st.sampled_from(['s', 'ms', 'us', 'm', None])),
        'x': gen.rng(draw(gen.seeds())).uniform(-1, 1, 5),
    }


@sub(unit_cases, quick=100, thorough=1000, nontrivial=lambda c: c['ustep'] is not None)
def units(case):
    """A dimensionless quantity is converted, another dimension is refused."""
    from pysimulators import Quantity
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator as Op

    q = Quantity(case['tau'], case['unit'])
    if case['ustep'] is not None:
        q = q / Quantity(case['step'], case['ustep'])
    if case['ustep'] in (None, 'm'):
        try:
            Op(q)
        except ValueError:
            return
        require(False, f'a time constant in {q.unit!r} is accepted')
    factor = {'s': 1, 'ms': 1e-3, 'us': 1e-6}
    tau = case['tau'] * factor[case['unit']] / (case['step'] * factor[case['ustep']])
    e = Op(tau)(case['x'])
    actual = Op(q)(case['x'])
    require(
        np.allclose(actual, e, rtol=1e-12, atol=1e-12),
        lambda: f'{actual.tolist()} instead of {e.tolist()}',
    )


@st.composite
def mismatched(draw):
    shape = draw(st.sampled_from([(3,), (1, 3), (2, 3), (3, 1), (3, 4), (4, 2)]))
    n = draw(st.sampled_from([2, 3, 4, 6, 8]).filter(lambda n: n != int(np.prod(shape[:-1]))))
    return {
        'tau': gen.rng(draw(gen.seeds())).uniform(0.1, 3, n),
        'shape': shape,
        'transpose': draw(st.booleans()),
        'out': draw(st.booleans()),
        'xtype': draw(st.sampled_from(['f4', 'f8'])),
    }


@sub(mismatched, quick=100, thorough=1000, nontrivial=lambda c: len(c['shape']) == 2)
def numbers(case):
    """Time constants that are neither one nor one for each line are refused."""
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator as Op

    op = Op(case['tau'].astype(case['xtype']))
    op = op.T if case['transpose'] else op
    x = np.ones(case['shape'], case['xtype'])
    out = np.full(case['shape'], 7, case['xtype'])
    try:
        actual = op(x, out) if case['out'] else op(x)
    except ValueError:
        require(np.all(out == 7), 'the output of a refused call is modified')
        return
    require(
        False,
        f"{len(case['tau'])} time constants are accepted for an array of shape "
        f"{case['shape']}: {actual.tolist()}",
    )

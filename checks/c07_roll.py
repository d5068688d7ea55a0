"""C07: roll operator."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

PROPERTY = dict(
    title='The roll operator is a cyclic shift along its axes and its own adjoint inverse',
    statement=(
        'RollOperator(n, axis) moves the element at position i along each given axis to '
        'position (i + n) modulo the length of that axis, for any sign and magnitude of n, '
        'one or several axes (the last ones by default), any dtype, in place or not. Its '
        'transpose and inverse shift back exactly.'
    ),
    over=['inputs', 'configurations'],
    text='every array shape and type, shifts, axes and output mode',
    why='The tests use a few shapes and small shifts of one array, never in place.',
    files=['src/pysimulators/operators.py'],
    mechanism=[('RollOperator.direct, transpose', 'src/pysimulators/operators.py')],
)
RULE = (
    'A case is an array, shifts and axes; it is non-trivial when the shift moves at least '
    'one element.'
)


@st.composite
def cases(draw):
    shape = tuple(draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)))
    if draw(gen.rarely()):
        shape = (*shape[:-1], draw(st.sampled_from([40, 129, 300])))
        shape = tuple(draw(st.permutations(shape)))
    ndim = len(shape)
    naxes = draw(st.integers(1, ndim))
    given_axes = draw(st.booleans())
    scalar_n = draw(st.booleans())
    n = draw(st.lists(st.one_of(st.integers(-12, 12), st.integers(-999, 999)), min_size=naxes, max_size=naxes))
    axes = draw(st.permutations(range(ndim)))[:naxes]
    axes = [a - ndim if draw(st.booleans()) else a for a in axes]
    dtype = draw(st.sampled_from(['f8', 'f4', 'c16', 'i8', 'f8']))
    if scalar_n:
        n = n[0]
        if not given_axes:
            naxes, axes = 1, [-1]
        elif naxes == 1 and draw(st.booleans()):
            axes = axes[0]
    elif not given_axes:
        axes = list(range(-naxes, 0))
    return {
        'shape': shape,
        'n': n,
        'axis': axes,
        'given': given_axes,
        'dtype': dtype,
        'mode': draw(st.sampled_from(['alloc', 'out', 'inplace'])),
        'explicit': draw(st.booleans()),
    }


def pairs(case):
    axes = case['axis'] if isinstance(case['axis'], list) else [case['axis']]
    n = case['n'] if isinstance(case['n'], list) else [case['n']] * len(axes)
    return [(int(a), int(b)) for a, b in zip(axes, n)]


def nontrivial(case):
    return any(n % case['shape'][a] for a, n in pairs(case))


def shift(x, ps):
    """Index arithmetic rather than np.roll."""
    for axis, n in ps:
        size = x.shape[axis]
        x = np.take(x, [(i - n) % size for i in range(size)], axis=axis)
    return x


@sub(cases, quick=800, thorough=15000, nontrivial=nontrivial)
def roll(case):
    """Forward, transposed, inverse and composed rolls are exact permutations."""
    from pysimulators.operators import RollOperator

    keywords = {'axis': case['axis']} if case['given'] else {}
    if case['explicit']:
        keywords['shapein'] = case['shape']
    op = RollOperator(case['n'], **keywords)
    ps = pairs(case)
    x = np.arange(1, np.prod(case['shape']) + 1).reshape(case['shape']).astype(case['dtype'])
    if case['dtype'][0] == 'c':
        x = x * (1 + 2j)
    back = [(a, -n) for a, n in ps]
    for f, p, what in (
        (op, ps, 'roll'),
        (op.T, back, 'transpose'),
        (op.I, back, 'inverse'),
        (op.T * op, [], 'T * op'),
        (lambda a, *out: op(op(a), *out), ps + ps, 'twice'),
    ):
        e = shift(x, p)
        a = x.copy()
        if case['mode'] == 'alloc':
            actual = f(a)
        elif case['mode'] == 'out' or a.dtype.kind == 'i':
            actual = f(a, np.zeros(a.shape, np.asarray(f(a)).dtype))
        else:
            f(a, a)
            actual = a
        require(
            np.array_equal(actual, e),
            lambda: f'{what}: {np.asarray(actual).tolist()} instead of {e.tolist()}',
        )

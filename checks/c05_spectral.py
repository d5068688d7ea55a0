"""C05: black body and power law operators."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

PROPERTY = dict(
    title='Black body and power law operators follow their closed formulas',
    statement=(
        'The black body operator multiplies a spectrum known at a reference frequency by the '
        'ratio of Planck laws (h nu^3/(exp(h nu/kT)-1), times nu^beta) between the operating '
        'and the reference frequencies, however these are given (frequency or wavelength), so '
        'that extrapolations compose and invert; missing or ambiguous frequencies are '
        'refused. The power law operator multiplies by scalar * (x/x0)^alpha, also when it '
        'is scaled by a constant, composed, transposed or split by blocks.'
    ),
    over=['inputs', 'configurations'],
    text='every temperature map, frequency pair, emissivity slope, slope map, scale and block partition',
    why=(
        'The tests compare one temperature and a few wavelengths; the constants, exponents '
        'and simplification rules matter for any values and shapes.'
    ),
    files=['src/pysimulators/operators.py'],
    mechanism=[
        ('BlackBodyOperator', 'src/pysimulators/operators.py'),
        ('PowerLawOperator', 'src/pysimulators/operators.py'),
    ],
)
RULE = (
    'A case is parameters of a spectral operator and an input; it is non-trivial when the '
    'operating and reference abscissae differ.'
)

C, H, K = 299792458.0, 6.62607015e-34, 1.380649e-23


def factor(T, nu, nu0, beta):
    T, nu, nu0 = (np.asarray(_, np.longdouble) for _ in (T, nu, nu0))
    H_, K_ = np.longdouble(H), np.longdouble(K)
    return (
        (nu / nu0) ** (3 + np.longdouble(beta))
        * np.expm1(H_ * nu0 / (K_ * T))
        / np.expm1(H_ * nu / (K_ * T))
    )


@st.composite
def bb_cases(draw):
    shape = draw(st.sampled_from([(), (1,), (4,), (2, 3)] * 4 + [(300,), (70, 5)]))
    r = gen.rng(draw(gen.seeds()))
    T = 10 ** r.uniform(0.3, 3.5, shape)
    lognu = draw(st.lists(st.floats(9.5, 12.5), min_size=3, max_size=3))
    return {
        'T': T if shape else float(T),
        'nu': [float(10**_) for _ in lognu],
        'wave': draw(st.lists(st.booleans(), min_size=3, max_size=3)),
        'beta': draw(
            st.one_of(
                st.sampled_from([0, 0, 1, 1.5, 2, -0.7]),
                st.sampled_from([(1,), shape[-1:], shape] if shape else [(3,)]).map(
                    lambda s: r.integers(-4, 9, s) / 4
                ),
            )
        ),
        'x': r.uniform(-2, 2, shape or (3,)),
    }


def bb(T, nu, wave, nu0, wave0, **keywords):
    from pysimulators.operators import BlackBodyOperator

    if wave:
        keywords['wavelength'] = C / nu
    else:
        keywords['frequency'] = nu
    if wave0:
        keywords['wavelength0'] = C / nu0
    else:
        keywords['frequency0'] = nu0
    return BlackBodyOperator(T, **keywords)


def near(actual, e, tol, what):
    actual = np.asarray(actual)
    require(actual.shape == np.shape(e), f'{what}: shape {actual.shape}')
    require(
        np.all(abs(actual - e) <= tol * abs(e)),
        lambda: f'{what}: {actual.tolist()} instead of {np.asarray(e, float).tolist()}',
    )


def nontrivial_bb(case):
    return case['nu'][0] != case['nu'][1]


@sub(bb_cases, quick=500, thorough=10000, nontrivial=nontrivial_bb)
def black_body(case):
    """The diagonal is the ratio of the modified Planck laws; extrapolations compose."""
    T, nu, wave, beta, x = (case[_] for _ in ('T', 'nu', 'wave', 'beta', 'x'))
    op = bb(T, nu[1], wave[1], nu[0], wave[0], beta=beta)
    # relative error on the exponent times the exponent
    tol = 1e-14 * (10 + np.max(H * max(nu) / (K * np.asarray(T))))
    near(op(x), factor(T, nu[1], nu[0], beta) * x, tol, 'black body')
    near(op.T(x), factor(T, nu[1], nu[0], beta) * x, tol, 'transpose')
    if np.max(H * max(nu) / (K * np.asarray(T))) > 500:
        return
    op12 = bb(T, nu[2], wave[2], nu[1], wave[1], beta=beta)
    near(op12(op(x)), factor(T, nu[2], nu[0], beta) * x, 3 * tol, 'chained')
    near(op.I(op(x)), x, 3 * tol, 'inverse')


@st.composite
def refuse_cases(draw):
    return {
        k: draw(st.booleans())
        for k in ('frequency', 'wavelength', 'frequency0', 'wavelength0')
    }


@sub(refuse_cases, quick=60, thorough=60, nontrivial=lambda c: sum(c.values()) != 2)
def arguments(case):
    """Exactly one operating and one reference abscissa must be given."""
    from pysimulators.operators import BlackBodyOperator

    values = {'frequency': 1e12, 'frequency0': 2e12, 'wavelength': 3e-4, 'wavelength0': 2e-4}
    keywords = {k: values[k] for k, v in case.items() if v}
    valid = case['frequency'] != case['wavelength'] and (
        case['frequency0'] != case['wavelength0']
    )
    try:
        BlackBodyOperator(20.0, **keywords)
    except ValueError:
        require(not valid, f'{sorted(keywords)} is refused')
    else:
        require(valid, f'{sorted(keywords)} is accepted')


@st.composite
def power_cases(draw):
    shape = draw(st.sampled_from([(), (3,), (4,), (2, 3)] * 4 + [(300,), (70, 5)]))
    r = gen.rng(draw(gen.seeds()))
    alpha = r.uniform(-3, 3, shape)
    if draw(st.booleans()):
        alpha = np.round(alpha)
    a, b = (draw(st.floats(-2, 2)) for _ in range(2))
    n = (shape or (4,))[0]
    return {
        'alpha': alpha if shape else float(alpha),
        'x': float(10**a),
        'x0': float(10**b),
        'scalar': draw(st.sampled_from([None, 1, 2.5, -0.5])),
        'k': draw(st.sampled_from([2.0, -3.0, 0.25])),
        'op': draw(st.sampled_from(['plain', 'left', 'right', 'T', 'block', 'row', 'square'])),
        'cut': draw(st.integers(1, n - 1)),
        'input': r.uniform(-2, 2, shape or (4,)),
    }


@sub(power_cases, quick=800, thorough=15000, nontrivial=lambda c: c['x'] != c['x0'])
def power_law(case):
    """scalar * (x/x0)**alpha * input, also scaled, composed, transposed or by blocks."""
    from pyoperators import BlockDiagonalOperator, BlockRowOperator, HomothetyOperator
    from pysimulators.operators import PowerLawOperator

    keywords = {} if case['scalar'] is None else {'scalar': case['scalar']}
    alpha, v = case['alpha'], case['input']
    op = PowerLawOperator(alpha, case['x'], case['x0'], **keywords)
    d = (case['scalar'] or 1) * (np.longdouble(case['x']) / case['x0']) ** np.asarray(
        alpha, np.longdouble
    )
    d = np.broadcast_to(d, v.shape)
    k, cut, n = case['k'], case['cut'], v.shape[0]
    for bad in (
        (alpha, [case['x']], case['x0'], 1),
        (alpha, case['x'], [case['x0']], 1),
        (alpha, case['x'], case['x0'], [1]),
    ):
        try:
            PowerLawOperator(*bad)
        except TypeError:
            continue
        fail('an array is accepted', arguments=bad)
    require(op.dtype == float, f'the dtype is {op.dtype}')
    single = PowerLawOperator(alpha, case['x'], case['x0'], dtype='f4', **keywords)
    require(single.dtype == np.float32, f'the dtype is {single.dtype} instead of float32')
    require(
        op.shapein == (np.shape(alpha) or None), f'the input shape is {op.shapein}'
    )
    which = case['op']
    if which == 'left':
        op, e = HomothetyOperator(k) * op, k * d * v
    elif which == 'right':
        op, e = op * HomothetyOperator(k), k * d * v
    elif which == 'T':
        op, e = op.T, d * v
    elif which == 'square':
        op, e = op * op, d * d * v
    elif which == 'block':
        b = BlockDiagonalOperator(
            [HomothetyOperator(2.0), HomothetyOperator(3.0)],
            partitionin=[cut, n - cut],
            axisin=0,
        )
        w = np.where(np.arange(n) < cut, 2.0, 3.0).reshape((-1,) + (1,) * (v.ndim - 1))
        op, e = op * b, w * d * v
        near(op(v), e, 1e-12, f'power law {which}')
        op = b * PowerLawOperator(alpha, case['x'], case['x0'], **keywords)
    elif which == 'row':
        b = BlockRowOperator([HomothetyOperator(2.0), HomothetyOperator(3.0)],
                             new_axisin=0)
        op, e = op * b, d * (2 * v + 3 * v[::-1])
        v = np.array([v, v[::-1]])
        near_abs = 1e-12 * np.max(abs(d)) * 10
        require(
            np.all(abs(op(v) - e) <= near_abs), lambda: f'power law of a block row: {op(v)}'
        )
        return
    else:
        e = d * v
    near(op(v), e, 1e-12, f'power law {which}')

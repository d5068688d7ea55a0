"""C28: what any operator guarantees, whatever the memory layout and the way it is used."""

import operator

import numpy as np
from hypothesis import strategies as st

from harness import gen, sparse
from harness.core import discard, require, sub

PROPERTY = dict(
    title='Operators do not depend on how arrays are laid out or operators combined',
    statement=(
        'Every operator of the package returns the same values for any memory layout '
        '(C, Fortran, strided, reversed, broadcast, read-only) of the input, in a given '
        'output of any layout (C-contiguous for the Cartesian conversions, which refuse '
        'the others), in place, or for an input of another real data type, without '
        'modifying its input. Linear operators are linear, their transposes are adjoint, '
        'and the operators flagged as symmetric, orthogonal, idempotent or involutary are '
        'so. Their sums, compositions, blocks, copies, accumulations and dense '
        'representations equal the same computations on the separate results, also after '
        'the simplifications by the rules of the operators.'
    ),
    over=['inputs', 'configurations'],
    text='every operator class, its parameters, the layout of the arrays and the combination',
    why=(
        'The tests apply operators to newly allocated C-contiguous arrays, mostly alone; '
        'a result written to a temporary copy of the output, or lost by a rule of '
        'simplification, requires a specific layout or combination.'
    ),
    files=[
        'src/pysimulators/operators.py',
        'src/pysimulators/sparse.py',
        'src/pysimulators/wcsutils.py',
        'src/pysimulators/interfaces/healpy/operators.py',
        'src/pysimulators/noises.py',
        'src/pysimulators/instruments.py',
    ],
    mechanism=[
        ('direct and transpose methods of the operators', 'src/pysimulators/operators.py'),
        ('SparseOperator', 'src/pysimulators/sparse.py'),
        ('WCSToPixelOperator, WCSToWorldOperator', 'src/pysimulators/wcsutils.py'),
    ],
)
RULE = (
    'A case is an operator with its parameters, an input, the layouts of the arrays and a '
    'way to use it; it is non-trivial when the input has several elements and the layout '
    'is not the C one or operators are combined.'
)


def directions(r, shape):
    v = r.uniform(-1, 1, shape + (3,))
    return v / np.sqrt(np.sum(v**2, axis=-1))[..., None]


def some_shape(r, ndim=None):
    ndim = int(r.integers(1, 4)) if ndim is None else ndim
    return tuple(int(_) for _ in r.integers(1, 4, ndim))


# each function returns the operator and an input for it


def black_body(r):
    from pysimulators.operators import BlackBodyOperator

    shape = some_shape(r)
    T = r.uniform(5, 30, shape) if r.integers(2) else float(r.uniform(5, 30))
    op = BlackBodyOperator(T, wavelength=1e-4, wavelength0=3e-4, beta=1.5)
    return op, r.uniform(-1, 1, shape)


def power_law(r):
    from pysimulators.operators import PowerLawOperator

    shape = some_shape(r)
    alpha = r.uniform(-2, 2, shape) if r.integers(2) else 1.5
    return PowerLawOperator(alpha, 2.0, 3.0, scalar=2), r.uniform(-1, 1, shape)


def truncated_exponential(r):
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator

    shape = some_shape(r, int(r.integers(1, 3)))
    tau = r.uniform(0.1, 3, shape[0]) if len(shape) == 2 and r.integers(2) else 2.0
    return ConvolutionTruncatedExponentialOperator(tau), r.uniform(-1, 1, shape)


def pointing_matrix(r, nmax=None):
    from pysimulators import PointingMatrix

    shape_input = some_shape(r, int(r.integers(1, 3)))
    shape = some_shape(r, int(r.integers(1, 3)))
    nmax = nmax or int(r.integers(1, 3))
    pm = PointingMatrix.zeros(shape + (nmax,), shape_input, verbose=False)
    pm['index'] = r.integers(0, int(np.prod(shape_input)), pm.shape)
    pm['value'] = r.integers(-4, 5, pm.shape) / 4
    return pm


def in_memory(r):
    from pysimulators import ProjectionInMemoryOperator

    pm = pointing_matrix(r)
    return ProjectionInMemoryOperator(pm), r.uniform(-1, 1, pm.shape_input)


def on_fly(r):
    from pysimulators import ProjectionOnFlyOperator

    pm = pointing_matrix(r)
    op = ProjectionOnFlyOperator(
        {}, 'id', lambda i: pm, shapein=pm.shape_input, shapeout=pm.shape[:-1]
    )
    return op, r.uniform(-1, 1, pm.shape_input)


def sparse_case(r, projection):
    kind = ['plain', 'block', 'rot2d', 'rot3d'][r.integers(4)]
    fmt = 'fsr' if projection else ['fsr', 'fsc'][r.integers(2)]
    if kind == 'block':
        bs = tuple(int(_) for _ in r.integers(1, 4, 2))
        bs = (1, 2) if bs == (1, 1) else bs
    else:
        bs = {'plain': (1, 1), 'rot2d': (2, 2), 'rot3d': (3, 3)}[kind]
    nout, nin, nmax = (int(r.integers(1, 5)) for _ in range(3))
    nfix, nvar = (nout, nin) if fmt == 'fsr' else (nin, nout)
    vs = {'block': (1, nfix, nmax) + (bs if fmt == 'fsr' else bs[::-1])}
    n = {'plain': 1, 'rot2d': 2, 'rot3d': 3}.get(kind, 1)
    return {
        'kind': kind, 'fmt': fmt, 'bs': bs, 'nout': nout, 'nin': nin, 'nmax': nmax,
        'itype': ['i4', 'i8', 'i2'][r.integers(3)], 'rtype': 'f8',
        'index': r.integers(-1, nvar, (nfix, nmax)),
        'values': r.uniform(-1, 1, vs.get(kind, (n, nfix, nmax))),
        'lead': False, 'exact': False,
    }


def sparse_operator(r, projection=False):
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import SparseOperator

    c = sparse_case(r, projection)
    if c['kind'] == 'plain':
        extra = [(), (2,), (2, 3), (1,), (2, 1)][r.integers(5)]
        shape = (c['nin'],) + extra
    else:
        shape = (c['nin'],) if c['bs'][1] == 1 else (c['nin'], c['bs'][1])
    mat = sparse.build(c)
    keywords = {}
    if c['kind'] == 'plain' and not shape[1:]:
        keywords['shapein'] = shape
    op = (ProjectionOperator if projection else SparseOperator)(mat, **keywords)
    return op, r.uniform(-1, 1, shape)


def projection_operator(r):
    return sparse_operator(r, projection=True)


def roll(r):
    from pysimulators.operators import RollOperator

    shape = some_shape(r)
    if r.integers(2):
        op = RollOperator(int(r.integers(-4, 5)), axis=int(r.integers(len(shape))))
    else:
        n = int(r.integers(1, len(shape) + 1))
        op = RollOperator(tuple(int(_) for _ in r.integers(-4, 5, n)))
    return op, r.uniform(-1, 1, shape)


def cartesian(r):
    from pysimulators import operators as o

    cls = [o.CartesianEquatorial2GalacticOperator, o.CartesianGalactic2EquatorialOperator]
    shape = some_shape(r, int(r.integers(0, 3)))
    return cls[r.integers(2)](), directions(r, shape)


def times(r, shape):
    from astropy.time import Time

    return Time(2450000 + r.uniform(0, 3000, shape), format='jd')


def cartesian_horizontal(r):
    from pysimulators import operators as o

    cls = [o.CartesianEquatorial2HorizontalOperator, o.CartesianHorizontal2EquatorialOperator]
    shape = some_shape(r, 1) if r.integers(2) else ()
    op = cls[r.integers(2)]('NE', times(r, shape), 43.0, 12.0)
    return op, directions(r, shape)


CONVENTIONS = [
    'zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation',
]


def angles(r, shape, convention, degrees=False):
    z, a = np.arccos(r.uniform(-0.95, 0.95, shape)), r.uniform(0, 2 * np.pi, shape)
    if 'elevation' in convention:
        z = np.pi / 2 - z
    x = np.stack([a, z] if convention.startswith('azimuth') else [z, a], -1)
    return np.degrees(x) if degrees else x


def spherical(r):
    from pysimulators import operators as o

    i = r.integers(4)
    c1, c2 = (CONVENTIONS[2 + r.integers(2)] for _ in range(2))
    deg = bool(r.integers(2))
    kw = {'degrees': deg}
    shape = some_shape(r, int(r.integers(1, 3)))
    if i == 0:
        op = o.SphericalEquatorial2GalacticOperator(c1, c2, **kw)
    elif i == 1:
        op = o.SphericalGalactic2EquatorialOperator(c1, c2, **kw)
    else:
        shape = some_shape(r, 1)
        cls = [
            o.SphericalEquatorial2HorizontalOperator,
            o.SphericalHorizontal2EquatorialOperator,
        ][i - 2]
        op = cls('NE', times(r, shape), 43.0, 12.0, c1, c2, **kw)
    return op, angles(r, shape, c1, deg)


def distortion(r):
    from pysimulators.wcsutils import DistortionOperator

    g = np.stack(np.meshgrid(np.arange(-3, 4.0), np.arange(-3, 4.0)), -1).reshape(-1, 2)
    op = DistortionOperator(g, 2 * g + 0.01 * g**2)
    return op, r.uniform(-2, 2, some_shape(r, int(r.integers(0, 3))) + (2,))


def boresight(r):
    from pysimulators.wcsutils import RotationBoresightEquatorialOperator

    n = int(r.integers(1, 4))
    rec = np.recarray(n, [('ra', float), ('dec', float), ('pa', float)])
    rec.ra, rec.pa = r.uniform(0, 360, (2, n))
    rec.dec = r.uniform(-60, 60, n)
    x = r.uniform(-2, 2, some_shape(r, int(r.integers(0, 3))) + (2,))
    return RotationBoresightEquatorialOperator(rec), x


def header(r):
    from pysimulators import create_fitsheader

    return create_fitsheader(
        (20, 30), cdelt=0.1, crval=(10, 20), crpix=(8.0, 3.0), pa=float(r.uniform(0, 90)),
        ctype=('RA---TAN', 'DEC--TAN'), dtype=float,
    )


def to_pixel(r):
    from pysimulators.wcsutils import WCSToPixelOperator

    x = r.uniform(-0.5, 0.5, some_shape(r, int(r.integers(0, 3))) + (2,)) + [10, 20]
    return WCSToPixelOperator(header(r)), x


def to_world(r):
    from pysimulators.wcsutils import WCSToWorldOperator

    x = r.uniform(0, 20, some_shape(r, int(r.integers(0, 3))) + (2,))
    return WCSToWorldOperator(header(r), origin=1), x


def healpix(r):
    from pysimulators.interfaces import healpy as h

    nside = 2 ** int(r.integers(0, 4))
    nest = bool(r.integers(2))
    shape = some_shape(r, int(r.integers(0, 3)))
    c = CONVENTIONS[r.integers(4)]
    i = r.integers(4)
    if i == 0:
        return (h.Healpix2CartesianOperator(nside, nest=nest),
                r.integers(0, 12 * nside**2, shape).astype(float))
    if i == 1:
        return (h.Healpix2SphericalOperator(nside, c, nest=nest),
                r.integers(0, 12 * nside**2, shape).astype(float))
    if i == 2:
        return h.Cartesian2HealpixOperator(nside, nest=nest), directions(r, shape)
    return h.Spherical2HealpixOperator(nside, c, nest=nest), angles(r, shape, c)


def healpix_convolution(r):
    from pysimulators.interfaces import healpy as h

    shape = [(48,), (48, 1), (48, 3)][r.integers(3)]
    return h.HealpixConvolutionGaussianOperator(fwhm=0.5), r.uniform(-1, 1, shape)


def laplacian(r):
    from pysimulators.interfaces import healpy as h

    nside = 2 ** int(r.integers(0, 2))
    shape = (12 * nside**2,) + [(), (2,)][r.integers(2)]
    return h.HealpixLaplacianOperator(nside), r.uniform(-1, 1, shape)


def invntt(r):
    from pysimulators import Instrument, PackedTable, Sampling

    n, ns = (int(_) for _ in r.integers(1, 5, 2))
    instrument = Instrument('test', PackedTable(n))
    sampling = Sampling(4 * ns, period=0.5)
    kw = {'sigma': r.uniform(1, 2, n)}
    if r.integers(2):
        kw.update(fknee=0.3, ncorr=int(r.integers(0, 3)))
    op = instrument.get_invntt_operator(sampling, **kw)
    return op, r.uniform(-1, 1, (n, 4 * ns))


ZOO = {
    f.__name__: f
    for f in (
        black_body, power_law, truncated_exponential, in_memory, on_fly, sparse_operator,
        projection_operator, roll, cartesian, cartesian_horizontal, spherical, distortion,
        boresight, to_pixel, to_world, healpix, healpix_convolution, laplacian, invntt,
    )
}
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'swapped', 'rows', 'offset', 'record']


def lay_out(a, how):
    """A copy of the array, with another memory layout."""
    a = np.array(a)
    if how == 'F':
        return np.array(a, order='F')
    if how == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), 9, a.dtype)
        v = b[(*(slice(None, None, 2) for _ in a.shape), ...)]
    elif how == 'reversed':
        b = np.full(a.shape, 9, a.dtype)
        v = b[(*(slice(None, None, -1) for _ in a.shape), ...)]
    elif how == 'swapped':
        # not C nor Fortran for three dimensions
        axes = tuple(range(1, a.ndim)) + (0,) if a.ndim else ()
        b = np.full(tuple(a.shape[i] for i in axes), 9, a.dtype)
        v = b.transpose(np.argsort(axes)) if a.ndim else b
    elif how == 'rows':
        # only the last dimension is contiguous
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,) if a.ndim else (), 9, a.dtype)
        v = b[..., 1:-1] if a.ndim else b
    elif how == 'record' and a.ndim:
        # in packed records: the stride is not a multiple of the item size
        b = np.zeros(a.shape[0], [('x', a.dtype, a.shape[1:]), ('y', 'i4')])
        v = b['x']
    elif how == 'offset':
        # not aligned on the SIMD or cache boundaries
        b = np.full(a.size + 3, 9, a.dtype)
        v = b[3:].reshape(a.shape)
    else:
        return a.copy()
    v[...] = a
    return v


def cases_of(names):
    @st.composite
    def cases(draw):
        return {
            'name': draw(st.sampled_from(names)),
            'seed': draw(gen.seeds()),
            'transpose': draw(st.booleans()),
            'in': draw(st.sampled_from(LAYOUTS)),
            'out': draw(st.sampled_from([None] + LAYOUTS)),
        }

    return cases


def make(case):
    """The operator, directly or transposed, an input for it, and the expected output."""
    with np.errstate(all='ignore'):
        r = gen.rng(case['seed'])
        op, x = ZOO[case['name']](r)
        y = np.array(op(np.array(x)))
        if case['transpose'] and op.flags.linear and op.flags.real:
            x = r.uniform(-1, 1, y.shape)
            op = op.T
            y = np.array(op(x.copy()))
    return op, x, y, r


def equal(actual, e, what, rtol=1e-12):
    actual = np.asarray(actual)
    require(actual.shape == e.shape, lambda: f'{what}: shape {actual.shape} not {e.shape}')
    # the order of the sums may differ
    scale = np.max(abs(e), initial=0, where=np.isfinite(e))
    require(
        np.allclose(actual, e, rtol=rtol, atol=rtol * scale, equal_nan=True),
        lambda: f'{what}: {actual.tolist()} instead of {e.tolist()}',
    )


def nontrivial(case):
    return case['in'] != 'C' or case['out'] not in (None, 'C')


@sub(cases_of(sorted(ZOO)), quick=1500, thorough=40000, nontrivial=nontrivial)
def layouts(case):
    """Any layout of the input and output, in place or not."""
    op, x, y, r = make(case)
    what = f'{case["name"]}{".T" if case["transpose"] else ""}'
    v = lay_out(x, case['in'])
    if case['name'].startswith('cartesian') and case['out'] not in (None, 'C', 'offset'):
        # the dense operators of pyoperators refuse these outputs
        discard()
    if case['out'] is None:
        equal(op(v), y, f'{what}, {case["in"]} input')
        require(np.array_equal(v, x), f'{what}: the input has been modified')
    else:
        out = lay_out(np.full(y.shape, 7, y.dtype), case['out'])
        res = op(v, out)
        equal(res, y, f'{what}, {case["in"]} input and {case["out"]} output')
        equal(out, y, f'{what}, output {case["out"]} given')
        require(np.array_equal(v, x), f'{what}: the input has been modified')
    if x.shape == y.shape and x.dtype == y.dtype:
        v = lay_out(x, case['in'])
        op(v, v)
        equal(v, y, f'{what} in place, {case["in"]} array')


@sub(cases_of(sorted(ZOO)), quick=400, thorough=8000)
def shared_inputs(case):
    """Inputs that are not writeable, or repeat the same elements."""
    op, x, y, r = make(case)
    v = lay_out(x, case['in'])
    v.flags.writeable = False
    equal(op(v), y, f'{case["name"]} of a read-only input')
    if x.ndim > 1:
        v = np.broadcast_to(x[:1], x.shape)
        e = op(v.copy())
        equal(op(v), e, f'{case["name"]} of a broadcast input')


@st.composite
def dtype_cases(draw):
    case = draw(cases_of(sorted(ZOO))())
    case['dtype'] = draw(st.sampled_from(['f4', '>f8', '>f4', 'i4', 'i8', 'list']))
    return case


@sub(dtype_cases, quick=500, thorough=10000)
def data_types(case):
    """The input is converted to the data type of the operator."""
    op, x, y, r = make(case)
    if case['dtype'] == 'list':
        equal(op(x.tolist()), y, f'{case["name"]} of a list')
        return
    v = np.round(x * 4) / 4 if case['dtype'][-2:] == 'f4' else x
    if 'i' in case['dtype']:
        v = np.round(x)
    domain = case['name'] in ('healpix', 'spherical', 'cartesian', 'cartesian_horizontal')
    discard(domain and not np.array_equal(v, x))
    v = v.astype(case['dtype'])
    e = op(v.astype(float))
    equal(op(v), e, f'{case["name"]} of {case["dtype"]}', 1e-12)


LINEAR = [
    'black_body', 'power_law', 'truncated_exponential', 'in_memory', 'on_fly',
    'sparse_operator', 'projection_operator', 'roll', 'cartesian', 'cartesian_horizontal',
    'laplacian', 'invntt', 'healpix_convolution',
]


def dense(op, shapein, shapeout):
    return op.todense(
        shapein=shapein if op.shapein is None else None,
        shapeout=shapeout if op.shapeout is None else None,
    )


@st.composite
def linear_cases(draw):
    case = draw(cases_of(LINEAR)())
    case['how'] = draw(
        st.sampled_from(
            ['linear', 'adjoint', 'sum', 'left', 'right', 'normal', 'twice', 'column',
             'row', 'diagonal', 'accumulate', 'dense', 'scalar', 'copy', 'difference',
             'projection']
        )
    )
    return case


@sub(linear_cases, quick=1500, thorough=40000)
def combinations(case):
    """Combined linear operators act as the combination of their separate results."""
    from pyoperators import (
        BlockColumnOperator,
        BlockDiagonalOperator,
        BlockRowOperator,
        DiagonalOperator,
        HomothetyOperator,
    )

    op, x, y, r = make(case)
    how = case['how']
    what = f'{case["name"]}{".T" if case["transpose"] else ""}: {how}'
    if case['name'] == 'healpix_convolution' and how not in ('linear', 'sum', 'scalar'):
        # the transforms are iterative, and not exactly symmetric
        discard()
    z = r.uniform(-1, 1, y.shape)
    rtol = 1e-6 if case['name'] in ('in_memory', 'on_fly') else 1e-11

    def close(a, e, rtol=rtol):
        equal(a, e, what, rtol)

    def back(o, v, e):
        # pyoperators does not transpose the copies of transposed operators
        if not case['transpose']:
            equal(o.T(v), e, what, rtol)

    if how == 'linear':
        v = r.uniform(-1, 1, x.shape)
        close(op(2 * x - 3 * v), 2 * y - 3 * op(v))
        return
    if how == 'adjoint':
        a, b = np.sum(y * z), np.sum(x * op.T(z))
        require(abs(a - b) <= 1e-11 * np.sum(abs(y * z)) + 1e-11 * np.sum(abs(x * op.T(z))),
                lambda: f'{what}: {a} and {b}')
        require(op.T.T is op or np.array_equal(op.T.T(x), y), f'{what}: transpose twice')
        for flag in 'symmetric', 'hermitian':
            if getattr(op.flags, flag):
                close(op.T(x), y)
        if op.flags.orthogonal or op.flags.unitary:
            close(op.T(y), x)
        if op.flags.idempotent:
            close(op(y), y)
        if op.flags.involutary:
            close(op(y), x)
        return
    if how == 'sum':
        close((op + 2 * op)(x), 3 * y)
    elif how == 'difference':
        d = r.uniform(1, 2, y.shape)
        if x.shape == y.shape:
            close((op - DiagonalOperator(d))(x), y - d * x)
    elif how == 'left':
        d = r.uniform(1, 2, y.shape)
        o = DiagonalOperator(d) * op
        close(o(x), d * y)
        back(o, z, op.T(d * z))
    elif how == 'right':
        d = r.uniform(1, 2, x.shape)
        o = op * DiagonalOperator(d)
        close(o(x / d), y)
        back(o, z, d * op.T(z))
    elif how == 'scalar':
        k = float(r.uniform(-2, 2))
        close((k * op)(x), k * y)
        close((op * HomothetyOperator(k))(x), k * y)
        close((-op)(x), -y)
    elif how == 'normal':
        o = op.T * op
        close(o(x), op.T(y))
        back(o, x, op.T(y))
    elif how == 'projection':
        d = r.uniform(1, 2, y.shape)
        o = op.T * DiagonalOperator(d) * op
        close(o(x), op.T(d * y))
    elif how == 'twice':
        if x.shape == y.shape:
            close((op * op)(x), op(y))
            close((op * op.T)(x), op(op.T(x)))
    elif how == 'column':
        o = BlockColumnOperator([op, 2 * op], new_axisout=0)
        close(o(x), np.array([y, 2 * y]))
        back(o, np.array([z, -z]), op.T(z) - 2 * op.T(z))
    elif how == 'row':
        o = BlockRowOperator([op, 2 * op], new_axisin=0)
        close(o(np.array([x, x / 4])), 1.5 * y)
        back(o, z, np.array([op.T(z), 2 * op.T(z)]))
    elif how == 'diagonal':
        if x.shape == y.shape:
            o = BlockDiagonalOperator([op, op.T], new_axisin=0, new_axisout=0)
            close(o(np.array([x, z])), np.array([y, op.T(z)]))
    elif how == 'accumulate':
        out = np.full(y.shape, 2.0)
        if op.flags.update_output:
            op(x, out, operation=operator.iadd)
            close(out, y + 2)
        o = BlockRowOperator([op, op], new_axisin=0)
        close(o(np.array([x, x]), np.full(y.shape, 7.0)), 2 * y)
    elif how == 'dense':
        D = dense(op, x.shape, y.shape)
        require(D.shape == (y.size, x.size), f'{what}: dense shape {D.shape}')
        close(D @ x.ravel(), y.ravel())
        D = dense(op.T, y.shape, x.shape)
        close(D.T @ x.ravel(), y.ravel())
    elif how == 'copy':
        o = op.copy()
        close(o(x), y)
        back(o, z, op.T(z))
        close(op(x), y)

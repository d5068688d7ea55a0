"""C31: what is not specified takes its documented default value."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

from . import c29_representations as c29

S = 'src/pysimulators/'
PROPERTY = dict(
    title='Omitted arguments have their documented default value, whatever the others',
    statement=(
        'An optional argument that is omitted has the same effect as its documented '
        'default value: the array center for the center of a distance or of a profile, the '
        'header center for the reference pixel, radians, ring ordering, azimuth,elevation '
        'convention, ICRS, row 0, C order, a copy... whatever the values of the other '
        'arguments, omitted or not. Arguments given by position in the documented order '
        'are the same as those given by name.'
    ),
    over=['inputs', 'configurations'],
    text='every function, every subset of its optional arguments',
    why=(
        'The tests use few combinations of the optional arguments, mostly the default '
        'ones, and never compare a default value with the one that is documented.'
    ),
    files=[
        S + _
        for _ in (
            'datautils.py', 'geometry.py', 'wcsutils.py', 'quantities.py', 'datatypes.py',
            'operators.py', 'instruments.py', 'acquisitions.py', 'beams.py',
            'packedtables/layouts.py', 'packedtables/core.py', 'packedtables/scenes.py',
            'packedtables/samplings.py', 'interfaces/healpy/scenes.py',
            'interfaces/healpy/operators.py', 'sparse.py',
        )
    ],
    mechanism=[
        ('distance, profile, psd2, gaussian, airy_disk', S + 'datautils.py'),
        ('create_fitsheader, combine_fitsheader', S + 'wcsutils.py'),
        ('create_grid_squares, create_regular_polygon', S + 'geometry.py'),
        ('Spherical and equatorial conversions, PowerLaw, BlackBody', S + 'operators.py'),
        ('get_noise, get_invntt_operator', S + 'instruments.py'),
        ('Layout, Sampling and Scene constructors', S + 'packedtables/layouts.py'),
    ],
)
RULE = (
    'A case is a function, its arguments and the optional ones which are omitted, given '
    'by name or position, with their default value or another one; it is non-trivial when '
    'a default value is made explicit.'
)

ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


# Each entry returns the function, its required arguments and its optional ones, in the
# documented order: name, documented default value, other value. There is no other value
# when it is the default value itself.
SAME = object()


def shape2(r, lo=2, hi=6):
    return tuple(int(_) for _ in r.integers(lo, hi, 2))


def middle(shape):
    """The center of an array, the first coordinate being the one of the last dimension."""
    return [(n - 1) / 2 for n in shape[::-1]]


@entry
def distance(r):
    import pysimulators as p

    shape = tuple(int(_) for _ in r.integers(1, 5, int(r.integers(1, 4))))
    return p.distance, [shape], [
        ('center', middle(shape), r.uniform(-2, 5, len(shape))),
        ('scale', 1, float(r.uniform(1, 3))),
        ('dtype', float, np.float32),
    ]


@entry
def distance_squared(r):
    from pysimulators.datautils import distance2

    _, shape, options = distance(r)
    return distance2, shape, options


@entry
def airy_disk(r):
    import pysimulators as p

    shape = shape2(r)
    options = [
        ('center', middle(shape), r.uniform(-2, 5, 2)),
        ('scale', 1, float(r.uniform(1, 3))),
        ('dtype', float, np.float32),
    ]
    if r.integers(2):
        return (lambda s, f, *a, **k: p.airy_disk(s, f, None, *a, **k)), [shape, 2.5], options
    return (lambda s, f, *a, **k: p.airy_disk(s, None, f, *a, **k)), [shape, 2.5], options


@entry
def aperture_circular(r):
    import pysimulators as p

    shape = shape2(r)
    return p.aperture_circular, [shape, float(r.uniform(1, 5))], [
        ('center', middle(shape), r.uniform(-2, 5, 2)),
        ('scale', 1, float(r.uniform(1, 3))),
        ('dtype', float, np.float32),
    ]


@entry
def gaussian(r):
    import pysimulators as p

    shape, s = shape2(r), float(r.uniform(1, 3))
    options = [
        ('center', middle(shape), r.uniform(-2, 5, 2)),
        ('dtype', float, np.float32),
    ]
    if r.integers(2):
        return (lambda s_, *a, **k: p.gaussian(s_, s, None, *a, **k)), [shape], options
    return (lambda s_, *a, **k: p.gaussian(s_, None, s, *a, **k)), [shape], options


@entry
def profile(r):
    import pysimulators as p

    shape = shape2(r, 3, 7)
    return p.profile, [r.uniform(-5, 5, shape)], [
        ('bin', 1, float(r.uniform(0.7, 2))),
        ('nbins', None, int(r.integers(1, 4))),
        ('histogram', False, True),
        ('center', middle(shape), r.uniform(0, 3, 2)),
        ('scale', 1, float(r.uniform(1, 3))),
    ]


@entry
def integrated_profile(r):
    import pysimulators as p

    shape = shape2(r, 3, 7)
    return p.integrated_profile, [r.uniform(-5, 5, shape)], [
        ('bin', 1, float(r.uniform(0.7, 2))),
        ('nbins', None, int(r.integers(1, 4))),
        ('center', middle(shape), r.uniform(0, 3, 2)),
        ('scale', 1, float(r.uniform(1, 3))),
    ]


@entry
def phasemask(r):
    import pysimulators as p

    return p.phasemask_fourquadrant, [tuple(2 * int(_) for _ in r.integers(1, 4, 2))], [
        ('phase', -1, float(r.uniform(-3, 3)))
    ]


@entry
def psd2(r):
    import pysimulators as p

    f = p.psd2 if r.integers(2) else p.profile_psd2
    n = int(r.integers(2, 6))
    return f, [r.uniform(-5, 5, (n, n))], [
        ('sampling_frequency', 1, float(r.uniform(1, 3))),
        ('fftw_flag', 'FFTW_MEASURE', 'FFTW_ESTIMATE'),
    ]


@entry
def fitsheader(r):
    import pysimulators as p

    naxes = shape2(r, 1, 9)
    wcs = r.integers(4)
    options = [
        ('crval', (0, 0), r.uniform(0, 80, 2)),
        ('crpix', [(n + 1) / 2 for n in naxes], r.uniform(-3, 5, 2)),
        ('ctype', ('RA---TAN', 'DEC--TAN'), ('RA---SIN', 'DEC--SIN')),
        ('cunit', 'deg', SAME),
        ('radesys', 'ICRS', 'FK5'),
        ('equinox', None, 2000.0),
    ]
    if wcs == 0:
        options.append(('cdelt', None, SAME))
    elif wcs == 1:
        # North is up
        options.append(('pa', 0, float(r.uniform(0, 360))))
    fixed = [{}, {'cdelt': 0.3}, {'cdelt': (-0.2, 0.5), 'pa': 20}, {'cd': [[-1, 0.2], [0.1, 1]]}][
        wcs
    ]
    if r.integers(2):
        func = lambda n, d, **k: p.create_fitsheader(n, d, **fixed, **k)
        args = [naxes, float]
    else:
        func = lambda x, **k: p.create_fitsheader_for(x, **fixed, **k)
        args = [np.zeros(naxes[::-1])]
    if wcs == 0:
        # without increments, there is no coordinate system
        options = [('extname', None, 'ext'), ('cdelt', None, SAME), ('cd', None, SAME)]
    else:
        options.append(('extname', None, 'ext'))
    return func, args, options, 'by name'


@entry
def combined(r):
    import pysimulators as p
    from pysimulators.wcsutils import combine_fitsheader

    n = int(r.integers(1, 4))
    cdelt = r.uniform(0.1, 0.3, n)
    pas = float(r.uniform(-30, 30)) * np.ones(n)
    headers = [
        p.create_fitsheader(shape2(r, 2, 9), crval=r.uniform(40, 45, 2), cdelt=c, pa=a)
        for c, a in zip(cdelt, pas)
    ]

    def call(*args, **keywords):
        h = combine_fitsheader(*args, **keywords)
        # the dimensions are rounded
        out = [h[k] for k in ('CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'RADESYS')]
        return out + [h[k] for k in ('CD1_1', 'CD1_2', 'CD2_1', 'CD2_2')]

    return call, [headers], [
        ('cdelt', float(cdelt.min()), 0.25),
        ('pa', float(pas[0]), 12.0),
    ]


@entry
def circle(r):
    from pysimulators import geometry

    return geometry.create_circle, [float(r.uniform(1, 4))], [
        ('out', None, SAME),
        ('center', (0, 0), r.uniform(-3, 3, 2)),
        ('n', 72, 5),
        ('dtype', float, np.float32),
    ]


@entry
def grid(r):
    from pysimulators import geometry

    options = [
        ('out', None, SAME),
        ('filling_factor', 1, 0.5),
        ('xreflection', False, True),
        ('yreflection', False, True),
        ('center', (0, 0), r.uniform(-3, 3, 2)),
        ('angle', 0, float(r.uniform(0, 360))),
    ]
    args = [shape2(r, 1, 5), float(r.uniform(1, 3))]
    if r.integers(2):
        return geometry.create_grid_squares, args, options
    return geometry.create_grid, args, [_ for _ in options if _[0] != 'filling_factor']


@entry
def polygon(r):
    from pysimulators import geometry

    options = [
        ('out', None, SAME),
        ('center', (0, 0), r.uniform(-3, 3, 2)),
        ('angle', 0, float(r.uniform(0, 360))),
        ('dtype', float, np.float32),
    ]
    x = float(r.uniform(1, 3))
    return [
        (geometry.create_regular_polygon, [int(r.integers(3, 7)), x], options),
        (geometry.create_rectangle, [(x, 1.5)], options),
        (geometry.create_square, [x], options),
    ][r.integers(3)]


@entry
def surface(r):
    from pysimulators import geometry

    v = r.uniform(-3, 3, (2, 5, 2))
    return [
        (geometry.surface_simple_polygon, [v], [('out', None, SAME), ('dtype', float, np.float32)]),
        (geometry.segment_polygon, [v[0], 0.5], [('dtype', float, np.float32)]),
        (geometry.rotate, [v, 30.0], [('out', None, SAME)]),
    ][r.integers(3)]


def array_options(r, shape):
    import pysimulators as p

    unit = ['m', 'Jy', 'Jy/pixel', 'kg m^2'][r.integers(4)]
    return [
        ('unit', None, unit),
        ('derived_units', {}, {'foo': p.Quantity(5, 'm')}),
        ('dtype', float, np.float32),
    ]


NEW = [
    # the type is the one of the data, when it is real or complex
    ('copy', True, False),
    ('order', 'C', 'F'),
    ('subok', False, True),
    ('ndmin', 0, 3),
]


def observed_array(x):
    out = [x, str(x.dtype), x.strides, x.flags.f_contiguous, type(x).__name__]
    for k in 'mask', 'coverage', 'error', 'origin', 'header', 'derived_units':
        if hasattr(x, k):
            v = getattr(x, k)
            if k == 'derived_units':
                v = repr({a: (float(np.asarray(b)), b.unit) for a, b in v.items()})
            out.append((k, repr(v) if v is None or isinstance(v, str) else v))
    return out


@entry
def quantity(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    data = r.uniform(-5, 5, shape)

    def call(x, *args, **keywords):
        x = np.array(x)
        q = p.Quantity(x, *args, **keywords)
        return observed_array(q) + [np.shares_memory(x, q)]

    return call, [data], array_options(r, shape) + NEW


@entry
def array(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    data = r.uniform(-5, 5, shape)
    name = ['FitsArray', 'Map', 'Tod'][r.integers(3)]

    def call(x, **keywords):
        x = np.array(x)
        q = getattr(p, name)(x, **keywords)
        return observed_array(q) + [np.shares_memory(x, q)]

    options = array_options(r, shape) + NEW
    options.append(('header', None, p.create_fitsheader_for(data, cdelt=0.5)))
    if name == 'Map':
        options += [
            ('coverage', None, r.uniform(0, 1, shape)),
            ('error', None, r.uniform(0, 1, shape)),
            ('origin', 'lower', 'upper'),
        ]
    elif name == 'Tod':
        options += [('mask', None, r.integers(0, 2, shape).astype(bool))]
    return call, [data], options, 'by name'


@entry
def filled(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    name = ['Quantity', 'FitsArray', 'Map', 'Tod'][r.integers(4)]
    how = ['zeros', 'ones', 'empty'][r.integers(3)]

    def call(shape, **keywords):
        q = getattr(getattr(p, name), how)(shape, **keywords)
        if how == 'empty':
            q[...] = 0
        return observed_array(q)

    options = array_options(r, shape) + [('order', 'C', 'F')]
    if name != 'Quantity':
        options.append(
            ('header', None, p.create_fitsheader(shape[::-1], float, cdelt=0.5))
        )
    if name == 'Map':
        options += [
            ('coverage', None, r.uniform(0, 1, shape)),
            ('error', None, r.uniform(0, 1, shape)),
            ('origin', 'lower', 'upper'),
        ]
    elif name == 'Tod':
        options += [('mask', None, r.integers(0, 2, shape).astype(bool))]
    return call, [shape], options, 'by name'


def a_tod(r):
    import pysimulators as p

    shape = shape2(r, 2, 5)
    mask = r.integers(0, 4, shape) == 0 if r.integers(2) else None
    return p.Tod(r.uniform(-5, 5, shape), mask=mask, unit='Jy')


@entry
def reduced(r):
    t = a_tod(r)
    name = ['sum', 'min', 'max', 'mean', 'std', 'var', 'cumsum'][r.integers(7)]
    options = [('axis', None, int(r.integers(-2, 2)))]
    if name in ('std', 'var'):
        options += [('dtype', None, SAME), ('out', None, SAME), ('ddof', 0, 1)]
    elif name in ('min', 'max'):
        options += [('out', None, SAME)]
    else:
        options += [('dtype', None, np.float32), ('out', None, SAME)]
    return (lambda *a, **k: getattr(t, name)(*a, **k)), [], options


@entry
def reshaped(r):
    import pysimulators as p

    t = a_tod(r)
    if r.integers(2):
        t = p.Map(t.view(np.ndarray), coverage=r.uniform(0, 1, t.shape), error=-t.magnitude)
    name = ['ravel', 'flatten', 'reshape', 'squeeze', 'median', 'sort'][r.integers(6)]
    if name in ('ravel', 'flatten'):
        return (lambda *a, **k: observed_array(getattr(t, name)(*a, **k))), [], [
            ('order', 'C', 'F')]
    if name == 'reshape':
        call = lambda *a, **k: observed_array(t.reshape(*a, **k))
        return call, [-1], [('order', 'C', 'F')], 'by name'
    if name == 'squeeze':
        u = t[:1]
        return (lambda *a, **k: observed_array(u.squeeze(*a, **k))), [], [('axis', None, 0)]
    if not isinstance(t, p.Tod):
        return (lambda *a, **k: t.ravel(*a, **k)), [], [('order', 'C', 'F')]
    if name == 'median':
        return t.median, [], [('axis', None, int(r.integers(-2, 2)))]

    def call(*args, **keywords):
        u = t.copy()
        u.sort(*args, **keywords)
        return observed_array(u)

    u = t.copy()
    u.mask = None
    t = u
    return call, [], [('axis', -1, 0), ('kind', 'quicksort', 'mergesort'), ('order', None, SAME)]


@entry
def celestial(r):
    import pysimulators as p

    cls = [p.SphericalEquatorial2GalacticOperator, p.SphericalGalactic2EquatorialOperator][
        r.integers(2)
    ]
    x = r.uniform(0.1, 1.5, shape2(r, 1, 4) + (2,))
    return (lambda *a, **k: (lambda op: (op(x), op.I(x)))(cls(*a, **k))), [], conventions()


def conventions():
    # they are called conventionin and conventionout
    return [
        ('conventionin', 'azimuth,elevation', 'zenith,azimuth'),
        ('conventionout', 'azimuth,elevation', 'azimuth,zenith'),
        ('degrees', False, True),
    ]


@entry
def horizontal(r):
    import pysimulators as p
    from astropy.time import Time

    cls = [
        p.SphericalEquatorial2HorizontalOperator, p.SphericalHorizontal2EquatorialOperator,
    ][r.integers(2)]
    n = int(r.integers(1, 4))
    t = Time(2450000 + r.uniform(0, 3000, n), format='jd')
    x = r.uniform(0.1, 1.5, (n, 2))
    args = ['NE', t, float(r.uniform(-50, 50)), float(r.uniform(-50, 50))]
    return (lambda *a, **k: cls(*a, **k)(x)), args, conventions()


@entry
def power_law(r):
    import pysimulators as p

    x, shape = r.uniform(1, 5), shape2(r, 1, 4)
    v = r.uniform(-5, 5, shape)
    return (lambda *a, **k: p.PowerLawOperator(*a, **k)(v)), [
        r.uniform(-2, 2, shape), x, 2.0
    ], [('scalar', 1, 3.0)]


@entry
def black_body(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    v = r.uniform(-5, 5, shape)
    temperature = r.uniform(5, 30, shape)
    names = [('frequency', 'frequency0'), ('wavelength', 'wavelength0')][r.integers(2)]
    values = (1e12, 2e12) if names[0] == 'frequency' else (1e-4, 2e-4)
    given = dict(zip(names, values))
    return (lambda t, **k: p.BlackBodyOperator(t, **given, **k)(v)), [temperature], [
        ('beta', 0, 1.5)
    ], 'by name'


@entry
def beam(r):
    import pysimulators as p

    t = r.uniform(0, 3, 5)

    def call(*args, **keywords):
        b = p.BeamGaussian(*args, **keywords)
        return b(t, t), b.solid_angle, b.fwhm, b.backward

    return call, [float(r.uniform(0.1, 1))], [('backward', False, True)]


@entry
def roll(r):
    import pysimulators as p

    ndim = int(r.integers(1, 4))
    x = r.uniform(-5, 5, tuple(int(_) for _ in r.integers(1, 5, ndim)))
    # a single value is for the last dimension, several ones for the last dimensions
    m = int(r.integers(1, ndim + 1))
    n = tuple(int(_) for _ in r.integers(-4, 5, m))
    axis = tuple(range(-m, 0))
    if m == 1:
        n, axis = n[0], axis[0]
    return (lambda *a, **k: p.RollOperator(*a, **k)(x)), [n], [('axis', axis, SAME)]


@entry
def healpix(r):
    from pysimulators.interfaces import healpy as h

    nside = 2 ** int(r.integers(0, 4))
    i = r.integers(0, 12 * nside**2, 5).astype(float)
    a = r.uniform(0.1, 1.5, (5, 2))
    v = r.uniform(-1, 1, (5, 3))
    options = [('nest', False, True)]
    return [
        (lambda *a, **k: h.Healpix2CartesianOperator(*a, **k)(i), [nside], options),
        (lambda *a, **k: h.Cartesian2HealpixOperator(*a, **k)(v), [nside], options),
        (
            lambda *a, **k: h.Healpix2SphericalOperator(*a, **k)(i),
            [nside, 'azimuth,elevation'], options,
        ),
        (
            lambda *x, **k: h.Spherical2HealpixOperator(*x, **k)(a),
            [nside, 'elevation,azimuth'], options,
        ),
    ][r.integers(4)]


@entry
def healpix_convolution(r):
    from pysimulators.interfaces import healpy as h

    nside = 2 ** int(r.integers(1, 4))
    x = r.uniform(-1, 1, 12 * nside**2)
    how = [{'fwhm': 0.3}, {'sigma': 0.2}][r.integers(2)]
    return (lambda **k: h.HealpixConvolutionGaussianOperator(**how, **k)(x)), [], [
        ('iter', 3, 1),
        ('lmax', 3 * nside - 1, nside),
        ('use_weights', False, SAME),
        ('dtype', float, np.float32),
        ('pol', True, False),
    ], 'by name'


@entry
def healpix_scene(r):
    from pysimulators.interfaces import healpy as h

    a = r.uniform(0.1, 1.5, (5, 2))
    nside = 2 ** int(r.integers(0, 3))

    def observed(s):
        return [
            s.shape, s.kind, s.nside, s.npixel, s.nest, s.convention, s.solid_angle,
            s.topixel(a), len(s), s.ndim,
        ]

    if r.integers(2):
        return (lambda *a, **k: observed(h.SceneHealpix(*a, **k))), [nside], [
            ('kind', 'I', 'IQU'),
            ('nest', False, True),
            ('convention', 'zenith,azimuth', 'azimuth,elevation'),
        ]

    def call(*args, **keywords):
        s = h.SceneHealpixCMB(*args, **keywords)
        op = s.get_unit_conversion_operator(150e9)
        return observed(s) + [s.absolute, s.temperature, op(np.array([2.7, 3.0]))]

    return call, [nside], [
        ('kind', 'I', 'QU'), ('absolute', False, True), ('temperature', 2.7255, 2.8),
    ]


@entry
def layout_grid(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    options = [
        ('filling_factor', 1, 0.5),
        ('xreflection', False, True),
        ('yreflection', False, True),
        ('angle', 0, float(r.uniform(0, 360))),
        ('origin', (0, 0), r.uniform(-3, 3, 2)),
        ('startswith1', False, True),
    ]
    cls = p.LayoutGridSquares
    if r.integers(2):
        cls, options = p.LayoutGrid, options[1:]
    selection = [
        ('selection', Ellipsis, [r.integers(0, 2, shape).astype(bool), slice(None, None, 2)][
            r.integers(2)]),
        ('ordering', None, r.permutation(shape[0] * shape[1]).reshape(shape)),
    ]

    def call(*args, **keywords):
        x = cls(*args, **keywords)
        out = [x.shape, x.ndim, len(x), x.index, x.row, x.column, x.center, x.all.center]
        return out + ([x.vertex, x.nvertices] if cls is p.LayoutGridSquares else [])

    if r.integers(2):
        return call, [shape, 1.5], options
    return call, [shape, 1.5], options + selection, 'by name'


@entry
def table(r):
    from pysimulators import PackedTable

    shape = shape2(r, 1, 4)
    v = r.uniform(-5, 5, shape)

    def call(*args, **keywords):
        t = PackedTable(*args, x=v, **keywords)
        return [t.shape, t.ndim, len(t), t.index, t.removed, t.x, t.all.x, t.comm.size]

    return call, [shape], [
        ('selection', Ellipsis, r.integers(0, 2, shape).astype(bool)),
        ('ordering', np.arange(v.size).reshape(shape), r.permutation(v.size).reshape(shape)),
        ('ndim', 2, SAME),
    ]


@entry
def packing(r):
    from pysimulators import PackedTable

    shape = shape2(r, 1, 4)
    selection = [Ellipsis, r.integers(0, 2, shape).astype(bool)][r.integers(2)]
    t = PackedTable(shape, selection=selection)
    # the missing values of integers and booleans are also documented
    dtype, missing, other = [
        (float, np.nan, -1.0), (complex, np.nan, 1j), (int, -1, 7), (bool, False, True),
    ][r.integers(4)]
    x = r.integers(-4, 4, len(t)).astype(dtype)

    def call(x, **keywords):
        x = np.array(x)
        out = t.unpack(x, **keywords)
        return [out, np.shares_memory(out, x), str(out.dtype)]

    if r.integers(2):
        return call, [x], [
            ('out', None, SAME), ('missing_value', missing, other), ('copy', False, True),
        ], 'by name'

    def call2(y, **keywords):
        y = np.array(y)
        out = t.pack(y, **keywords)
        return [out, np.shares_memory(out, y), str(out.dtype)]

    return call2, [r.integers(-4, 4, shape).astype(dtype)], [
        ('out', None, SAME), ('copy', False, True),
    ], 'by name'


@entry
def sampling(r):
    import pysimulators as p
    from astropy.time import Time

    n = int(r.integers(1, 5))

    def call(*args, **keywords):
        s = p.Sampling(*args, **keywords)
        return [len(s), s.date_obs, s.period, s.time, s.index, s.masked]

    return call, [n], [
        ('date_obs', p.Sampling.DEFAULT_DATE_OBS, Time('2015-01-02T03:04:05', scale='utc')),
        ('period', p.Sampling.DEFAULT_PERIOD, 0.25),
        ('time', None, SAME),
        ('masked', False, r.integers(0, 2, n).astype(bool)),
    ], 'by name'


@entry
def pointings(r):
    import pysimulators as p

    n = int(r.integers(1, 5))
    a = r.uniform(10, 80, n)

    def observed(s, *names):
        return [len(s), s.period, s.date_obs, s.time] + [getattr(s, _) for _ in names]

    if r.integers(2):
        return (lambda *a, **k: observed(p.SamplingEquatorial(*a, **k), 'ra', 'dec', 'pa', 'galactic', 'degrees')), [
            a, a[::-1]
        ], [
            ('pa', 0, r.uniform(0, 360, n)),
            ('masked', False, r.integers(0, 2, n).astype(bool)),
            ('period', p.Sampling.DEFAULT_PERIOD, 0.25),
        ], 'by name'
    return (
        lambda *a, **k: observed(p.SamplingHorizontal(*a, latitude=20, longitude=30, **k), 'azimuth', 'elevation', 'pitch', 'equatorial', 'degrees')
    ), [a, a[::-1]], [
        ('pitch', 0, r.uniform(0, 360, n)),
        ('masked', False, r.integers(0, 2, n).astype(bool)),
        ('date_obs', p.Sampling.DEFAULT_DATE_OBS, '2015-01-02T03:04:05'),
    ], 'by name'


@entry
def scene_grid(r):
    import pysimulators as p

    shape = shape2(r, 1, 5)

    def call(*args, **keywords):
        s = p.SceneGrid(*args, **keywords)
        return [s.shape, s.ndim, len(s), s.index, s.origin, s.startswith1, s.topixel, s.to1d]

    return call, [shape], [
        ('origin', 'upper', 'lower'),
        ('startswith1', False, True),
        ('to1d', None, SAME),
        ('topixel', None, SAME),
    ], 'by name'


@entry
def integration(r):
    import pysimulators as p

    shape = shape2(r, 4, 7)
    s = p.SceneGrid(shape)
    v = r.uniform(0.2, 2.2, (int(r.integers(1, 4)), 1, 2))
    v = v + np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])

    def call(*args, **keywords):
        op = s.get_integration_operator(*args, **keywords)
        x = np.arange(shape[0] * shape[1], dtype=float).reshape(shape)
        return [op(x), str(op.matrix.data['index'].dtype), str(op.matrix.dtype)]

    return call, [v], [
        ('ncolmax', 0, int(r.integers(1, 6))),
        ('dtype', np.float64, np.float32),
        ('dtype_index', np.int32, np.int64),
    ]


@entry
def sparse_matrix(r):
    from pysimulators import sparse

    n, shape = int(r.integers(1, 4)), shape2(r, 1, 5)
    name = ['FSRMatrix', 'FSCMatrix'][r.integers(2)]
    size = 'ncolmax' if name == 'FSRMatrix' else 'nrowmax'

    def call(*args, **keywords):
        m = getattr(sparse, name)(*args, **{size: n}, **keywords)
        return [m.shape, str(m.dtype), m.data.shape, str(m.data.dtype)]

    return call, [shape], [
        ('dtype', np.float64, np.float32),
        ('dtype_index', np.int64, np.int32),
        ('data', None, SAME),
        ('verbose', False, SAME),
    ], 'by name'


@entry
def pointing_matrix(r):
    import pysimulators as p

    shape = (int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(1, 3)))
    f = [p.PointingMatrix.zeros, p.PointingMatrix.ones][r.integers(2)]

    def call(*args, **keywords):
        m = f(*args, **keywords)
        return [m['value'], m['index'], m.shape_input, m.get_mask()]

    return call, [shape, (int(r.integers(1, 9)),)], [('verbose', True, False)]


def an_instrument(r):
    import pysimulators as p

    n, m = int(r.integers(1, 4)), int(r.integers(2, 5)) * 2
    return p.Instrument(p.PackedTable(n)), p.Sampling(m, period=0.5), n, m


@entry
def noise(r):
    ins, sam, n, m = an_instrument(r)
    seed = int(r.integers(1000))
    model = r.integers(3)
    options = [('fknee', 0, 0.7), ('fslope', 1, 2)]
    given = [
        {'sigma': 2.0}, {'nep': 3.0}, {'psd': r.uniform(1, 2, 5), 'bandwidth': 0.5},
    ][model]
    if model == 1:
        # the noise equivalent power is relative to a bandwidth of one Hertz
        given = {}
        options.append(('sigma', 3.0 / np.sqrt(2 * 0.5), None))
    if model == 2:
        options = [('twosided', False, SAME)]

    def call(*args, **keywords):
        np.random.seed(seed)
        if model == 1:
            # sigma is equivalent to nep
            if keywords.get('sigma') is None:
                keywords.pop('sigma', None)
                keywords['nep'] = 3.0
        return ins.get_noise(*args, **given, **keywords)

    return call, [sam], options + [('out', None, SAME)], 'by name'


@entry
def invntt(r):
    ins, sam, n, m = an_instrument(r)
    x = r.uniform(-1, 1, (n, m))
    model = r.integers(2)
    given = [{'sigma': 2.0}, {'psd': r.uniform(1, 2, 5), 'bandwidth': 0.5}][model]
    # the correlation length is required for correlated noises
    given['ncorr'] = int(r.integers(0, m // 2))
    options = [('fknee', 0, 0.7), ('fslope', 1, 2)] if not model else [
        ('twosided', False, SAME)]

    def call(*args, **keywords):
        op = ins.get_invntt_operator(*args, **given, **keywords)
        return op(x) if op.shapein is None or op.shapein == x.shape else fail('shape')

    return call, [sam], options + [
        ('fftw_flag', 'FFTW_MEASURE', 'FFTW_ESTIMATE'),
        ('nthreads', None, 1),
    ], 'by name'


@entry
def angle(r):
    from pysimulators.wcsutils import angle_lonlat

    a = r.uniform(-80, 80, (4, 3))

    def call(*args, **keywords):
        # pairs may also be used
        if len(args) == 2:
            args = args[0] + args[1]
        return angle_lonlat(*args)

    return call, [(a[0], a[1]), (a[2], a[3])], []


@entry
def operator(r):
    import pysimulators as p

    header = p.create_fitsheader(shape2(r, 3, 9), cdelt=0.3, crval=(30, 40))
    from astropy.wcs import WCS

    x = r.uniform(1, 3, (3, 2))
    cls = [p.WCSToPixelOperator, p.WCSToWorldOperator][r.integers(2)]
    if cls is p.WCSToPixelOperator:
        x = x + [29, 39]
    return (lambda *a, **k: cls(*a, **k)(x)), [WCS(header) if r.integers(2) else header], [
        ('origin', 0, 1)
    ]


@entry
def acquisition(r):
    from . import c17_acquisition as c17

    n, m = int(r.integers(2, 6)), int(r.integers(1, 4))
    case = {
        'shape': (m,), 'keep': None, 'ns': n, 'npix': 3, 'block': None, 'limit': None,
        'sigma': 2.0, 'fknee': 0, 'single': False, 'cached': False,
    }
    x = r.uniform(-1, 1, 3)
    seed = int(r.integers(1000))

    def call(**keywords):
        from pysimulators import Acquisition

        acq = c17.make(case)
        noiseless = {k: v for k, v in keywords.items() if k == 'noiseless'}
        for k in noiseless:
            del keywords[k]
        acq = Acquisition(acq.instrument, acq.sampling, acq.scene, **keywords)
        np.random.seed(seed)
        y = acq.get_observation(x, **noiseless)
        return [acq.get_operator()(x), y, acq.comm.size]

    # the first partition is the only one without another process
    return call, [], [
        ('block', [slice(0, n)], [slice(0, (n + 1) // 2), slice((n + 1) // 2, n)]),
        ('max_nbytes', None, SAME),
        ('nprocs_instrument', 1, SAME),
        ('nprocs_sampling', 1, SAME),
        ('noiseless', False, True),
    ], 'by name'


@entry
def back_projection(r):
    import pysimulators as p

    from . import c28_operator_contract as c28

    pm = c28.pointing_matrix(r)
    op = p.ProjectionInMemoryOperator(pm)
    shape = pm.shape[:-1]
    mask = r.integers(0, 3, shape) == 0
    x = p.Tod(r.uniform(-1, 1, shape), mask=mask)
    if r.integers(2):
        return op.get_pTp, [], [('out', None, SAME)]
    # the mask is the one of the input, when it is not specified
    return (lambda x, *a, **k: list(op.get_pTx_pT1(x, *a, **k))), [x], [
        ('out', None, SAME), ('mask', mask, ~mask),
    ]


@entry
def truncated_exponential(r):
    import pysimulators as p

    n = int(r.integers(1, 5))
    x = r.uniform(-1, 1, (n, 4))
    tau = r.uniform(1, 3, n)
    return (lambda *a, **k: p.ConvolutionTruncatedExponentialOperator(*a, **k)(x)), [tau], [
        ('dtype', float, SAME)
    ]


@entry
def distributed(r):
    from pyoperators.utils.mpi import MPI

    from pysimulators.mpiutils import distribute_observation

    removed = r.integers(0, 2, int(r.integers(1, 5))).astype(bool)
    return distribute_observation, [removed, list(range(int(r.integers(1, 5))))], [
        ('rank', 0, SAME), ('comm', MPI.COMM_WORLD, MPI.COMM_SELF),
    ]


@entry
def scattered(r):
    import pysimulators as p
    from pyoperators.utils.mpi import MPI

    shape = shape2(r, 1, 4)
    t = p.PackedTable(shape, x=r.uniform(-1, 1, shape))
    if r.integers(2):
        t = p.Instrument(t)

    def call(*args, **keywords):
        s = t.scatter(*args, **keywords)
        d = getattr(s, 'detector', s)
        return [len(s), d.x, d.index, d.comm.size]

    return call, [], [('comm', MPI.COMM_WORLD, MPI.COMM_SELF)]


def flat(x, path='result'):
    out = []
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            out += flat(y, f'{path}[{i}]')
        return out
    if x is None or isinstance(x, (str, bytes)) or x is Ellipsis:
        return [(path, np.array(repr(x)), None)]
    return c29.flat(x, path)


@st.composite
def cases(draw):
    n = 12
    return {
        'name': draw(st.sampled_from(sorted(ENTRIES))),
        'seed': draw(gen.seeds()),
        # omitted, omitted then explicit, other value
        'how': draw(
            st.lists(st.sampled_from(['', 'default', 'other']), min_size=n, max_size=n)
        ),
        'position': draw(st.booleans()),
    }


@sub(cases(), quick=2500, thorough=40000, nontrivial=lambda c: 'default' in c['how'])
def defaults(case):
    """The default values have no effect when they are made explicit."""

    def fresh():
        x = ENTRIES[case['name']](gen.rng(case['seed']))
        return x if len(x) == 4 else (*x, '')

    def evaluate(func, what, args, keywords):
        try:
            return flat(func(*args, **keywords))
        except Exception as error:
            return f'{what}: {error!r}'

    func, args, options, by_name = fresh()
    how = {}
    for (name, default, other), h in zip(options, case['how']):
        how[name] = 'default' if h == 'other' and other is SAME else h
    given = {name: other for name, _, other in options if how[name] == 'other'}
    shown = ', '.join(f'{k}={v!r}' for k, v in given.items())
    what = f'{case["name"]}({shown})'
    expected = evaluate(func, what, args, given)

    func, args, options, by_name = fresh()
    given = {
        n: d if how[n] == 'default' else o for n, d, o in options if how[n] != ''
    }
    shown = ', '.join(f'{k}={v!r}' for k, v in given.items())
    explicit = f'{case["name"]}({shown})'
    actual = evaluate(func, explicit, args, given)
    if isinstance(expected, str) or isinstance(actual, str):
        fail(f'{expected if isinstance(expected, str) else actual}')
    c29.compare(actual, expected, explicit)
    if not case['position'] or by_name:
        return

    func, args, options, by_name = fresh()
    # up to the last one that is given
    last = max([i for i, (n, *_) in enumerate(options) if how[n]], default=-1)
    more = [o if how[n] == 'other' else d for n, d, o in options[: last + 1]]
    what = f'{case["name"]}{tuple(more)!r}'
    actual = evaluate(func, what, [*args, *more], {})
    if isinstance(actual, str):
        fail(actual)
    c29.compare(actual, expected, what)

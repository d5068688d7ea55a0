"""C29: only the values of the arguments matter, and they are left as they were."""

import os
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

S = 'src/pysimulators/'
PROPERTY = dict(
    title='Results depend only on the values of the arguments, which are left unchanged',
    statement=(
        'The functions, constructors and methods of the package return the same for any '
        'representation of their array arguments: list, memory layout (C, Fortran, '
        'strided, reversed, unaligned), byte order, integer type for whole numbers, '
        'subclass or read-only array. They leave the arguments as they were, and the '
        'global state too: random generator, table of units, floating point settings, '
        'warning filters and working directory. What was called before has no effect on a '
        'result, and modifying a result has none on the next ones.'
    ),
    over=['inputs', 'configurations', 'histories'],
    text='every representation of the array arguments and sequence of calls',
    why=(
        'The tests call each function once with new C-contiguous arrays of native floats; '
        'compiled routines, views and cached values are the places where a representation '
        'or a previous call has an effect.'
    ),
    files=[
        S + _
        for _ in (
            'datautils.py', 'geometry.py', 'wcsutils.py', 'noises.py', 'operators.py',
            'sparse.py', 'quantities.py', 'datatypes.py', 'packedtables/layouts.py',
            'packedtables/samplings.py', 'packedtables/core.py', 'instruments.py',
        )
    ],
    mechanism=[
        ('np.asarray, ascontiguousarray and views of the arguments', S + 'datautils.py'),
        ('calls to the compiled routines', S + 'geometry.py'),
        ('angle_lonlat, mean_degrees, minmax_degrees', S + 'wcsutils.py'),
        ('PackedTable, Layout and Sampling constructors', S + 'packedtables/core.py'),
        ('units table', S + 'quantities.py'),
    ],
)
RULE = (
    'A case is a function, its arguments, their representation and the calls made in '
    'between; it is non-trivial when an argument is not a native C-contiguous array.'
)

ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


def num(r, lo, hi, shape):
    """Numbers, whole ones from time to time."""
    v = r.uniform(lo, hi, shape)
    return np.round(v) if r.integers(3) == 0 else v


def shape2(r, lo=2, hi=6):
    return tuple(int(_) for _ in r.integers(lo, hi, 2))


# each function returns the arrays whose representation is changed, and what is computed


@entry
def distance(r):
    import pysimulators as p

    n = int(r.integers(1, 4))
    shape = tuple(int(_) for _ in r.integers(1, 5, n))
    a = {'center': num(r, -2, 5, n), 'scale': num(r, 1, 3, n)}
    return a, lambda center, scale: p.distance(shape, center=center, scale=scale)


@entry
def distance2(r):
    from pysimulators.datautils import distance2

    shape = shape2(r)
    a = {'center': num(r, -2, 5, 2), 'scale': num(r, 1, 3, 2)}
    return a, lambda center, scale: distance2(shape, center, scale)


@entry
def gaussian(r):
    import pysimulators as p

    shape = shape2(r)
    a = {'center': num(r, -2, 5, 2), 'sigma': num(r, 1, 3, 2)}
    return a, lambda center, sigma: p.gaussian(shape, sigma=sigma, center=center)


@entry
def airy_disk(r):
    import pysimulators as p

    shape = shape2(r)
    a = {'center': num(r, -2, 5, 2), 'scale': num(r, 1, 3, 2)}
    return a, lambda center, scale: p.airy_disk(shape, fwhm=2.5, center=center, scale=scale)


@entry
def aperture_circular(r):
    import pysimulators as p

    shape = shape2(r)
    a = {'center': num(r, -2, 5, 2), 'scale': num(r, 1, 3, 2)}
    return a, lambda center, scale: p.aperture_circular(shape, 3, center=center, scale=scale)


@entry
def profile(r):
    import pysimulators as p

    shape = shape2(r, 3, 7)
    a = {'image': num(r, -5, 5, shape), 'center': num(r, 0, 4, 2)}
    return a, lambda image, center: p.profile(image, bin=1.5, center=center, histogram=True)


@entry
def integrated_profile(r):
    import pysimulators as p

    shape = shape2(r, 3, 7)
    a = {'image': num(r, -5, 5, shape), 'center': num(r, 0, 4, 2)}
    return a, lambda image, center: p.integrated_profile(image, center=center, scale=2)


@entry
def psd2(r):
    import pysimulators as p

    n = 2 * int(r.integers(2, 5))
    return {'image': num(r, -5, 5, (n, n))}, lambda image: p.psd2(image, 3.0)


@entry
def profile_psd2(r):
    import pysimulators as p

    n = 2 * int(r.integers(2, 5))
    return {'image': num(r, -5, 5, (n, n))}, lambda image: p.profile_psd2(image, 3.0)


@entry
def convex_hull(r):
    from pysimulators.geometry import convex_hull

    return {'points': r.uniform(-3, 3, (int(r.integers(4, 9)), 2))}, lambda points: convex_hull(
        points
    )


@entry
def polygon(r):
    from pysimulators import geometry as g

    n, shape = int(r.integers(3, 6)), shape2(r, 1, 4)
    a = {'radius': num(r, 1, 4, shape), 'center': num(r, -3, 3, 2)}
    return a, lambda radius, center: g.create_regular_polygon(n, radius, center=center, angle=20)


@entry
def rectangle(r):
    from pysimulators import geometry as g

    a = {'size': num(r, 1, 4, shape2(r, 1, 4) + (2,)), 'center': num(r, -3, 3, 2)}
    return a, lambda size, center: g.create_rectangle(size, center=center, angle=33)


@entry
def grid(r):
    from pysimulators import geometry as g

    shape, f = shape2(r, 1, 5), [g.create_grid, g.create_grid_squares][r.integers(2)]
    x, y = (bool(_) for _ in r.integers(0, 2, 2))
    return {'center': num(r, -3, 3, 2)}, lambda center: f(
        shape, 1.5, center=center, angle=25.0, xreflection=x, yreflection=y
    )


@entry
def rotate(r):
    from pysimulators import geometry as g

    return {'coords': num(r, -3, 3, shape2(r, 1, 5) + (2,))}, lambda coords: g.rotate(coords, 35)


@entry
def surface(r):
    from pysimulators import geometry as g

    coords = num(r, -3, 3, (int(r.integers(1, 4)), int(r.integers(3, 6)), 2))
    return {'coords': coords}, g.surface_simple_polygon


@entry
def segments(r):
    from pysimulators import geometry as g

    return {'vertices': r.uniform(-3, 3, (int(r.integers(3, 6)), 2))}, (
        lambda vertices: g.segment_polygon(vertices, 0.7)
    )


@entry
def angle_lonlat(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    a = {
        'lon1': num(r, 0, 360, shape), 'lat1': num(r, -80, 80, shape),
        'lon2': num(r, 0, 360, shape), 'lat2': num(r, -80, 80, shape),
    }
    return a, lambda lon1, lat1, lon2, lat2: p.angle_lonlat(lon1, lat1, lon2, lat2)


@entry
def barycenter(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    return {'lon': num(r, 0, 60, shape), 'lat': num(r, -20, 80, shape)}, (
        lambda lon, lat: p.barycenter_lonlat(lon, lat)
    )


@entry
def degrees(r):
    from pysimulators.wcsutils import mean_degrees, minmax_degrees

    a = {'array': num(r, -30, 30, shape2(r, 1, 5)) % 360}
    return a, lambda array: (mean_degrees(array), minmax_degrees(array))


@entry
def fitsheader(r):
    import pysimulators as p

    a = {
        'crval': num(r, 0, 40, 2), 'crpix': num(r, 1, 9, 2), 'cd': r.uniform(0.1, 1, (2, 2)),
    }
    return a, lambda crval, crpix, cd: p.create_fitsheader(
        (4, 5), crval=crval, crpix=crpix, cd=cd
    )


@entry
def fitsheader_for(r):
    import pysimulators as p

    a = {'data': r.uniform(1, 2, shape2(r)), 'cdelt': num(r, 1, 3, 2)}
    return a, lambda data, cdelt: p.create_fitsheader_for(data, cdelt=cdelt)


@entry
def wcs(r):
    import pysimulators as p

    h = p.create_fitsheader((20, 30), cdelt=0.1, crval=(10, 20), crpix=(8, 3), pa=20)
    ops = [p.WCSToPixelOperator(h), p.WCSToWorldOperator(h, 1)]
    op = ops[r.integers(2)]
    return {'x': num(r, 8, 20, shape2(r, 1, 4) + (2,))}, lambda x: op(x)


@entry
def distortion(r):
    from pysimulators import DistortionOperator

    g = np.stack(np.meshgrid(np.arange(-3, 4.0), np.arange(-3, 4.0)), -1).reshape(-1, 2)
    x = r.uniform(-2, 2, (3, 2))
    a = {'xin': g, 'xout': 2 * g + 0.01 * g**2}
    # the inverse is interpolated too
    return a, lambda xin, xout: (lambda o: (o(x), o.I(x)))(DistortionOperator(xin, xout))


@entry
def fold(r):
    from pysimulators import noises

    n = 2 * int(r.integers(2, 5))
    return {'psd': num(r, 1, 9, (2, n))}, lambda psd: (
        noises._fold_psd(psd), noises._unfold_psd(psd),
    )


@entry
def gaussian_psd(r):
    from pysimulators import noises

    n = int(r.integers(1, 4))
    a = {
        'sigma': num(r, 1, 4, n), 'fknee': num(r, 1, 2, n), 'fslope': num(r, 1, 2, n),
    }
    return a, lambda sigma, fknee, fslope: noises._gaussian_psd_1f(
        8, 2.0, sigma, fknee, fslope, twosided=True
    )


@entry
def interpolated_psd(r):
    from pysimulators import noises

    f = np.arange(6.0)
    a = {'psd': num(r, 1, 9, (2, 5)), 'f': f}
    # a private helper: it may be renamed or inlined
    func = getattr(noises, '_logloginterp_psd', None)
    if func is None:
        return a, lambda psd, f: np.asarray(psd)[..., :1]
    return a, lambda psd, f: func(f, 1.25, psd)


@entry
def invntt(r):
    from pysimulators import Instrument, PackedTable, Sampling

    n = int(r.integers(1, 4))
    x = r.uniform(-1, 1, (n, 8))
    fknee = [0, 0.5][r.integers(2)]

    def call(sigma):
        op = Instrument('x', PackedTable(n)).get_invntt_operator(
            Sampling(8, period=0.5), sigma=as_array(sigma), fknee=fknee, fslope=1.5, ncorr=3
        )
        return op(x.copy())

    return {'sigma': num(r, 1, 4, n)}, call


@entry
def invntt_psd(r):
    from pysimulators import Instrument, PackedTable, Sampling

    n = int(r.integers(1, 4))
    x = r.uniform(-1, 1, (n, 8))

    def call(psd):
        op = Instrument('x', PackedTable(n)).get_invntt_operator(
            Sampling(8, period=0.5), psd=psd, bandwidth=0.25, ncorr=3
        )
        return op(x.copy())

    return {'psd': num(r, 1, 9, (n, 5))}, call


@entry
def black_body(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    x = r.uniform(1, 2, shape)
    a = {'T': num(r, 5, 30, shape), 'beta': num(r, 1, 2, shape)}
    return a, lambda T, beta: p.BlackBodyOperator(
        T, wavelength=1e-4, wavelength0=2e-4, beta=beta
    )(x)


@entry
def power_law(r):
    import pysimulators as p

    shape = shape2(r, 1, 4)
    a = {'alpha': num(r, -2, 2, shape), 'x': num(r, -5, 5, shape)}
    return a, lambda alpha, x: p.PowerLawOperator(alpha, 2.0, 3.0)(x)


@entry
def truncated_exponential(r):
    import pysimulators as p

    shape = shape2(r, 1, 5)
    a = {'tau': num(r, 1, 4, shape[0]), 'x': num(r, -5, 5, shape)}
    return a, lambda tau, x: (lambda o: (o(x), o.T(x)))(
        p.ConvolutionTruncatedExponentialOperator(tau)
    )


@entry
def roll(r):
    import pysimulators as p

    a = {'n': r.integers(-4, 5, 2), 'x': num(r, -5, 5, shape2(r, 1, 5))}
    # an array is a sequence of offsets
    return a, lambda n, x: p.RollOperator(tuple(int(_) for _ in n))(x)


@entry
def coordinates(r):
    import pysimulators as p
    from astropy.time import Time

    n = int(r.integers(1, 5))
    jd = 2450000 + r.uniform(0, 3000, n)
    a = {'x': num(r, -1, 1, (n, 2)), 'lat': r.uniform(-60, 60), 'lon': r.uniform(-60, 60)}
    cls = [
        p.SphericalEquatorial2HorizontalOperator, p.SphericalHorizontal2EquatorialOperator,
    ][r.integers(2)]
    return a, lambda x, lat, lon: cls('NE', Time(jd, format='jd'), lat, lon)(x)


@entry
def galactic(r):
    import pysimulators as p

    c = [p.SphericalEquatorial2GalacticOperator, p.SphericalGalactic2EquatorialOperator]
    op = c[r.integers(2)](degrees=bool(r.integers(2)))
    return {'x': num(r, -1, 1, shape2(r, 1, 4) + (2,))}, lambda x: op(x)


@entry
def sparse_product(r):
    from pysimulators.sparse import FSCMatrix, FSRMatrix

    cls = [FSRMatrix, FSCMatrix][r.integers(2)]
    nout, nin, n = (int(_) for _ in r.integers(1, 5, 3))
    fix, var = (nout, nin) if cls is FSRMatrix else (nin, nout)
    kw = {'ncolmax' if cls is FSRMatrix else 'nrowmax': n}
    m = cls((nout, nin), dtype=float, dtype_index=['i4', 'i8'][r.integers(2)], **kw)
    m.data.index = r.integers(-1, var, (fix, n))
    m.data.value = r.uniform(-1, 1, (fix, n))
    a = {'v': num(r, -4, 4, nin), 'w': num(r, -4, 4, nout)}
    return a, lambda v, w: (m * as_array(v), as_array(w) * m, m.data['value'])


@entry
def sparse_data(r):
    from pysimulators.sparse import FSRMatrix

    nout, nin, n = (int(_) for _ in r.integers(1, 5, 3))
    x, y = r.uniform(-1, 1, nin), r.uniform(-1, 1, nout)
    a = {'index': r.integers(-1, nin, (nout, n)), 'value': num(r, -4, 4, (nout, n))}

    def call(index, value):
        m = FSRMatrix((nout, nin), ncolmax=n, dtype=float)
        m.data.index = index
        m.data.value = value
        return m * x, y * m

    return a, call


@entry
def backprojection(r):
    import pysimulators as p

    shape_in, shape, n = shape2(r, 1, 4), shape2(r, 1, 4), int(r.integers(1, 3))
    pm = p.PointingMatrix.zeros(shape + (n,), shape_in, verbose=False)
    pm['index'] = r.integers(-1, int(np.prod(shape_in)), pm.shape)
    pm['value'] = r.uniform(-1, 1, pm.shape)
    op = p.ProjectionInMemoryOperator(pm)
    a = {'x': num(r, -4, 4, shape_in), 'y': num(r, -4, 4, shape)}
    return a, lambda x, y: (op(x), op.T(y), op.get_pTp(), op.get_mask())


@entry
def quantity(r):
    from pysimulators import Quantity

    shape = shape2(r, 1, 4)
    a = {'x': num(r, 1, 5, shape), 'y': num(r, 1, 5, shape)}

    def call(x, y):
        a, b = Quantity(x, 'km', dtype=float), Quantity(y, 'm', dtype=float)
        return a + b, a * b, a.tounit('m'), np.sqrt(a), b.SI, a > b, a.sum(axis=0), b[0].T

    return a, call


@entry
def fits_map(r):
    from pysimulators import Map

    shape = shape2(r, 1, 4)
    a = {
        'x': num(r, 1, 5, shape), 'coverage': num(r, 1, 5, shape), 'error': num(r, 1, 5, shape),
    }

    def call(x, coverage, error):
        m = Map(x, coverage=coverage, error=error, unit='Jy', dtype=float)
        n = m[:, :1].astype(np.float32)
        return m, m.coverage, m.error, n, n.coverage, n.error, m.tounit('mJy'), m.header

    return a, call


@entry
def tod(r):
    from pysimulators import Tod

    shape = shape2(r, 1, 4)
    a = {'x': num(r, 1, 5, shape), 'mask': r.integers(0, 2, shape)}

    def call(x, mask):
        t = Tod(x, mask=mask, unit='V', dtype=float)
        return t, t.mask, t.sum(axis=0), t.max(), t[0].mask, t.ravel().mask, 2 * t

    return a, call


@entry
def layout(r):
    from pysimulators import Layout

    shape = shape2(r, 1, 4)
    a = {'vertex': num(r, -5, 5, shape + (4, 2)), 'ordering': r.permutation(
        shape[0] * shape[1]).reshape(shape) - 1}

    def call(vertex, ordering):
        x = Layout(shape, vertex=vertex, ordering=ordering)
        return x.center, x.vertex, x.all.center, x.index, len(x)

    return a, call


@entry
def layout_grid(r):
    from pysimulators import LayoutGridSquares

    shape = shape2(r, 1, 4)
    a = {
        'origin': num(r, -5, 5, 2), 'value': r.uniform(-5, 5, shape),
        'selection': r.integers(0, 2, shape),
    }

    def call(origin, value, selection):
        x = LayoutGridSquares(
            shape, 1.5, origin=origin, value=value, angle=20,
            selection=np.asarray(selection, bool),
        )
        return x.center, x.vertex, x.value, x.all.value, x.row, x.column, x.index

    return a, call


@entry
def table(r):
    from pysimulators import PackedTable

    n = int(r.integers(1, 6))
    a = {
        'selection': r.permutation(n)[: int(r.integers(1, n + 1))],
        'ordering': r.permutation(n), 'value': r.uniform(-5, 5, (n, 2)),
    }

    def call(selection, ordering, value):
        t = PackedTable(n, selection=selection, ordering=ordering, value=value)
        u = t[::-1]
        return t.value, t.all.value, t.index, t.removed, u.value, u.index, t.pack(value)

    return a, call


@entry
def sampling(r):
    import pysimulators as p

    n = int(r.integers(1, 6))
    a = {
        'azimuth': num(r, 0, 300, n), 'elevation': num(r, 20, 80, n), 'pitch': num(r, 0, 9, n),
        'masked': r.integers(0, 2, n),
    }

    def call(azimuth, elevation, pitch, masked):
        s = p.SamplingHorizontal(
            azimuth=azimuth, elevation=elevation, pitch=pitch, latitude=20.0, longitude=10.0,
            period=0.5, masked=np.asarray(masked, bool),
        )
        out = [s.azimuth, s.elevation, s.pitch, s.time, s.galactic, s.equatorial]
        # the samples that are masked are not in the pointing center
        return out + [s.get_center()] if not np.all(np.asarray(masked, bool)) else out

    return a, call


@entry
def sampling_time(r):
    import pysimulators as p

    n = int(r.integers(2, 6))
    a = {
        'ra': num(r, 0, 300, n), 'dec': num(r, 20, 80, n), 'pa': num(r, 0, 9, n),
        'time': np.cumsum(num(r, 1, 3, n)),
    }

    def call(ra, dec, pa, time):
        s = p.SamplingEquatorial(ra, dec, pa, time=time)
        return s.ra, s.dec, s.pa, s.time, s.period, s.galactic, s.get_center()

    return a, call


@entry
def beam(r):
    import pysimulators as p

    shape, b = shape2(r, 1, 4), p.BeamGaussian(1.0, backward=bool(r.integers(2)))
    a = {'theta': num(r, 0, 3, shape), 'phi': num(r, 0, 6, shape)}
    return a, lambda theta, phi: b(as_array(theta), as_array(phi))


@entry
def healpix(r):
    from pysimulators.interfaces import healpy as h

    shape, nside, nest = shape2(r, 1, 4), 2 ** int(r.integers(0, 4)), bool(r.integers(2))
    a = {
        'pix': r.integers(0, 12 * nside**2, shape).astype(float),
        'angles': r.uniform(0.1, 3, shape + (2,)),
        'vec': num(r, 1, 3, shape + (3,)),
    }
    ops = [
        h.Healpix2CartesianOperator(nside, nest=nest),
        h.Healpix2SphericalOperator(nside, 'azimuth,zenith', nest=nest),
        h.Spherical2HealpixOperator(nside, 'zenith,azimuth', nest=nest),
        h.Cartesian2HealpixOperator(nside, nest=nest),
    ]
    return a, lambda pix, angles, vec: [
        op(x) for op, x in zip(ops, (pix, pix, angles, vec))
    ]


@entry
def barycentric_scene(r):
    import pysimulators as p

    s = p.SceneGrid(shape2(r, 3, 6), startswith1=bool(r.integers(2)))
    v = r.uniform(0.2, 2.5, (int(r.integers(1, 4)), 4, 2))
    v = v[:, :1] + np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])

    def call(vertices):
        op = s.get_integration_operator(as_array(vertices))
        return op.matrix.data['index'], op.matrix.data['value']

    return {'vertices': v}, call


def as_array(x):
    """For the arguments that are documented to be arrays."""
    return np.asarray(x)


REPRESENTATIONS = [
    'C', 'F', 'list', 'strided', 'reversed', 'readonly', 'big', 'unaligned', 'integer',
    'subclass', 'tuple', 'swapped', 'record',
]


class Other(np.ndarray):
    """A subclass that is not known."""


def represent(a, how):
    a = np.asarray(a)
    out = np.array(a)
    if how == 'F':
        out = np.array(a, order='F')
    elif how == 'record' and a.ndim:
        # a view in packed records, possibly not aligned
        b = np.zeros(a.shape[0], [('x', a.dtype, a.shape[1:]), ('y', 'i4')])
        out = b['x']
        out[...] = a
    elif how in ('list', 'tuple'):
        out = a.tolist()
        if how == 'tuple' and isinstance(out, list):
            out = tuple(out)
    elif how == 'strided' and a.ndim:
        out = np.full([3 * n for n in a.shape], 99, a.dtype)[(slice(1, None, 3),) * a.ndim]
        out[...] = a
    elif how == 'reversed' and a.ndim:
        out = np.empty(a.shape, a.dtype)[(slice(None, None, -1),) * a.ndim]
        out[...] = a
    elif how == 'swapped' and a.ndim > 1:
        out = np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    elif how == 'readonly':
        out.flags.writeable = False
    elif how == 'big':
        out = a.astype(a.dtype.newbyteorder('>'))
    elif how == 'unaligned':
        b = np.zeros(a.nbytes + 1, np.uint8)
        out = b[1:].view(a.dtype).reshape(a.shape)
        out[...] = a
    elif how == 'integer' and a.size and np.all(a == np.round(a)):
        out = a.astype(np.int32)
    elif how == 'subclass' and a.ndim:
        out = out.view(Other)
    return out


def flat(x, path='result'):
    """List of path, values and unit."""
    from astropy.io.fits import Header
    from astropy.time import Time

    if isinstance(x, Header):
        return [(path, np.array(repr(x)), None)]
    if isinstance(x, Time):
        return [(path, np.array(x.jd), None)]
    if isinstance(x, np.ndarray) and x.dtype.names:
        return [_ for n in x.dtype.names for _ in flat(x[n], f'{path}.{n}')]
    if isinstance(x, (list, tuple)):
        return [_ for i, y in enumerate(x) for _ in flat(y, f'{path}[{i}]')]
    return [(path, np.array(np.asarray(x)), getattr(x, 'unit', None))]


def frozen(x):
    return (x.dtype, x.shape, x.strides, x.tobytes()) if isinstance(x, np.ndarray) else repr(x)


def state():
    from pysimulators import units

    return {
        'the random generator': repr(np.random.get_state()),
        'the working directory': os.getcwd(),
        'the files of the working directory': sorted(os.listdir('.')),
        'the floating point settings': repr(np.geterr()),
        'the print options': repr(np.get_printoptions()),
        'the table of the units': repr(
            [(k, v, getattr(v, 'unit', None), getattr(v, '_derived_units', None))
             for k, v in units.items() if not callable(v)]
        ),
        'the warning filters': len(warnings.filters),
    }


def compare(actual, expected, what, exact=False):
    require(
        [_[0] for _ in actual] == [_[0] for _ in expected], f'{what}: another structure'
    )
    for (path, a, u), (_, e, v) in zip(actual, expected):
        require(u == v, f'{what}: {path} has the unit {u} instead of {v}')
        require(a.shape == e.shape, f'{what}: {path} has the shape {a.shape}, not {e.shape}')
        if a.dtype.kind not in 'fciub' or exact:
            # NaN values are the same
            ok = np.array_equal(a, e, equal_nan=a.dtype.kind in 'fc')
        else:
            scale = np.max(np.abs(e), initial=0, where=np.isfinite(e))
            rtol = max([1e-11] + [16 * np.finfo(_).eps for _ in (a.dtype, e.dtype) if _.kind in 'fc'])
            ok = np.allclose(a, e, rtol=rtol, atol=rtol * scale, equal_nan=True)
        require(ok, lambda: f'{what}: {path} is {a.tolist()} instead of {e.tolist()}')


def fresh(case):
    return ENTRIES[case['name']](gen.rng(case['seed']))


@st.composite
def cases(draw):
    return {
        'name': draw(st.sampled_from(sorted(ENTRIES))),
        'seed': draw(gen.seeds()),
        'how': draw(st.lists(st.sampled_from(REPRESENTATIONS), min_size=4, max_size=4)),
    }


@sub(cases(), quick=2500, thorough=40000, nontrivial=lambda c: set(c['how']) != {'C'})
def representations(case):
    """Same results for any representation, and the arguments are not modified."""
    args, call = fresh(case)
    expected = flat(call(**{k: np.array(v) for k, v in args.items()}))
    given = {k: represent(v, h) for (k, v), h in zip(args.items(), case['how'])}
    how = ', '.join(f'{k}: {h}' for k, h in zip(args, case['how']))
    what = f'{case["name"]} ({how})'
    frozens = {k: frozen(v) for k, v in given.items()}
    before = state()
    try:
        result = call(**given)
    except Exception as error:
        fail(f'{what}: {error!r}')
    actual = flat(result)
    for k, v in given.items():
        require(frozen(v) == frozens[k], f'{what}: the argument {k} is modified')
    after = state()
    for k in before:
        require(before[k] == after[k], f'{what}: {k} has changed')
    compare(actual, expected, what)


@st.composite
def histories(draw):
    calls = draw(st.lists(cases(), min_size=2, max_size=5))
    return {'calls': calls, 'modify': draw(st.booleans())}


def overwrite(x):
    """Modify a result in place, when it is not a view of something that is kept."""
    if isinstance(x, (list, tuple)):
        for y in x:
            overwrite(y)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'fiu':
        np.asarray(x)[...] = 0


@sub(histories(), quick=400, thorough=8000, nontrivial=lambda c: len(c['calls']) > 2)
def repeated(case):
    """The calls of a sequence have the results of the same calls in another order."""
    first = []
    for c in case['calls']:
        args, call = fresh(c)
        result = call(**{k: represent(v, h) for (k, v), h in zip(args.items(), c['how'])})
        first.append(flat(result))
        if case['modify']:
            # the arguments and the results are not used anymore
            overwrite(result)
    for c, e in list(zip(case['calls'], first))[::-1]:
        args, call = fresh(c)
        result = call(**{k: represent(v, h) for (k, v), h in zip(args.items(), c['how'])})
        compare(flat(result), e, f'{c["name"]}, called again')
        again = call(**{k: represent(v, h) for (k, v), h in zip(args.items(), c['how'])})
        compare(flat(again), e, f'{c["name"]}, called twice')

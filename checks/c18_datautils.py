"""C18: images and profiles of the data utilities against their definitions."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, require, sub

D = 'src/pysimulators/datautils.py'
F = 'src/flib/datautils.f90.j2'
PROPERTY = dict(
    title='Distance, gaussian, Airy, aperture and profile images match their definition',
    statement=(
        'For any shape, center, pixel scale and floating-point type, distance, distance2, '
        'gaussian, airy_disk, aperture_circular and phasemask_fourquadrant give every pixel '
        'the value of their definition. The profile of an image is the mean of its finite '
        'pixels in each annulus, the integrated profile is their cumulated sum, and the '
        'two-dimensional power spectrum of an image integrates to its mean square, with its '
        'zero frequency in the first bin of its profile.'
    ),
    over=['inputs', 'configurations'],
    text='every shape, center, scale, bin and data type',
    why=(
        'The tests use one or two shapes per function; the results depend on the number of '
        'dimensions, the precision, the buffers, the invalid pixels and the empty bins.'
    ),
    files=[D, F],
    mechanism=[
        ('distance, distance2, gaussian, airy_disk, aperture_circular', D),
        ('profile, integrated_profile, psd2, profile_psd2', D),
        ('distance_2d, gaussian_2d, profile_axisymmetric_2d', F),
    ],
)
RULE = (
    'A case is an image specification; it is non-trivial when the image has several rows '
    'and columns and its center is not the default one or the scale is not one.'
)


@st.composite
def grids(draw, dims=(1, 2, 2, 3, 4)):
    ndim = draw(st.sampled_from(dims))
    high = 9 if ndim < 3 else 5
    shape = tuple(draw(st.integers(1, high)) for _ in range(ndim))
    if ndim < 3 and draw(gen.rarely()):
        shape = (*shape[:-1], draw(st.sampled_from([40, 70, 130])))
        shape = tuple(draw(st.permutations(shape)))
    center = draw(
        st.one_of(
            st.none(),
            st.lists(st.integers(-12, 40), min_size=ndim, max_size=ndim).map(
                lambda _: [v / 4 for v in _]
            ),
        )
    )
    scale = draw(
        st.one_of(
            st.sampled_from([None, 1, 0.5, 3.0]),
            st.lists(
                st.sampled_from([0.25, 1.0, 2.0, 3.0]), min_size=ndim, max_size=ndim
            ),
        )
    )
    return {
        'shape': shape,
        'center': center,
        'scale': scale,
        'dtype': draw(st.sampled_from(['f8', 'f8', 'f4', 'f2', 'g'])),
        'array': draw(st.booleans()),
        'fwhm': draw(st.integers(1, 30)) / 4,
        'seed': draw(st.integers(0, 2**31)),
    }


def nontrivial(c):
    return (
        len(c['shape']) > 1
        and min(c['shape']) > 1
        and (c['center'] is not None or c['scale'] not in (None, 1))
    )


def squared(case, scaled=True):
    """The coordinates with respect to the center, along each dimension."""
    shape = case['shape']
    center = case['center']
    if center is None:
        center = [(n - 1) / 2 for n in shape[::-1]]
    scale = case['scale'] if scaled else None
    if scale is None:
        scale = 1
    if np.ndim(scale) == 0:
        scale = [scale] * len(shape)
    coords = np.meshgrid(*[np.arange(n) for n in shape], indexing='ij')
    return [((x - c) * s) ** 2 for x, c, s in zip(coords, center[::-1], scale[::-1])]


def keywords(case, scale=True):
    kw = {}
    if case['center'] is not None:
        kw['center'] = np.array(case['center']) if case['array'] else case['center']
    if scale and case['scale'] is not None:
        kw['scale'] = case['scale']
        if case['array'] and np.ndim(case['scale']):
            kw['scale'] = np.array(case['scale'])
    return kw


def same(actual, expected, dtype, what, factor=8, scale=None):
    actual = np.asarray(actual)
    require(actual.dtype == dtype, lambda: f'{what}: type {actual.dtype}, not {dtype}')
    require(
        actual.shape == np.shape(expected),
        lambda: f'{what}: shape {actual.shape} instead of {np.shape(expected)}',
    )
    eps = max(float(np.finfo(dtype).eps), float(np.finfo(float).eps)) * factor
    atol = eps * (1e-300 if scale is None else scale)
    if np.dtype(dtype) == np.float16:
        atol = max(atol, 1e-7)
    require(
        np.allclose(
            actual.astype(float), np.asarray(expected, float), rtol=eps, atol=atol
        ),
        lambda: f'{what}: {actual.tolist()} instead of {np.asarray(expected).tolist()}',
    )


@sub(grids, quick=300, thorough=10000, nontrivial=nontrivial)
def distances(case):
    """distance and distance2, with and without output buffer or unit."""
    from pysimulators import Quantity
    from pysimulators.datautils import distance, distance2

    shape, dtype = case['shape'], np.dtype(case['dtype'])
    kw = keywords(case)
    expected2 = sum(squared(case))
    for func, expected in (distance, np.sqrt(expected2)), (distance2, expected2):
        name = func.__name__
        actual = func(shape, dtype=dtype, **kw)
        same(actual, expected, dtype, name)
        require(not actual.unit, lambda: f'{name}: unit {actual.unit}')
        out = np.full(shape, 7, dtype)
        res = func(shape, dtype=dtype, out=out, **kw)
        same(out, expected, dtype, f'{name} in a buffer')
        require(np.shares_memory(res, out), f'{name} does not return the buffer')
        if len(shape) == 1:
            res = func(shape[0], dtype=dtype, **kw)
            same(res, expected, dtype, f'{name} of an integer shape')
    if case['scale'] is not None:
        kw['scale'] = Quantity(case['scale'], 'arcsec')
        actual = distance(shape, dtype=dtype, **kw)
        same(actual, np.sqrt(expected2), dtype, 'distance with a unit')
        require(actual.unit == 'arcsec', lambda: f'distance: unit {actual.unit}')
        actual = distance2(shape, dtype=dtype, **kw)
        same(actual, expected2, dtype, 'distance2 with a unit')
        require(actual.unit == 'arcsec^2', lambda: f'distance2: unit {actual.unit}')


@sub(grids, quick=300, thorough=10000, nontrivial=nontrivial)
def gaussians(case):
    """gaussian in any number of dimensions, from its sigma or its FWHM."""
    from pysimulators.datautils import gaussian

    shape, dtype = case['shape'], np.dtype(case['dtype'])
    scale = case['scale'] if case['scale'] is not None else 1.5
    sigma = np.broadcast_to(np.asarray(scale, float), (len(shape),))
    d2 = squared(case, scaled=False)
    exponent = sum(x / (2 * s**2) for x, s in zip(d2, sigma[::-1]))
    discard(np.max(exponent) > 80)
    expected = np.exp(-exponent) / np.prod(np.sqrt(2 * np.pi) * sigma)
    kw = keywords(case, scale=False)
    factor = 16 + 8 * np.max(exponent)
    value = sigma.copy() if np.ndim(scale) and case['array'] else scale
    same(
        gaussian(shape, sigma=value, dtype=dtype, **kw), expected, dtype, 'sigma', factor
    )
    ratio = np.sqrt(8 * np.log(2))
    value = [v * ratio for v in scale] if np.ndim(scale) else scale * ratio
    if np.ndim(value):
        value = np.array(value) if case['array'] else value
    actual = gaussian(shape, fwhm=value, dtype=dtype, **kw)
    same(actual, expected, dtype, 'fwhm', factor)


@st.composite
def images(draw):
    case = draw(grids(dims=(2,)))
    case['dtype'] = draw(st.sampled_from(['f8', 'f4']))
    return case


@sub(images, quick=200, thorough=6000, nontrivial=nontrivial)
def masks(case):
    """airy_disk, aperture_circular and phasemask_fourquadrant."""
    from scipy.special import j1

    from pysimulators import Quantity
    from pysimulators.datautils import (
        airy_disk,
        aperture_circular,
        phasemask_fourquadrant,
    )

    shape, dtype = case['shape'], np.dtype(case['dtype'])
    kw = keywords(case)
    d = np.sqrt(sum(squared(case)))
    for name, zero in ('fwhm', 1.61633 / (case['fwhm'] / 2)), (
        'r0',
        3.8317 / case['fwhm'],
    ):
        x = d * zero
        with np.errstate(invalid='ignore', divide='ignore'):
            expected = np.where(x == 0, 1, (2 * j1(x) / x) ** 2)
        expected /= np.sum(expected)
        actual = airy_disk(shape, dtype=dtype, **{name: case['fwhm']}, **kw)
        # the dark rings are only known to the accuracy of the distances
        scale = np.max(expected) * (1 + np.max(x))
        same(actual, expected, dtype, f'airy_disk({name})', 64, scale)
        if case['scale'] is not None:
            quantities = {name: Quantity(case['fwhm'], 'arcsec')}
            quantities['scale'] = Quantity(case['scale'], 'arcsec')
            actual = airy_disk(shape, dtype=dtype, **{**kw, **quantities})
            same(actual, expected, dtype, f'airy_disk({name}) with units', 64, scale)
            require(not actual.unit, lambda: f'airy_disk: unit {actual.unit}')
    kind = case['seed'] % 4
    mask_dtype = [dtype, np.dtype(bool), np.dtype('i2'), dtype][kind]
    actual = np.asarray(aperture_circular(shape, case['fwhm'], dtype=mask_dtype, **kw))
    require(actual.dtype == mask_dtype, lambda: f'aperture of type {actual.dtype}')
    require(
        np.array_equal(actual, d**2 <= (case['fwhm'] / 2) ** 2),
        lambda: f'aperture {actual.tolist()} for the distances {d.tolist()}',
    )
    if case['scale'] is not None:
        kw['scale'] = Quantity(case['scale'], 'arcsec')
        expected = actual
        for diameter in Quantity(case['fwhm'], 'arcsec'), Quantity(
            np.deg2rad(case['fwhm'] / 3600), 'rad'
        ):
            actual = aperture_circular(shape, diameter, dtype=mask_dtype, **kw)
            require(
                diameter.unit == 'rad'
                and np.any(abs(d - case['fwhm'] / 2) < 1e-6)
                or np.array_equal(actual, expected),
                lambda: f'aperture with units: {actual.tolist()} not {expected.tolist()}',
            )
    phase = [-1, 1j, 0.5][case['seed'] % 3]
    actual = np.asarray(phasemask_fourquadrant(shape, phase))
    y, x = np.ogrid[: shape[0], : shape[1]]
    expected = np.where((y < shape[0] // 2) == (x < shape[1] // 2), 1, phase)
    require(
        np.array_equal(actual, expected.astype(complex)),
        lambda: f'phase mask {actual.tolist()}',
    )


@st.composite
def profiles(draw):
    case = draw(grids(dims=(2,)))
    case['dtype'] = draw(st.sampled_from(['f8', 'f4', 'i4', 'f2']))
    case['scale'] = draw(st.sampled_from([None, 1, 0.5, 4.0]))
    case['bin'] = draw(st.sampled_from([None, 0.5, 1, 2, 3]))
    case['nbins'] = draw(st.sampled_from([None, 1, 4, 20]))
    case['nan'] = draw(st.sampled_from([0, 0, 0.3, 1]))
    case['order'] = draw(st.sampled_from(['c', 'f', 'strided']))
    return case


@sub(profiles, quick=250, thorough=8000, nontrivial=nontrivial)
def annuli(case):
    """profile and integrated_profile."""
    from pysimulators.datautils import integrated_profile, profile

    shape = case['shape']
    r = gen.rng(case['seed'])
    image = r.integers(-20, 20, shape).astype(case['dtype'])
    if image.dtype.kind == 'f':
        image[r.random(shape) < case['nan']] = np.nan
    if case['order'] == 'f':
        image = np.asfortranarray(image)
    elif case['order'] == 'strided':
        full = np.zeros((shape[0], 2 * shape[1]), image.dtype)
        full[:, ::2] = image
        image = full[:, ::2]
    scale = 1 if case['scale'] is None else case['scale']
    bin = 1 if case['bin'] is None else case['bin']
    kw = keywords(case)
    for key in 'bin', 'nbins':
        if case[key] is not None:
            kw[key] = case[key]
    d = np.sqrt(sum(squared(case, scaled=False))) * scale
    index = np.floor(d / bin).astype(int)
    if case['nbins'] is None:
        cx, cy = case['center'] or [(n - 1) / 2 for n in shape[::-1]]
        extent = max(shape[0] - cy, cy, shape[1] - cx, cx)
        nbins = int(extent * scale / bin)
    else:
        nbins = case['nbins']
    discard(nbins == 0)
    valid = ~np.isnan(image)
    work = np.float32 if image.dtype == np.float32 else np.float64
    x, y, n = profile(image, histogram=True, **kw)
    require(
        len(x) == len(y) == len(n) == nbins, lambda: f'{len(x)} bins instead of {nbins}'
    )
    ex, ey, en = np.zeros(nbins), np.full(nbins, np.nan), np.zeros(nbins, int)
    for i in range(nbins):
        mask = (index == i) & valid
        en[i] = np.sum(mask)
        ex[i] = np.mean(d[mask]) if en[i] else (i + 0.5) * bin
        if en[i]:
            ey[i] = np.mean(image[mask].astype(float))
    require(np.array_equal(n, en), lambda: f'histogram {n} instead of {en}')
    eps = 64 * np.finfo(work if case['dtype'] == 'f4' else np.float32).eps
    if case['dtype'] in ('f8', 'i4'):
        eps = 1e-13
    require(
        np.allclose(x, ex, rtol=eps, atol=0), lambda: f'abscissae {x} instead of {ex}'
    )
    require(
        np.allclose(y, ey, rtol=eps, atol=20 * eps, equal_nan=True),
        lambda: f'profile {y} instead of {ey}',
    )
    x2, y2 = profile(image, **kw)
    require(
        np.array_equal(x, x2) and np.array_equal(y, y2, equal_nan=True),
        'the profile depends on the histogram keyword',
    )
    x, y = integrated_profile(image, **kw)
    ex = np.arange(1, nbins + 1) * bin
    ey = [np.sum(image[(d < v) & valid].astype(float)) * scale**2 for v in ex]
    require(np.allclose(x, ex), lambda: f'boundaries {x} instead of {ex}')
    require(
        np.allclose(y, ey, rtol=eps, atol=eps * 20 * image.size * scale**2),
        lambda: f'integrated profile {y} instead of {ey}',
    )


@st.composite
def spectra(draw):
    n = draw(st.integers(2, 9))
    square = draw(st.booleans())
    return {
        'shape': (n, n if square else draw(st.integers(2, 9))),
        'fs': draw(st.sampled_from([0.5, 1, 4.0])),
        'kind': draw(st.sampled_from(['real', 'complex', 'wave', 'constant'])),
        'k': (draw(st.integers(0, 8)), draw(st.integers(0, 8))),
        'seed': draw(st.integers(0, 2**31)),
    }


@sub(
    spectra,
    quick=120,
    thorough=3000,
    nontrivial=lambda c: c['kind'] != 'constant',
)
def power(case):
    """psd2 by its definition, Parseval's identity and the profile of the spectrum."""
    from pysimulators.datautils import profile_psd2, psd2

    shape, fs = case['shape'], case['fs']
    r = gen.rng(case['seed'])
    y, x = np.meshgrid(*[np.arange(n) for n in shape], indexing='ij')
    image = r.integers(-9, 9, shape) / 1.0
    if case['kind'] == 'complex':
        image = image + 1j * r.integers(-9, 9, shape)
    elif case['kind'] == 'wave':
        ky, kx = case['k']
        image = np.exp(2j * np.pi * (ky * y / shape[0] + kx * x / shape[1]))
    elif case['kind'] == 'constant':
        image = np.full(shape, 3.0)
    psd = np.asarray(psd2(image, sampling_frequency=fs))
    require(psd.shape == shape, lambda: f'spectrum of shape {psd.shape}')
    area = fs**2 / image.size
    power_ = np.sum(np.abs(image) ** 2)
    require(
        np.allclose(np.sum(psd) * area, np.mean(np.abs(image) ** 2), rtol=1e-11),
        lambda: f'integral {np.sum(psd) * area}',
    )
    expected = np.empty(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            ky, kx = i - shape[0] // 2, j - shape[1] // 2
            wave = np.exp(-2j * np.pi * (ky * y / shape[0] + kx * x / shape[1]))
            expected[i, j] = np.abs(np.sum(image * wave)) ** 2
    expected /= image.size * fs**2
    require(
        np.allclose(psd, expected, rtol=1e-9, atol=1e-10 * (power_ / fs**2 + 1)),
        lambda: f'spectrum {psd.tolist()} instead of {expected.tolist()}',
    )
    if shape[0] != shape[1]:
        try:
            profile_psd2(image)
        except ValueError:
            return
        require(False, 'profile_psd2 accepts a rectangular image')
    n = shape[0]
    f, p = profile_psd2(image, sampling_frequency=fs)
    k = np.arange(n) - n // 2
    d = np.sqrt(np.add.outer(k**2, k**2))
    for i in range(len(p)):
        mask = np.floor(d) == i
        require(
            np.allclose(p[i], np.mean(expected[mask]), rtol=1e-8, atol=1e-9 * (power_ + 1)),
            lambda: f'bin {i} of the spectrum profile: {p} (zero frequency: {expected[n // 2, n // 2]})',
        )
        require(
            np.allclose(f[i], np.mean(d[mask]) * fs / n),
            lambda: f'frequency of the bin {i}: {f}',
        )
    require(len(p) >= n // 2, lambda: f'{len(p)} bins for {n} frequencies')

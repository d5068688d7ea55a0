"""C14: Healpix pixel transforms, convolutions, laplacian, scenes and beams."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

F = 'src/pysimulators/interfaces/healpy/operators.py'
S = 'src/pysimulators/interfaces/healpy/scenes.py'
B = 'src/pysimulators/beams.py'
PROPERTY = dict(
    title='Healpix transforms, convolution, laplacian, scenes and beams are exact',
    statement=(
        'For every nside, numbering, angle convention and input shape, Healpix pixels are '
        'converted into the direction of their center and directions into the pixel containing '
        'them, inversely over pixels, also after operator simplification. The Gaussian '
        'convolution damps each multipole l by exp(-l(l+1) sigma^2 / 2), given by fwhm or sigma, '
        'in-place or not and for polarized maps, and the laplacian is a symmetric 9-point stencil '
        'which cancels constants and multiplies a multipole l by about -l(l+1). Gaussian beams '
        'fall to one half at half the fwhm, and Healpix CMB scenes convert temperatures into '
        'power with the Planck law or its derivative.'
    ),
    over=['inputs', 'configurations'],
    text='every nside, pixel or direction, numbering, convention, map and convolution width',
    why=(
        'The tests use one nside and a few pixels; schemes, conventions, memory layouts and '
        'convolution keywords are not crossed and no test states what a multipole becomes.'
    ),
    files=[F, S, B],
    mechanism=[
        ('Healpix2CartesianOperator ... Spherical2HealpixOperator', F),
        ('HealpixConvolutionGaussianOperator, HealpixLaplacianOperator', F),
        ('SceneHealpix, SceneHealpixCMB.get_unit_conversion_operator', S),
        ('BeamGaussian', B),
    ],
)
RULE = (
    'A case is a Healpix resolution, scheme and convention with pixels or a map; it is '
    'non-trivial when it has several pixels, and a non-zero width for convolutions.'
)
CONVENTIONS = (
    'zenith,azimuth',
    'azimuth,zenith',
    'elevation,azimuth',
    'azimuth,elevation',
)


def center(nside, pix, nest):
    """(z, phi) of the center of a pixel, from the definition of the pixelization."""
    npix = 12 * nside**2
    if nest:
        face, p = divmod(pix, nside**2)
        x = sum(((p >> (2 * b)) & 1) << b for b in range(30))
        y = sum(((p >> (2 * b + 1)) & 1) << b for b in range(30))
        jr = (2 + face // 4) * nside - x - y - 1
        jp0 = (2 * (face % 4) + (1 if face // 4 != 1 else 0))
        shift = 0
        if jr < nside:
            nr = jr
            z = 1 - nr**2 / (3 * nside**2)
        elif jr > 3 * nside:
            nr = 4 * nside - jr
            z = nr**2 / (3 * nside**2) - 1
        else:
            nr = nside
            z = (2 * nside - jr) * 2 / (3 * nside)
            shift = (jr - nside) & 1
        jp = (jp0 * nr + x - y + 1 + shift) // 2
        return z, (jp - (shift + 1) * 0.5) * math.pi / (2 * nr) % (2 * math.pi)
    ncap = 2 * nside * (nside - 1)
    if pix < ncap:
        i = (1 + math.isqrt(1 + 2 * pix)) // 2
        j = pix + 1 - 2 * i * (i - 1)
        return 1 - i**2 / (3 * nside**2), (j - 0.5) * math.pi / (2 * i)
    if pix < npix - ncap:
        i, j = divmod(pix - ncap, 4 * nside)
        i, j = i + nside, j + 1
        odd = 1 if (i + nside) % 2 else 0.5
        return (2 * nside - i) * 2 / (3 * nside), (j - odd) * math.pi / (2 * nside)
    q = npix - pix
    i = (1 + math.isqrt(2 * q - 1)) // 2
    j = 4 * i + 1 - (q - 2 * i * (i - 1))
    return -1 + i**2 / (3 * nside**2), (j - 0.5) * math.pi / (2 * i)


SHAPES = ((), (1,), (3,), (7,), (2, 3), (1, 2, 2), (0,))


@st.composite
def pixel_cases(draw):
    nside = 2 ** draw(st.integers(0, 10))
    shape = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shape))
    npix = 12 * nside**2
    pix = draw(
        st.lists(
            st.one_of(
                st.integers(0, npix - 1),
                st.sampled_from([0, npix - 1, 2 * nside * (nside - 1), npix // 2]),
            ),
            min_size=n,
            max_size=n,
        )
    )
    return {
        'nside': nside,
        'nest': draw(st.booleans()),
        'pix': np.array(pix, int).reshape(shape),
        'itype': draw(st.sampled_from(['i4', 'i8', 'f8', 'u4'])),
        'convention': draw(st.sampled_from(CONVENTIONS)),
        'spaces': draw(st.booleans()),
        'layout': draw(st.sampled_from(['c', 'f', 'strided'])),
        'norm': draw(st.sampled_from([1, 1, 0.25, 8])),
        'seed': draw(gen.seeds()),
        'default': draw(st.booleans()),
    }


def scheme(case):
    """The ring scheme is the default one."""
    return {} if case['default'] and not case['nest'] else {'nest': case['nest']}


def check_shapes(op, case, shapein, shapeout):
    """The shapes are propagated in the compositions."""
    from pyoperators import DiagonalOperator

    require(
        (op.nside, op.nest) == (case['nside'], case['nest']),
        lambda: f'nside={op.nside} nest={op.nest}',
    )
    if min(np.prod(shapein), np.prod(shapeout)) < 2 or not shapein or not shapeout:
        return  # the diagonal operators are homotheties, without an explicit shape
    left, right = (
        DiagonalOperator(np.arange(1.0, np.prod(s) + 1).reshape(s))
        for s in (shapeout, shapein)
    )
    for o in left(op), op(right):
        require(
            o.shapein == shapein and o.shapeout == shapeout,
            lambda: f'the shapes are {o.shapein} and {o.shapeout}',
        )


def several(case):
    return case['pix'].size > 1


def lay_out(a, layout):
    a = np.asarray(a)
    if layout == 'f':
        return np.array(a, order='F')
    if layout == 'strided' and a.ndim:
        b = np.full(tuple(2 * _ for _ in a.shape), 9, a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


def directions(case):
    d = [center(case['nside'], int(p), case['nest']) for p in case['pix'].ravel()]
    zphi = np.array(d, float).reshape(case['pix'].shape + (2,))
    return zphi[..., 0], zphi[..., 1]


def to_cartesian(theta, phi):
    return np.stack(
        [np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)], -1
    )


def to_convention(theta, phi, convention):
    angle = np.pi / 2 - theta if 'elevation' in convention else theta
    return np.stack(
        [phi, angle] if convention.startswith('azimuth') else [angle, phi], -1
    )


@sub(pixel_cases, quick=400, thorough=8000, nontrivial=several)
def pixel_centers(case):
    """Pixels are converted into the cartesian or spherical direction of their center."""
    from pysimulators.interfaces.healpy import (
        Healpix2CartesianOperator,
        Healpix2SphericalOperator,
    )

    nside, nest, conv = case['nside'], case['nest'], case['convention']
    z, phi = directions(case)
    theta = np.arccos(z)
    pix = lay_out(case['pix'].astype(case['itype']), case['layout'])
    op = Healpix2CartesianOperator(nside, **scheme(case))
    check_shapes(op, case, pix.shape, pix.shape + (3,))
    v = op(pix)
    r = np.sqrt((1 - z) * (1 + z))
    e = np.stack([r * np.cos(phi), r * np.sin(phi), z], -1)
    require(gen.close(v, e, 1e-7, 1), lambda: f'vector {v.tolist()} instead of {e.tolist()}')
    name = conv.replace(',', ', ').upper() if case['spaces'] else conv
    sop = Healpix2SphericalOperator(nside, name, **scheme(case))
    check_shapes(sop, case, pix.shape, pix.shape + (2,))
    a = sop(pix)
    require(a.shape == e.shape[:-1] + (2,), 'invalid shape of the angles')
    i = 1 if conv.startswith('azimuth') else 0
    t = a[..., i]
    t = np.pi / 2 - t if 'elevation' in conv else t
    d = to_cartesian(t, a[..., 1 - i]) - e
    require(np.all(abs(d) < 1e-7), lambda: f'{conv}: {a.tolist()} for {theta, phi}')
    out = lay_out(np.full(a.shape, 3.0), case['layout'])
    sop(pix, out)
    require(np.array_equal(out, a), 'the supplied output differs')
    out = lay_out(np.full(v.shape, 3.0), case['layout'])
    op(pix, out)
    require(np.array_equal(out, v), 'the supplied output differs')
    for name, o, d in ('vectors', op, v), ('angles', sop, a):
        back = o.I(d)
        require(
            np.array_equal(back, pix),
            lambda: f'the {name} are in the pixels {back.tolist()}',
        )
        if 'nest' in scheme(case):
            require(bool(o.I.nest) == bool(nest), 'the inverse has another scheme')
        require(o.I.nside == nside, 'the inverse has another nside')


@sub(pixel_cases, quick=400, thorough=8000, nontrivial=several)
def pixels_of_directions(case):
    """Directions inside a pixel are converted into it; the round trip is the identity."""
    from pysimulators.interfaces.healpy import (
        Cartesian2HealpixOperator,
        Spherical2HealpixOperator,
    )

    nside, nest, conv = case['nside'], case['nest'], case['convention']
    z, phi = directions(case)
    theta = np.arccos(z)
    # an offset along the meridian which remains in the pixel
    r = gen.rng(case['seed'])
    theta = theta + r.uniform(-0.2, 0.2, theta.shape) / nside
    theta = np.clip(theta, 0, np.pi)
    vec = lay_out(to_cartesian(theta, phi) * case['norm'], case['layout'])
    pix = case['pix']
    cop = Cartesian2HealpixOperator(nside, **scheme(case))
    check_shapes(cop, case, pix.shape + (3,), pix.shape)
    p = cop(vec)
    require(
        p.shape == pix.shape and np.array_equal(p, pix),
        lambda: f'pixels {p.tolist()} instead of {pix.tolist()}',
    )
    name = conv.replace(',', ' , ') if case['spaces'] else conv
    sop = Spherical2HealpixOperator(nside, name, **scheme(case))
    check_shapes(sop, case, pix.shape + (2,), pix.shape)
    ang = lay_out(to_convention(theta, phi, conv), case['layout'])
    before = ang.copy()
    p = sop(ang)
    require(
        p.shape == pix.shape and np.array_equal(p, pix),
        lambda: f'{conv}: pixels {p.tolist()} instead of {pix.tolist()}',
    )
    require(np.array_equal(ang, before), 'the input angles have been modified')
    for op in cop, sop:
        out = op.I(pix.astype(float))
        p = op(out)
        require(np.array_equal(p, pix), lambda: f'round trip: {p.tolist()}')
        p = op(op.I)(pix.astype(float))
        require(np.array_equal(p, pix), lambda: f'simplified: {p.tolist()}')


@st.composite
def composition_cases(draw):
    return {
        'nside': [2 ** draw(st.integers(0, 4)) for _ in range(2)],
        'nest': [draw(st.booleans()) for _ in range(2)],
        'convention': [draw(st.sampled_from(CONVENTIONS[:2])) for _ in range(2)],
        'cartesian': draw(st.booleans()),
        'same': draw(st.sampled_from(['', 'nside', 'nside', 'nest', 'convention'])),
        'pix': draw(st.integers(0, 11)),
    }


@sub(composition_cases, quick=200, thorough=3000)
def compositions(case):
    """Composed transforms of any parameters act as the transforms in sequence."""
    from pysimulators.interfaces import healpy as hpi

    c = {k: list(v) if isinstance(v, list) else v for k, v in case.items()}
    # share all the parameters but one
    for k in 'nside', 'nest', 'convention':
        if case['same'] and k != case['same']:
            c[k][1] = c[k][0]
    pix = np.arange(12.0) if min(c['nside']) == 1 else np.arange(48.0)
    if case['cartesian']:
        o1 = hpi.Healpix2CartesianOperator(c['nside'][0], nest=c['nest'][0])
        o2 = hpi.Cartesian2HealpixOperator(c['nside'][1], nest=c['nest'][1])
    else:
        o1 = hpi.Healpix2SphericalOperator(
            c['nside'][0], c['convention'][0], nest=c['nest'][0]
        )
        o2 = hpi.Spherical2HealpixOperator(
            c['nside'][1], c['convention'][1], nest=c['nest'][1]
        )
    with np.errstate(all='ignore'):
        try:
            e = o2(o1(pix))
        except ValueError:
            return  # angles out of bounds after a change of convention
        p = o2(o1)(pix)
    require(np.array_equal(e, p), lambda: f'composition {p.tolist()}, not {e.tolist()}')


@st.composite
def convolution_cases(draw):
    nside = draw(st.sampled_from([4, 8, 16]))
    npol = draw(st.sampled_from([None, None, 1, 2, 3]))
    pol = npol != 2 and draw(st.sampled_from([True, True, False]))
    # healpy ignores lmax for independent maps
    independent = not pol and (npol or 0) > 1
    return {
        'nside': nside,
        'fwhm': draw(st.floats(0.02, 1)),
        'by': draw(st.sampled_from(['fwhm', 'sigma'])),
        'npol': npol,
        'pol': pol,
        'mode': draw(st.sampled_from(['new', 'out', 'inplace'])),
        'iter': draw(st.sampled_from([3, 3, 1, 0])),
        'lmax': None if independent else draw(st.sampled_from([None, None, nside])),
        'seed': draw(gen.seeds()),
    }


@sub(
    convolution_cases,
    quick=80,
    thorough=800,
    nontrivial=lambda case: case['fwhm'] > 0.1,
)
def convolution(case):
    """Multipoles are damped by the gaussian window, whatever the arguments."""
    import healpy as hp

    from pysimulators.interfaces.healpy import HealpixConvolutionGaussianOperator

    nside, fwhm, npol = case['nside'], case['fwhm'], case['npol']
    sigma = fwhm / np.sqrt(8 * np.log(2))
    r = gen.rng(case['seed'])
    lmax = max(3, nside // 2)
    nlm = hp.Alm.getsize(lmax)
    l, m = hp.Alm.getlm(lmax)

    def random_alm(lmin):
        a = r.normal(size=nlm) + 1j * r.normal(size=nlm)
        a[m == 0] = a[m == 0].real
        a[l < lmin] = 0
        return a

    keywords = {case['by']: fwhm if case['by'] == 'fwhm' else sigma}
    if case['lmax']:
        keywords['lmax'] = case['lmax']
    if not case['pol']:
        keywords['pol'] = False
    if case['iter'] != 3:
        keywords['iter'] = case['iter']
    op = HealpixConvolutionGaussianOperator(**keywords)
    require(
        abs(op.fwhm - fwhm) < 1e-14 and abs(op.sigma - sigma) < 1e-14, 'invalid width'
    )
    window = np.exp(-0.5 * l * (l + 1) * sigma**2)
    synth = dict(nside=nside, lmax=lmax, pol=case['pol'])
    if npol == 3:
        lmin = 2 if case['pol'] else 0
        alm = [random_alm(0), random_alm(lmin), random_alm(lmin)]
        if case['pol']:
            # window of spin-2 multipoles
            w2 = window * np.exp(2 * sigma**2)
            windows = [window, w2, w2]
        else:
            windows = [window] * 3
        x = np.array(hp.alm2map(alm, **synth)).T
        e = np.array(hp.alm2map([a * w for a, w in zip(alm, windows)], **synth)).T
    elif npol == 2:
        alm = [random_alm(0), random_alm(0)]
        x = np.array([hp.alm2map(a, nside, lmax=lmax) for a in alm]).T
        e = np.array([hp.alm2map(a * window, nside, lmax=lmax) for a in alm]).T
    else:
        alm = random_alm(0)
        x = hp.alm2map(alm, nside, lmax=lmax)
        e = hp.alm2map(alm * window, nside, lmax=lmax)
        if npol == 1:
            x, e = x[:, None], e[:, None]
    before = x.copy()
    if case['mode'] == 'new':
        y = op(x)
    elif case['mode'] == 'out':
        y = np.full(x.shape, 7.0)
        op(x, y)
    else:
        y = x.copy()
        op(y, y)
    require(np.array_equal(x, before), 'the input map has been modified')
    tol = {3: 1e-2, 1: 0.1, 0: 0.5}[case['iter']]
    scale = np.sqrt(np.mean(before**2, axis=0))
    d = np.sqrt(np.mean((y - e) ** 2, axis=0))
    require(np.all(d <= tol * scale), lambda: f'residual {(d / scale).tolist()}')


@st.composite
def identity_cases(draw):
    return {
        'by': draw(st.sampled_from(['fwhm', 'sigma'])),
        'zero': draw(st.sampled_from([0, 0.0])),
        'seed': draw(gen.seeds()),
        'bad': draw(st.integers(-30, -1)) / 10,
        'n': draw(st.integers(1, 400)),
    }


@sub(identity_cases, quick=40, thorough=300)
def degenerate_convolution(case):
    """A convolution of zero width is the identity; invalid arguments are refused."""
    from pysimulators.interfaces.healpy import HealpixConvolutionGaussianOperator

    op = HealpixConvolutionGaussianOperator(**{case['by']: case['zero']})
    x = gen.rng(case['seed']).normal(size=48)
    require(np.array_equal(op(x), x), 'not an identity')
    for keywords in (
        {case['by']: case['bad']},
        {},
        {'fwhm': 0.1, 'sigma': 0.1},
        {'iter': 2},
    ):
        try:
            HealpixConvolutionGaussianOperator(**keywords)
        except ValueError:
            continue
        require(False, lambda: f'{keywords} accepted')
    n = case['n']
    op = HealpixConvolutionGaussianOperator(**{case['by']: 0.1})
    if n not in (12 * k**2 for k in range(8)):
        try:
            op(np.zeros(n))
        except ValueError:
            return
        require(False, lambda: f'a map of {n} pixels is accepted')


@st.composite
def laplacian_cases(draw):
    return {
        'nside': draw(st.sampled_from([1, 2, 4, 8, 16, 32])),
        'extra': draw(st.sampled_from([None, 1, 2])),
        'seed': draw(gen.seeds()),
    }


def stencil(nside):
    """Pixels that share an edge, and those that only share a vertex."""
    import healpy as hp

    npix = 12 * nside**2
    n = hp.get_all_neighbours(nside, np.arange(npix)).T
    return n[:, ::2], n[:, 1::2]


@sub(laplacian_cases, quick=60, thorough=600, nontrivial=lambda c: c['nside'] > 1)
def laplacian(case):
    """The laplacian is symmetric, local and scales as the inverse of the pixel area."""
    from pysimulators.interfaces.healpy import HealpixLaplacianOperator

    nside, k = case['nside'], case['extra']
    npix = 12 * nside**2
    op = HealpixLaplacianOperator(nside)
    shape = (npix,) if k is None else (npix, k)
    r = gen.rng(case['seed'])
    x, y = r.normal(size=shape), r.normal(size=shape)
    edges, vertices = stencil(nside)
    h2 = 4 * np.pi / npix

    def apply(x, we, wv):
        pad = np.concatenate([x, np.zeros((1,) + x.shape[1:])])
        return (
            -20 * x + we * pad[edges].sum(axis=1) + wv * pad[vertices].sum(axis=1)
        ) / (6 * h2)

    got = op(x)
    scale = 1 / h2 * abs(x).max() * 10
    # see the known findings for the weights
    ok = [gen.close(got, apply(x, *w), 1e-13, scale) for w in ((4, 1), (1, 4))]
    require(any(ok), 'the operator is not the 9-point stencil')
    a, b = np.sum(op(x) * y), np.sum(x * op(y))
    require(abs(a - b) <= 1e-13 * scale * npix * 4, 'the operator is not symmetric')
    t = op.T(x)
    require(gen.close(t, got, 1e-13, scale), 'the transpose differs')


def laplacian_multipole():
    """The laplacian of a smooth map is not -l(l+1) times the map."""
    import healpy as hp

    from pysimulators.interfaces.healpy import HealpixLaplacianOperator

    nside = 16
    z = hp.pix2vec(nside, np.arange(12 * nside**2))[2]
    m = (abs(z) > 0.3) & (abs(z) < 0.6)
    ratio = np.median(HealpixLaplacianOperator(nside)(z)[m] / z[m])
    return abs(ratio + 2) > 0.4


def laplacian_constant():
    """The laplacian of a constant map is not zero at the pixels of 7 neighbours."""
    from pysimulators.interfaces.healpy import HealpixLaplacianOperator

    return abs(HealpixLaplacianOperator(4)(np.ones(192))).max() > 1e-3


KNOWN_PROBES = {
    'C14-laplacian-weights': laplacian_multipole,
    'C14-laplacian-constant': laplacian_constant,
}


@st.composite
def beam_cases(draw):
    return {
        'fwhm': draw(st.floats(0.01, 1.5)),
        'backward': draw(st.booleans()),
        'shape': draw(st.sampled_from([((), ()), ((5,), ()), ((5,), (5,)), ((3, 1), (4,))])),
        'nside': draw(st.sampled_from([16, 32])),
        'seed': draw(gen.seeds()),
    }


@sub(beam_cases, quick=150, thorough=2000, nontrivial=lambda c: c['shape'][0] != ())
def gaussian_beam(case):
    """Value, width, orientation, shape, solid angle and Healpix map of gaussian beams."""
    import healpy as hp

    from pysimulators import BeamGaussian

    fwhm, back = case['fwhm'], case['backward']
    beam = BeamGaussian(fwhm, backward=back)
    r = gen.rng(case['seed'])
    st_, sp = case['shape']
    theta = r.uniform(0, np.pi, st_)[()]
    phi = r.uniform(0, 6, sp)[()]
    v = beam(theta, phi)
    t = np.pi - theta if back else theta
    e = np.broadcast_to(0.5 ** ((2 * t / fwhm) ** 2), np.broadcast(theta, phi).shape)
    e_shape = e.shape
    require(np.shape(v) == e.shape, f'shape {np.shape(v)} instead of {e.shape}')
    require(np.all(abs(v - e) <= 1e-12 + 1e-10 * e), 'invalid beam value')
    half = np.pi - fwhm / 2 if back else fwhm / 2
    require(abs(float(beam(half, 0.0)) - 0.5) < 1e-10, 'not one half at the half width')
    sigma = fwhm / np.sqrt(8 * np.log(2))
    require(
        abs(beam.solid_angle - 2 * np.pi * sigma**2) < 1e-12, 'invalid solid angle'
    )
    nside = case['nside']
    m = beam.healpix(nside)
    require(m.shape == (12 * nside**2,), 'invalid Healpix map')
    pix = int(r.integers(m.size))
    th, ph = hp.pix2ang(nside, pix)
    require(abs(m[pix] - float(beam(th, ph))) < 1e-12, 'invalid Healpix map value')
    if fwhm > 0.3:
        total = np.sum(m) * 4 * np.pi / m.size
        # curvature: int sin(t) exp(-t^2/2s^2) ~ s^2 (1 - s^2/3)
        e = beam.solid_angle * (1 - sigma**2 / 3)
        require(abs(total - e) < 0.04 * e, 'the map does not sum to the solid angle')

    from pysimulators import BeamUniformHalfSpace

    half = BeamUniformHalfSpace()
    require(abs(half.solid_angle - 2 * np.pi) < 1e-12, 'half space: invalid solid angle')
    theta = r.uniform(0, np.pi / 2, st_)[()]
    v = half(theta, phi)
    require(np.shape(v) == e_shape and np.all(v == 1), 'the half space is not uniform')


@st.composite
def cmb_cases(draw):
    return {
        'nside': 2 ** draw(st.integers(0, 8)),
        'T': draw(st.one_of(st.just(2.7255), st.floats(0.5, 30))),
        'x': draw(st.floats(0.02, 60)),
        'kind': draw(st.sampled_from(['I', 'QU', 'IQU', 'iqu'])),
        'absolute': draw(st.booleans()),
        'nest': draw(st.booleans()),
        'convention': draw(st.sampled_from(CONVENTIONS)),
        'data': draw(st.lists(st.floats(0.5, 30), min_size=1, max_size=4)),
    }


@sub(cmb_cases, quick=200, thorough=3000, nontrivial=lambda c: len(c['data']) > 1)
def cmb_scene(case):
    """CMB scenes: geometry, pixel operator and temperature to power conversion."""
    from scipy.constants import c, h, k

    from pysimulators.interfaces.healpy import SceneHealpixCMB, Spherical2HealpixOperator

    nside = case['nside']
    scene = SceneHealpixCMB(
        nside,
        kind=case['kind'],
        absolute=case['absolute'],
        temperature=case['T'],
        nest=case['nest'],
        convention=case['convention'],
    )
    npix = 12 * nside**2
    kind = case['kind'].upper()
    require(scene.kind == kind and scene.npixel == npix, 'invalid scene')
    require(
        scene.shape == ((npix,) if kind == 'I' else (npix, len(kind))), 'invalid shape'
    )
    require(len(scene) == npix and scene.ndim == 1, 'invalid number of pixels')
    require(
        scene.nside == nside
        and scene.nest is case['nest']
        and scene.convention == case['convention']
        and scene.absolute is case['absolute']
        and scene.temperature == case['T'],
        'the scene is not the specified one',
    )
    require(abs(scene.solid_angle * npix - 4 * math.pi) < 1e-12, 'invalid solid angle')
    ang = np.array([[0.3, 0.4], [1.1, 1.2], [0.9, -0.5 if 'elev' in case['convention'] else 0.5]])
    if case['convention'].startswith('elevation'):
        ang = ang[:, ::-1]
    if not case['convention'].startswith('azimuth') and 'elev' not in case['convention']:
        ang = abs(ang)
    ref = Spherical2HealpixOperator(nside, case['convention'], nest=case['nest'])
    require(np.array_equal(scene.topixel(ang), ref(ang)), 'invalid topixel operator')

    T0 = case['T']
    nu = case['x'] * k * T0 / h
    op = scene.get_unit_conversion_operator(nu)
    data = np.array(case['data'])
    a = 2 * (4 * math.pi / npix) * h * nu**3 / c**2
    got = op(data)
    if case['absolute']:
        e = a / np.expm1(h * nu / (k * data))
    else:
        x = np.longdouble(h * nu / (k * T0))
        # d/dT 1 / (exp(x) - 1) = x / (4 T sinh(x / 2)^2)
        e = np.asarray(data * 1e-6 * a * x / (4 * T0 * np.sinh(x / 2) ** 2), float)
    require(
        np.all(abs(got - e) <= 1e-10 * abs(e) + 1e-300),
        lambda: f'power {got.tolist()} instead of {e.tolist()}',
    )

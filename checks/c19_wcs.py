"""C19: FITS headers and world coordinate operators."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

W = 'src/pysimulators/wcsutils.py'
PROPERTY = dict(
    title='FITS headers and coordinate operators describe the specified sky grid',
    statement=(
        'For any dimensions, data type, reference pixel and value, CD matrix or increment '
        'and position angle, the created header has the shape of the data and maps pixels '
        'to the sky as specified; increment and angle are recovered from it, its string '
        'form is parsed back, and the combination of headers contains the pixels of all of '
        'them. The world-to-pixel and pixel-to-world operators are inverse of each other '
        'and agree with the gnomonic projection, the boresight rotation and the distortion '
        'operators match their formulas.'
    ),
    over=['inputs', 'configurations'],
    text='every header specification and every coordinate',
    why=(
        'The tests use a few headers, without CD matrix, string conversion or rotated '
        'combination; the operators are exercised on a single header.'
    ),
    files=[W],
    mechanism=[
        ('create_fitsheader, create_fitsheader_for, get_cdelt_pa, str2fitsheader', W),
        ('combine_fitsheader, fitsheader2shape, has_wcs', W),
        ('WCSToPixelOperator, WCSToWorldOperator', W),
        ('RotationBoresightEquatorialOperator, DistortionOperator', W),
    ],
)
RULE = (
    'A case is a header specification and coordinates; it is non-trivial when the position '
    'angle or the off-diagonal terms of the CD matrix are not zero.'
)


@st.composite
def specs(draw):
    step = st.sampled_from([0.001, 0.01, 0.1, 0.25])
    kind = draw(st.sampled_from(['scalar', 'scalar', 'pair', 'cd']))
    spec = {}
    if kind == 'scalar':
        spec['cdelt'] = draw(step)
    elif kind == 'pair':
        spec['cdelt'] = (
            draw(step) * draw(st.sampled_from([-1, -1, 1])),
            draw(step) * draw(st.sampled_from([1, 1, 1, -1])),
        )
    else:
        a = draw(st.integers(-180, 180))
        s = draw(step)
        skew = draw(st.sampled_from([1, 1, 2]))
        c, d = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
        spec['cd'] = [[-s * c, s * d * skew], [s * d, s * c * skew]]
    if kind != 'cd':
        spec['pa'] = draw(
            st.one_of(st.none(), st.just(0), st.integers(-179, 179).map(float))
        )
    return {
        'naxes': (draw(st.integers(1, 20)), draw(st.integers(1, 20))),
        'crval': (draw(st.integers(0, 359)) / 1.0, draw(st.integers(-85, 85)) / 1.0),
        'crpix': draw(
            st.one_of(
                st.none(),
                st.tuples(st.integers(-8, 40), st.integers(-8, 40)).map(
                    lambda _: (_[0] / 4, _[1] / 4)
                ),
            )
        ),
        'kind': kind,
        'spec': spec,
        'extname': draw(st.sampled_from([None, None, '', 'MAP'])),
        'dtype': draw(st.sampled_from([None, 'u1', 'i2', 'i4', 'i8', 'f4', 'f8'])),
        'equinox': draw(st.sampled_from([None, None, 2000])),
        'how': draw(st.sampled_from(['naxes', 'data'])),
        'ctype': draw(
            st.sampled_from([None, None, ('RA---TAN', 'DEC--TAN'), ('GLON-TAN', 'GLAT-TAN')])
        ),
        'cunit': draw(st.sampled_from([None, None, 'deg', ('deg', 'deg')])),
        'radesys': draw(st.sampled_from([None, None, 'FK5', 'fk5'])),
        'seed': draw(st.integers(0, 2**31)),
        'origin': draw(st.sampled_from([0, 0, 1])),
        'shape': draw(st.sampled_from([(), (1,), (4,), (2, 3)])),
        'layout': draw(st.sampled_from(['c', 'list', 'f', 'strided'])),
        'out': draw(st.booleans()),
    }


def nontrivial(c):
    return bool(c['spec'].get('pa')) or (
        c['kind'] == 'cd' and abs(c['spec']['cd'][0][1]) > 1e-10
    )


def create(case):
    from pysimulators.wcsutils import create_fitsheader, create_fitsheader_for

    kw = dict(case['spec'])
    kw['crval'] = case['crval']
    for key in 'crpix', 'extname', 'equinox', 'ctype', 'cunit', 'radesys':
        if case[key] is not None:
            kw[key] = case[key]
    if case['how'] == 'naxes':
        if case['dtype'] is not None:
            kw['dtype'] = case['dtype']
        return create_fitsheader(case['naxes'], **kw)
    return create_fitsheader_for(
        np.zeros(case['naxes'][::-1], case['dtype'] or 'f8'), **kw
    )


def galactic(case):
    return case.get('ctype') is not None and case['ctype'][0].startswith('GLON')


def matrix(case):
    """The CD matrix: increments of the intermediate world coordinates, per pixel."""
    spec = case['spec']
    if 'cd' in spec:
        return np.array(spec['cd'])
    cdelt = spec['cdelt']
    if np.ndim(cdelt) == 0:
        # the right ascension increases to the left
        cdelt = (cdelt if galactic(case) else -cdelt, cdelt)
    pa = np.deg2rad(spec['pa'] or 0)
    return np.array(
        [
            [cdelt[0] * np.cos(pa), -cdelt[0] * np.sin(pa)],
            [cdelt[1] * np.sin(pa), cdelt[1] * np.cos(pa)],
        ]
    )


def crpix(case):
    if case['crpix'] is not None:
        return np.array(case['crpix'])
    return (np.array(case['naxes']) + 1) / 2


def gnomonic(case, xy):
    """The unit vectors of the directions of the FITS pixel coordinates xy."""
    xi, eta = np.deg2rad((np.asarray(xy) - crpix(case)) @ matrix(case).T).T
    ra, dec = np.deg2rad(case['crval'])
    c = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    east = np.array([-np.sin(ra), np.cos(ra), 0])
    north = np.array(
        [-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)]
    )
    v = c + xi[..., None] * east + eta[..., None] * north
    return v / np.sqrt(np.sum(v**2, axis=-1))[..., None]


def vectors(radec):
    ra, dec = np.deg2rad(np.moveaxis(np.asarray(radec), -1, 0))
    return np.stack(
        [np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1
    )


@sub(specs, quick=300, thorough=10000, nontrivial=nontrivial)
def header(case):
    """Keywords of the created header and the information extracted from it."""
    from pysimulators import wcsutils

    h = create(case)
    nx, ny = case['naxes']
    for key, value in {
        'NAXIS': 2,
        'NAXIS1': nx,
        'NAXIS2': ny,
        'CRVAL1': case['crval'][0],
        'CRVAL2': case['crval'][1],
        'CRPIX1': crpix(case)[0],
        'CRPIX2': crpix(case)[1],
        'CTYPE1': (case['ctype'] or ('RA---TAN',))[0],
        'CTYPE2': (case['ctype'] or ('', 'DEC--TAN'))[1],
        'RADESYS': None if galactic(case) else (case['radesys'] or 'ICRS').upper(),
        'CUNIT1': 'deg',
        'CUNIT2': 'deg',
        'BITPIX': {'u1': 8, 'i2': 16, 'i4': 32, 'i8': 64, 'f4': -32}.get(
            case['dtype'], -64
        ),
    }.items():
        require(h.get(key) == value, lambda: f'{key}={h.get(key)} instead of {value}')
    require(
        ('SIMPLE' in h) == (case['extname'] is None)
        and ('XTENSION' in h) == (case['extname'] is not None),
        'primary or extension header',
    )
    require(
        h.get('EXTNAME') == case['extname'], lambda: f'EXTNAME={h.get("EXTNAME")!r}'
    )
    if case['equinox'] is not None:
        require(h['EQUINOX'] == case['equinox'], 'EQUINOX')
    cd = matrix(case)
    actual = np.array([[h[f'CD{i}_{j}'] for j in (1, 2)] for i in (1, 2)])
    require(
        np.allclose(actual, cd, rtol=1e-12, atol=1e-14),
        lambda: f'CD matrix {actual.tolist()} instead of {cd.tolist()}',
    )
    require(
        wcsutils.fitsheader2shape(h) == (ny, nx),
        lambda: f'shape {wcsutils.fitsheader2shape(h)}',
    )
    require(wcsutils.has_wcs(h), 'has_wcs')
    plain = wcsutils.create_fitsheader(case['naxes'])
    require(not wcsutils.has_wcs(plain), 'has_wcs of a header without coordinates')
    # the rows of the CD matrix are orthogonal: increments and angle describe it
    if case['kind'] != 'cd' or abs(cd[0] @ cd[1]) < 1e-12:
        cdelt, pa = wcsutils.get_cdelt_pa(h)
        t = np.deg2rad(pa)
        rebuilt = np.diag(cdelt) @ [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
        require(
            np.allclose(rebuilt, cd, rtol=1e-9, atol=1e-12),
            lambda: f'cdelt {cdelt} and pa {pa} for the CD matrix {cd.tolist()}',
        )
        require(cdelt[1] > 0, lambda: f'cdelt {cdelt}')
        if case['kind'] == 'scalar':
            s = case['spec']['cdelt']
            require(np.allclose(cdelt, (s if galactic(case) else -s, s), rtol=1e-9), lambda: f'cdelt {cdelt}')
    # string form
    text = h.tostring()
    parsed = wcsutils.str2fitsheader(text)
    require(list(parsed) == list(h), lambda: f'parsed keywords {list(parsed)}')
    for key in h:
        # the cards hold 16 significant digits at most
        same = parsed[key] == h[key] or (
            isinstance(h[key], float) and np.isclose(parsed[key], h[key], rtol=1e-12)
        )
        require(same, lambda: f'parsed {key}: {parsed[key]!r}, not {h[key]!r}')


@sub(specs, quick=200, thorough=6000, nontrivial=nontrivial)
def transforms(case):
    """World coordinate operators against the gnomonic projection."""
    from astropy.wcs import WCS

    from pysimulators.wcsutils import WCSToPixelOperator, WCSToWorldOperator

    h = create(case)
    r = gen.rng(case['seed'])
    shape = case['shape']
    origin = case['origin']
    wcs = WCS(h) if case['seed'] % 2 else h
    args = () if origin == 0 and case['seed'] % 3 else (origin,)
    to_world, to_pixel = WCSToWorldOperator(wcs, *args), WCSToPixelOperator(wcs, *args)
    xy = r.integers(-80, 200, shape + (2,)) / 4
    fits_xy = xy + 1 - origin
    expected = gnomonic(case, fits_xy.reshape((-1, 2))).reshape(shape + (3,))

    def arrange(a):
        if case['layout'] == 'list':
            return a.tolist()
        if case['layout'] == 'f':
            return np.asfortranarray(a)
        if case['layout'] == 'strided':
            b = np.zeros(shape + (4,))
            b[..., ::2] = a
            return b[..., ::2]
        return a.copy()

    def apply(op, a):
        if not case['out']:
            return op(arrange(a))
        out = np.full(shape + (2,), np.nan)
        op(arrange(a), out)
        return out

    radec = apply(to_world, xy)
    require(
        radec.shape == xy.shape and radec.dtype == float,
        lambda: f'{radec.shape} {radec.dtype}',
    )
    error = np.max(np.abs(vectors(radec) - expected), initial=0)
    require(
        error < 1e-10,
        lambda: f'the direction of the pixel {xy.tolist()} is {radec.tolist()}',
    )
    # degrees / smallest increment
    tol = 1e-7 / np.min(np.abs(np.linalg.svd(matrix(case))[1]))
    back = apply(to_pixel, radec)
    require(
        np.allclose(back, xy, rtol=0, atol=tol),
        lambda: f'round trip: {back.tolist()} instead of {xy.tolist()}',
    )
    for name, op, a, ref in (
        ('inverse of to_world', to_world.I, radec, xy),
        ('inverse of to_pixel', to_pixel.I, xy, radec),
    ):
        actual = apply(op, a)
        require(
            np.allclose(actual, ref, rtol=0, atol=tol),
            lambda: f'{name}: {actual.tolist()} instead of {ref.tolist()}',
        )
    for op in to_world, to_pixel:
        for bad in np.zeros(3), np.zeros((2, 1)), np.array(1.0):
            try:
                op(bad)
            except ValueError:
                continue
            fail(f'coordinates of shape {bad.shape} are accepted')


@st.composite
def groups(draw):
    n = draw(st.integers(1, 4))
    ra, dec = draw(st.integers(0, 359)), draw(st.integers(-70, 70))
    pa = draw(st.sampled_from([0, 0, 30, 175, -120]))
    headers = []
    for _ in range(n):
        headers.append(
            {
                'naxes': (draw(st.integers(1, 12)), draw(st.integers(1, 12))),
                'crval': (
                    (ra + draw(st.integers(-8, 8)) / 4) % 360,
                    dec + draw(st.integers(-8, 8)) / 4,
                ),
                'crpix': draw(
                    st.one_of(
                        st.none(), st.tuples(st.integers(-3, 12), st.integers(-3, 12))
                    )
                ),
                'cdelt': draw(
                    st.one_of(
                        st.sampled_from([0.1, 0.25, 0.5]),
                        st.sampled_from(
                            [(-0.1, 0.25), (-0.25, 0.1), (-0.5, 0.25), (-0.25, 0.5)]
                        ),
                    )
                ),
                'pa': pa + draw(st.integers(-10, 10)),
            }
        )
    return {
        'headers': headers,
        'cdelt': draw(st.sampled_from([None, None, None, 0.2, (-0.2, 0.3), (0.2, 0.3)])),
        'pa': draw(st.sampled_from([None, None, 15.0])),
    }


@sub(
    groups,
    quick=120,
    thorough=3000,
    nontrivial=lambda c: len(c['headers']) > 1,
)
def combination(case):
    """combine_fitsheader encompasses all the headers, without waste."""
    from astropy.wcs import WCS

    from pysimulators.wcsutils import combine_fitsheader, create_fitsheader, get_cdelt_pa

    headers = [create_fitsheader(**_) for _ in case['headers']]
    kw = {k: case[k] for k in ('cdelt', 'pa') if case[k] is not None}
    h = combine_fitsheader(headers, **kw)
    if len(headers) == 1 and not kw:
        require(dict(h) == dict(headers[0]), 'the only header is changed')
        return
    cdelt, pa = get_cdelt_pa(h)
    step = case['cdelt'] or min(np.min(np.abs(_['cdelt'])) for _ in case['headers'])
    if np.ndim(step) == 0:
        step = -step, step
    require(np.allclose(cdelt, step), lambda: f'cdelt {cdelt}, not {step}')
    ref = case['pa']
    if ref is None:
        ref = np.mean([_['pa'] for _ in case['headers']])
    require(
        abs((pa - ref + 180) % 360 - 180) < 1e-6,
        lambda: f'position angle {pa} instead of {ref}',
    )
    xy = []
    combined = WCS(h)
    for hh in headers:
        nx, ny = hh['NAXIS1'], hh['NAXIS2']
        x, y = np.meshgrid([0.5, nx + 0.5], [0.5, ny + 0.5])
        corners = WCS(hh).wcs_pix2world(x.ravel(), y.ravel(), 1)
        xy.append(np.array(combined.wcs_world2pix(*corners, 1)))
    xy = np.concatenate(xy, axis=1)
    n = np.array([h['NAXIS1'], h['NAXIS2']])
    low, high = np.min(xy, axis=1), np.max(xy, axis=1)
    require(
        np.all(low >= 0.5 - 1e-6) and np.all(high <= n + 0.5 + 1e-6),
        lambda: f'the pixels of the headers span {low} to {high} in a map of size {n}',
    )
    # the reference pixels are included, even when they are outside of their maps
    if any(
        not 0.5 <= hh[f'CRPIX{i}'] <= hh[f'NAXIS{i}'] + 0.5 for hh in headers for i in (1, 2)
    ):
        return
    require(
        np.all(low < 1.5 + 1e-6) and np.all(high > n - 0.5 - 1e-6),
        lambda: f'the pixels only span {low} to {high} in a map of size {n}',
    )


@st.composite
def boresights(draw):
    r = gen.rng(draw(gen.seeds()))
    np_ = draw(st.integers(1, 4))
    return {
        'ra': r.integers(0, 360, np_) / 1.0,
        'dec': r.integers(-80, 80, np_) / 1.0,
        'pa': r.integers(-180, 180, np_) / 1.0,
        'x': r.integers(-7200, 7200, draw(st.sampled_from([(), (1,), (3,), (2, 2)])) + (2,)),
        'integer': draw(st.booleans()),
        'xin': r.permutation(
            np.stack(np.meshgrid([0.0, 1, 3, 4], [-1.0, 0, 2, 3]), -1).reshape((-1, 2))
        ),
        'affine': r.integers(-4, 5, (2, 2)) / 2 + 5 * np.eye(2),
        'shift': r.integers(-4, 5, 2) / 2,
        'points': r.integers(-8, 24, (draw(st.integers(1, 5)), 2)) / 4,
    }


@sub(boresights, quick=120, thorough=3000, nontrivial=lambda c: len(c['ra']) > 1)
def boresight(case):
    """RotationBoresightEquatorialOperator and DistortionOperator."""
    from pysimulators.wcsutils import (
        DistortionOperator,
        RotationBoresightEquatorialOperator,
    )

    n = len(case['ra'])
    dtype = [(_, float) for _ in ('ra', 'dec', 'pa')]
    pointing = np.recarray(n, dtype=dtype)
    for name in 'ra', 'dec', 'pa':
        pointing[name] = case[name]
    op = RotationBoresightEquatorialOperator(pointing)
    x = case['x'] if case['integer'] else case['x'] / 8
    actual = op(x)
    require(
        actual.shape == (n,) + x.shape and actual.dtype == float,
        lambda: f'{actual.shape} {actual.dtype}',
    )
    for i in range(n):
        t = np.deg2rad(case['pa'][i])
        c1, c2 = x[..., 0] / 3600, x[..., 1] / 3600
        dec = case['dec'][i] - c1 * np.sin(t) + c2 * np.cos(t)
        ra = case['ra'][i] + (c1 * np.cos(t) + c2 * np.sin(t)) / np.cos(np.deg2rad(dec))
        expected = np.stack([ra, dec], axis=-1)
        require(
            np.allclose(actual[i], expected, rtol=1e-12, atol=1e-9),
            lambda: f'pointing {i}: {actual[i].tolist()} instead of {expected.tolist()}',
        )
    xin = case['xin']
    xout = xin @ case['affine'].T + case['shift']
    op = DistortionOperator(xin, xout)
    require(np.allclose(op(xin), xout, atol=1e-9), 'distortion at the given points')
    p = case['points']
    inside = (p[:, 0] >= 0) & (p[:, 0] <= 4) & (p[:, 1] >= -1) & (p[:, 1] <= 3)
    edge = (
        np.isin(p[:, 0], (0, 4)) & (p[:, 1] >= -1) & (p[:, 1] <= 3)
        | np.isin(p[:, 1], (-1, 3)) & (p[:, 0] >= 0) & (p[:, 0] <= 4)
    )
    actual = op(p)
    expected = p @ case['affine'].T + case['shift']
    good = inside & ~edge
    require(
        np.allclose(actual[good], expected[good], atol=1e-4),
        lambda: f'affine distortion {actual.tolist()} instead of {expected.tolist()}',
    )
    require(
        np.all(np.isnan(actual[~inside])),
        lambda: f'distortion outside of the plane: {actual[~inside]}',
    )
    back = op.I(expected[good])
    if np.any(good):
        require(
            np.allclose(back, p[good], atol=1e-4),
            lambda: f'inverse distortion {back.tolist()} instead of {p[good].tolist()}',
        )
    for bad in (xin[:, :1], xout[:, :1]), (xin, xout[1:]):
        try:
            DistortionOperator(*bad)
        except ValueError:
            continue
        fail('invalid distortion coordinates are accepted')


@st.composite
def refusals(draw):
    return {
        'what': draw(
            st.sampled_from(
                ['cd', 'crval', 'crpix', 'ctype', 'cunit', 'naxes', 'dims', 'pointing']
            )
        ),
        'n': draw(st.integers(1, 9)),
    }


@sub(refusals, quick=30, thorough=100)
def refused(case):
    """Inconsistent header specifications are refused."""
    from pysimulators.wcsutils import (
        RotationBoresightEquatorialOperator,
        create_fitsheader,
        get_cdelt_pa,
    )

    n = case['n']
    kw = dict(naxes=(n, n), cdelt=1)
    error = ValueError
    what = case['what']
    if what == 'cd':
        kw['cd'] = np.ones((2, 3))
    elif what == 'crval':
        kw['crval'] = [1.0] * (n if n != 2 else 3)
    elif what == 'crpix':
        kw['crpix'] = [1.0] * (n if n != 2 else 3)
    elif what == 'ctype':
        kw['ctype'] = ['RA---TAN', 'DEC--TAN', 'FREQ']
    elif what == 'cunit':
        kw['cunit'] = ['deg'] * 3
    elif what == 'naxes':
        kw['naxes'] = None
    elif what == 'dims':
        kw['naxes'] = [1] * 9
    try:
        if what == 'pointing':
            error = TypeError
            RotationBoresightEquatorialOperator(np.recarray(n, dtype=[('ra', float)]))
        else:
            create_fitsheader(**kw)
    except error:
        pass
    else:
        fail(f'{what}: {kw} is accepted')
    try:
        get_cdelt_pa(create_fitsheader((n, n)))
    except KeyError:
        return
    fail('the header has no astrometry')

"""C06: equatorial, galactic and horizontal coordinate transforms."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

PROPERTY = dict(
    title='Sky coordinate transforms are the documented rotations and invert exactly',
    statement=(
        'The equatorial/galactic transforms are the rotation defined by the documented '
        'galactic pole and center, and the equatorial/horizontal transforms map a direction '
        'onto the north-east-zenith frame of an observer given the time, latitude and east '
        'longitude (mean sidereal time, azimuth from north to east). Cartesian and spherical '
        'variants agree for every angle convention and unit, lengths and angular separations '
        'are preserved, the transpose is the inverse, and going back and forth (also after '
        'operator simplification) is the identity.'
    ),
    over=['inputs', 'configurations'],
    text='every direction, time, observer position, angle convention, unit and input shape',
    why=(
        'The tests check a few reference directions; sign, quadrant and convention errors '
        'only appear for other directions, observers, dates or broadcast shapes.'
    ),
    files=['src/pysimulators/operators.py'],
    mechanism=[
        ('_CartesianEquatorialGalactic, _CartesianEquatorialHorizontal', 'src/pysimulators/operators.py'),
        ('Spherical*2*Operator', 'src/pysimulators/operators.py'),
    ],
)
RULE = (
    'A case is directions, conventions, and for horizontal frames times and observers; it '
    'is non-trivial when no direction is within 1e-3 rad of a pole of the frames.'
)
CONVENTIONS = ['zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation']


def to_cartesian(angles, convention, degrees):
    a = np.radians(angles) if degrees else np.asarray(angles)
    first, second = convention.split(',')
    d = {first: a[..., 0], second: a[..., 1]}
    el = d['elevation'] if 'elevation' in d else np.pi / 2 - d['zenith']
    az = d['azimuth']
    return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], -1)


def from_cartesian(v, convention, degrees):
    d = {
        'azimuth': np.arctan2(v[..., 1], v[..., 0]) % (2 * np.pi),
        'elevation': np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])),
    }
    d['zenith'] = np.pi / 2 - d['elevation']
    a = np.stack([d[_] for _ in convention.split(',')], -1)
    return np.degrees(a) if degrees else a


def directions(draw, shape):
    r = gen.rng(draw(gen.seeds()))
    v = r.normal(size=shape + (3,))
    return v / np.linalg.norm(v, axis=-1)[..., None]


def galactic_matrix():
    """Equatorial to galactic rotation from the documented pole and center."""
    p = to_cartesian(np.array([192.85948, 27.12825]), 'azimuth,elevation', True)
    c = to_cartesian(np.array([266.40510, -28.936175]), 'azimuth,elevation', True)
    c = c - (c @ p) * p
    c /= np.linalg.norm(c)
    return np.array([c, np.cross(p, c), p])


@st.composite
def galactic_cases(draw):
    shape = draw(st.sampled_from([(), (1,), (4,), (2, 3)] * 4 + [(300,), (70, 5)]))
    return {
        'v': directions(draw, shape),
        'norm': draw(st.sampled_from([1.0, 1.0, 3.5])),
        'cin': draw(st.sampled_from(CONVENTIONS)),
        'cout': draw(st.sampled_from(CONVENTIONS)),
        'degrees': draw(st.booleans()),
        'reverse': draw(st.booleans()),
    }


def close(actual, e, tol, what):
    actual = np.asarray(actual)
    require(actual.shape == np.shape(e), f'{what}: shape {actual.shape}')
    require(
        np.all(abs(actual - e) <= tol),
        lambda: f'{what}: {actual.tolist()} instead of {np.asarray(e).tolist()}',
    )


def nontrivial(case):
    return bool(np.all(abs(case['v'][..., 2]) < 1 - 1e-6))


def check_pair(case, forward, backward, e, tol):
    """Cartesian operators: forward maps v on e, and backward inverts it."""
    v = case['v']
    w = forward(v)
    close(w, e, tol, 'transformed direction')
    close(np.linalg.norm(w, axis=-1), np.linalg.norm(v, axis=-1), 1e-12, 'length')
    close(backward(w), v, 1e-12, 'back and forth')
    close(forward.T(w), v, 1e-12, 'transpose')
    close(forward.I(w), v, 1e-12, 'inverse')
    close((backward * forward)(v), v, 1e-12, 'composed with its inverse')
    close((forward * backward)(v), v, 1e-12, 'inverse composed with it')
    close((forward.T * forward)(v), v, 1e-12, 'P.T P')


def check_spherical(case, forward, backward, forward2, rotate):
    """Spherical operators against the conversion of the cartesian result."""
    v, cin, cout, degrees = case['v'], case['cin'], case['cout'], case['degrees']
    angles = from_cartesian(v, cin, degrees)
    out = forward(angles)
    close(to_cartesian(out, cout, degrees), rotate(v), 1e-9, 'spherical transform')
    zen = {'zenith': (0, np.pi), 'elevation': (-np.pi / 2, np.pi / 2),
           'azimuth': (0, 2 * np.pi)}
    for i, name in enumerate(cout.split(',')):
        a = np.radians(out[..., i]) if degrees else out[..., i]
        lo, hi = zen[name]
        require(
            np.all((a >= lo - 1e-9) & (a <= hi + 1e-9)), f'{name} out of range: {a}'
        )
    close(
        to_cartesian(backward(out), cin, degrees), v, 1e-7, 'spherical back and forth'
    )
    close(
        to_cartesian(backward(forward)(angles), cin, degrees),
        v,
        1e-7,
        'composed spherical back and forth',
    )
    close(
        to_cartesian(forward2(to_angles(angles, degrees)), cout, False),
        rotate(v),
        1e-9,
        'spherical transform in radians',
    )


def to_angles(angles, degrees):
    return np.radians(angles) if degrees else angles


@sub(galactic_cases, quick=400, thorough=6000, nontrivial=nontrivial)
def galactic(case):
    """Equatorial <-> galactic: the documented rotation, both ways and all conventions."""
    from pysimulators import operators as o

    M = galactic_matrix()
    fwd, bwd = o.CartesianEquatorial2GalacticOperator, o.CartesianGalactic2EquatorialOperator
    sfwd, sbwd = o.SphericalEquatorial2GalacticOperator, o.SphericalGalactic2EquatorialOperator
    if case['reverse']:
        fwd, bwd, sfwd, sbwd, M = bwd, fwd, sbwd, sfwd, M.T
    scaled = dict(case, v=case['v'] * case['norm'])
    # the pole and center are documented to 1e-5 degrees
    check_pair(scaled, fwd(), bwd(), scaled['v'] @ M.T, 1e-6 * case['norm'])
    check_spherical(
        case,
        sfwd(case['cin'], case['cout'], degrees=case['degrees']),
        sbwd(case['cout'], case['cin'], degrees=case['degrees']),
        sfwd(case['cin'], case['cout']),
        fwd(),
    )
    if case['cin'] == case['cout'] == 'azimuth,elevation':
        angles = from_cartesian(case['v'], 'azimuth,elevation', False)
        close(
            to_cartesian(sfwd()(angles), 'azimuth,elevation', False),
            fwd()(case['v']),
            1e-9,
            'default conventions',
        )


@st.composite
def horizontal_cases(draw):
    tshape = draw(st.sampled_from([(), (1,), (4,), (2, 3)] * 4 + [(300,), (70, 5)]))
    lshape = draw(st.sampled_from([(), tshape]))
    r = gen.rng(draw(gen.seeds()))
    shape = np.broadcast_shapes(tshape, lshape)
    base = draw(st.sampled_from([2451544.5, 2440000.25, 2456789.123, 2460310.9]))
    return {
        'jd': base + r.uniform(0, 400, tshape),
        'lat': r.uniform(-89, 89, lshape) if lshape else float(r.uniform(-89, 89)),
        'lon': r.uniform(-180, 360, lshape) if lshape else float(r.uniform(-180, 360)),
        'v': directions(draw, shape),
        'cin': draw(st.sampled_from(CONVENTIONS)),
        'cout': draw(st.sampled_from(CONVENTIONS)),
        'degrees': draw(st.booleans()),
        'reverse': draw(st.booleans()),
    }


def sidereal(jd):
    """Greenwich mean sidereal time in radians (IAU 1982)."""
    jd = np.asarray(jd, np.longdouble)
    jd0 = np.floor(jd - 0.5) + 0.5
    t = (jd0 - 2451545) / 36525
    s = 24110.54841 + 8640184.812866 * t + 0.093104 * t**2
    s += (jd - jd0) * 86400 * 1.00273790935
    return np.asarray((s % 86400) / 86400 * 2 * np.pi, float)


def horizontal_reference(case, v):
    """North, east and up components from the hour angle and declination."""
    lst = sidereal(case['jd']) + np.radians(case['lon'])
    lat = np.radians(case['lat'])
    ra, dec = np.arctan2(v[..., 1], v[..., 0]), np.arcsin(np.clip(v[..., 2], -1, 1))
    ha = lst - ra
    up = np.sin(dec) * np.sin(lat) + np.cos(dec) * np.cos(lat) * np.cos(ha)
    east = -np.cos(dec) * np.sin(ha)
    north = np.sin(dec) * np.cos(lat) - np.cos(dec) * np.sin(lat) * np.cos(ha)
    return np.stack([north, east, up], -1)


@sub(horizontal_cases, quick=400, thorough=6000, nontrivial=nontrivial)
def horizontal(case):
    """Equatorial <-> horizontal: hour-angle formulas, both ways and all conventions."""
    from astropy.time import Time
    from pysimulators import operators as o

    t = Time(case['jd'], format='jd', scale='utc')
    args = 'NE', t, case['lat'], case['lon']
    v = case['v']
    e2h = o.CartesianEquatorial2HorizontalOperator(*args)
    h2e = o.CartesianHorizontal2EquatorialOperator(*args)
    # reference of the forward direction, in both cases
    tol = 2e-6
    if case['reverse']:
        w = horizontal_reference(case, v)
        close(h2e(w), v, tol, 'equatorial from horizontal')
        check_pair(dict(case, v=w), h2e, e2h, v, tol)
    else:
        check_pair(case, e2h, h2e, horizontal_reference(case, v), tol)
    s1, s2 = (
        o.SphericalEquatorial2HorizontalOperator,
        o.SphericalHorizontal2EquatorialOperator,
    )
    c1, c2 = e2h, h2e
    if case['reverse']:
        s1, s2, c1, c2 = s2, s1, c2, c1
    check_spherical(
        case,
        s1(*args, case['cin'], case['cout'], degrees=case['degrees']),
        s2(*args, case['cout'], case['cin'], degrees=case['degrees']),
        s1(*args, case['cin'], case['cout']),
        c1,
    )
    for name in ('SW', 'SE', 'ne'):
        try:
            o.CartesianEquatorial2HorizontalOperator(name, *args[1:])
        except ValueError:
            continue
        require(False, f'the azimuth convention {name!r} is silently accepted')

"""C20: angles, barycenters, means and ranges of directions."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, fail, require, sub

W = 'src/pysimulators/wcsutils.py'
F = 'src/flib/wcsutils.f90'
PROPERTY = dict(
    title='Angles between directions, and their mean and range, wrap around the sphere',
    statement=(
        'For any number of directions, angle_lonlat is the angle between their unit '
        'vectors, identical and opposite ones included, and sizes that cannot be broadcast '
        'are refused. barycenter_lonlat is the direction of the sum of the unit vectors, '
        'and mean_degrees and minmax_degrees are the mean and the ends of an arc given in '
        'any order and in any turn. Missing (NaN) values are ignored.'
    ),
    over=['inputs'],
    text='every set of directions and arc, with missing values',
    why=(
        'The tests list a dozen directions; wrapping, rounding at 0 and 180 degrees and '
        'missing values depend on the values.'
    ),
    files=[W, F, 'src/flib/module_math_old.f90'],
    mechanism=[
        ('angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees', W),
        ('angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees', F),
    ],
)
RULE = (
    'A case is a set of directions or an arc; it is non-trivial when there are several '
    'directions, or when the arc crosses the origin of the angles.'
)


def vectors(lon, lat):
    lon, lat = np.deg2rad(lon), np.deg2rad(lat)
    return np.stack(
        [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1
    )


def separation(v, w):
    return np.rad2deg(
        np.arctan2(
            np.sqrt(np.sum(np.cross(v, w) ** 2, axis=-1)), np.sum(v * w, axis=-1)
        )
    )


@st.composite
def pairs(draw):
    r = gen.rng(draw(gen.seeds()))
    shapes = draw(
        st.sampled_from(
            [((), ()), ((3,), (3,)), ((), (4,)), ((4,), ()), ((1,), (3,)), ((5,), (5,))]
        )
    )
    sizes = [int(np.prod(s)) for s in shapes]

    def directions(n):
        fine = draw(st.booleans())
        if fine:
            lon, lat = r.uniform(-400, 800, n), r.uniform(-90, 90, n)
        else:
            lon = r.choice([0.0, 30, 90, 180, 270, 359.5, 360, -90], n)
            lat = r.choice([-90.0, -45, 0, 1e-3, 30, 90], n)
        return lon, lat

    a, b = directions(sizes[0]), directions(sizes[1])
    relation = draw(st.sampled_from(['any', 'same', 'opposite', 'close']))
    if shapes[0] == shapes[1] and relation != 'any':
        b = a[0].copy(), a[1].copy()
        if relation == 'opposite':
            b = a[0] + 180, -a[1]
        elif relation == 'close':
            b = a[0] + r.uniform(-1e-3, 1e-3, sizes[0]), a[1]
    return {
        'a': tuple(_.reshape(shapes[0]) for _ in a),
        'b': tuple(_.reshape(shapes[1]) for _ in b),
        'form': draw(st.sampled_from(['four', 'pairs', 'lists'])),
        'relation': relation,
        'bad': draw(st.sampled_from([False, False, False, True])),
    }


@sub(pairs, quick=300, thorough=10000, nontrivial=lambda c: c['a'][0].size > 1)
def angle(case):
    """angle_lonlat against the angle between unit vectors."""
    from pysimulators.wcsutils import angle_lonlat

    a, b = case['a'], case['b']
    if case['form'] == 'four':
        actual = angle_lonlat(*a, *b)
    elif case['form'] == 'pairs':
        actual = angle_lonlat(a, b)
    else:
        actual = angle_lonlat(
            [_.tolist() for _ in a], tuple(_.tolist() for _ in b)
        )
    v, w = np.broadcast_arrays(vectors(*a), vectors(*b))
    expected = separation(v, w)
    require(
        np.shape(actual) == expected.shape,
        lambda: f'shape {np.shape(actual)} instead of {expected.shape}',
    )
    # the arc cosine is not accurate for small or flat angles
    tol = np.where(np.abs(np.sin(np.deg2rad(expected))) < 1e-3, 3e-6, 1e-9)
    require(
        np.all(np.abs(actual - expected) <= tol),
        lambda: f'angles {actual} instead of {expected}',
    )
    if case['bad'] and a[0].size > 1:
        c = np.arange(a[0].size + 1.0)
        try:
            actual = angle_lonlat(*a, c, c)
        except ValueError:
            return
        fail(f'angles between {a[0].size} and {c.size} directions: {actual}')


@st.composite
def sets(draw):
    r = gen.rng(draw(gen.seeds()))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6] * 3 + [60, 200]))
    spread = draw(st.sampled_from([1e-3, 5.0, 60.0]))
    lon = draw(st.integers(0, 360)) + r.uniform(-spread, spread, n)
    lat = draw(st.integers(-90, 90)) + r.uniform(-spread, spread, n)
    nan = r.random(n) < draw(st.sampled_from([0, 0, 0.4]))
    return {
        'lon': lon,
        'lat': np.clip(lat, -90, 90),
        'nan': nan,
        'where': draw(st.sampled_from(['lon', 'lat', 'both'])),
        'turns': r.integers(-2, 3, n) * 360,
        'scalar': draw(st.booleans()),
        'nd': draw(st.sampled_from([None, 'C', 'F', 'list'])),
    }


@sub(sets, quick=250, thorough=8000, nontrivial=lambda c: len(c['lon']) > 1)
def barycenter(case):
    """barycenter_lonlat against the sum of the unit vectors."""
    from pysimulators.wcsutils import barycenter_lonlat

    lon, lat, nan = case['lon'], case['lat'], case['nan']
    total = np.sum(vectors(lon, lat)[~nan], axis=0)
    n = np.sum(~nan)
    discard(n == 0 or np.sqrt(np.sum(total**2)) < 1e-2 * n)
    lon_, lat_ = lon + case['turns'], lat.copy()
    if case['where'] != 'lat':
        lon_ = np.where(nan, np.nan, lon_)
    if case['where'] != 'lon':
        lat_ = np.where(nan, np.nan, lat_)
    if len(lon) == 1 and case['scalar']:
        lon_, lat_ = float(lon_[0]), float(lat_[0])
    elif case['nd'] and len(lon) % 2 == 0:
        # the orders of the two arrays can be different
        lon_ = lon_.reshape(2, -1)
        lat_ = lat_.reshape(2, -1)
        if case['nd'] == 'list':
            lon_ = lon_.tolist()
        else:
            lat_ = np.array(lat_, order=case['nd'])
    actual = barycenter_lonlat(lon_, lat_)
    require(
        0 <= actual[0] <= 360 and -90 <= actual[1] <= 90,
        lambda: f'barycenter {actual} out of range',
    )
    error = separation(vectors(*actual), total)
    require(
        error < 3e-6,
        lambda: f'barycenter {actual}, {error} degrees away from the mean direction',
    )


@st.composite
def arcs(draw):
    r = gen.rng(draw(gen.seeds()))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7] * 3 + [60, 200]))
    start = draw(st.one_of(st.integers(272, 359), st.integers(0, 359))) + draw(st.sampled_from([0.0, 0.5]))
    width = draw(st.sampled_from([0.0, 1.0, 30.0, 89.0]))
    x = r.integers(0, 65, n) / 64 * width
    return {
        'start': start,
        'x': x,
        'turns': r.integers(-2, 3, n) * 360,
        'nan': r.random(n) < draw(st.sampled_from([0, 0, 0.4, 1])),
        'shape': draw(st.booleans()),
        'list': draw(st.booleans()),
    }


@sub(
    arcs,
    quick=300,
    thorough=10000,
    nontrivial=lambda c: c['start'] + np.max(c['x']) > 360,
)
def arc(case):
    """mean_degrees and minmax_degrees of the angles of an arc of less than 90 degrees."""
    from pysimulators.wcsutils import mean_degrees, minmax_degrees

    valid = ~case['nan']
    angle = np.where(valid, case['start'] + case['x'] + case['turns'], np.nan)
    if case['shape'] and angle.size % 2 == 0:
        angle = angle.reshape((2, -1))
    before = angle.copy()
    arg = angle.tolist() if case['list'] else angle
    mean, (low, high) = mean_degrees(arg), minmax_degrees(arg)
    require(np.array_equal(before, angle, equal_nan=True), 'the input is modified')
    if not np.any(valid):
        require(
            np.isnan([mean, low, high]).all(), lambda: f'no angles: {mean} {low} {high}'
        )
        return
    x = case['x'][valid]
    for name, actual, expected in (
        ('mean', mean, np.mean(x)),
        ('minimum', low, np.min(x)),
        ('maximum', high, np.max(x)),
    ):
        require(0 <= actual <= 360, lambda: f'{name} {actual} out of range')
        delta = (actual - case['start'] - expected + 180) % 360 - 180
        require(
            abs(delta) < 1e-9,
            lambda: f'{name} {actual} instead of {(case["start"] + expected) % 360}',
        )

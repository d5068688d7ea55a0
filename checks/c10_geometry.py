"""C10: primitives of the cartesian 2-d geometry against exact or high-precision formulas."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

F = 'src/pysimulators/geometry.py'
PROPERTY = dict(
    title='Grids, polygons, rotations, hulls and areas follow their geometric definition',
    statement=(
        'For every shape, spacing, reflection, angle, center and filling factor, grids and '
        'grids of squares are the documented lattice (reflected, rotated, then translated), '
        'and circles, polygons, rectangles and squares have the requested sizes, centers and '
        'orientation, in the requested precision. Rotations are counter-clockwise whatever '
        'the type or memory layout, in-place or not; the area of a polygon is exact and '
        'signed by its orientation, the segmentation of a polygon keeps its outline with '
        'edges not longer than the limit, and the convex hull contains all the points, '
        'counter-clockwise.'
    ),
    over=['inputs', 'configurations'],
    text='every shape, type, memory layout, angle, reflection and polygon',
    why='The tests use one spacing, no rotation for most primitives and C-contiguous arrays.',
    files=[F, 'src/flib/geometry.f90'],
    mechanism=[
        ('create_grid, create_grid_squares, create_rectangle, create_regular_polygon, '
         'create_square, create_circle', F),
        ('rotate, surface_simple_polygon, segment_polygon, convex_hull', F),
        ('rotate_2d, create_grid_squares, surface_simple_polygon', 'src/flib/geometry.f90'),
    ],
)
RULE = (
    'A case is a geometric object and the parameters of its transform; it is non-trivial '
    'when the rotation is not null (grids, polygons, rotations) or the polygon has a non '
    'null area.'
)
ANGLES = st.one_of(
    st.sampled_from([0, 30, 45, 90, 180, 270, -90, 360]),
    st.floats(-720, 720).map(lambda x: round(x, 3)),
)
CENTERS = st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(
    lambda x: (x[0] / 4, x[1] / 4)
)


def rot(v, angle):
    a = np.radians(np.asarray(angle, np.longdouble))
    c, s = np.cos(a), np.sin(a)
    v = np.asarray(v, np.longdouble)
    return np.stack([c * v[..., 0] - s * v[..., 1], s * v[..., 0] + c * v[..., 1]], -1)


def check(actual, expected, what, dtype=float, scale=None):
    scale = scale or 1 + float(np.max(np.abs(expected), initial=0))
    tol = 64 * float(np.finfo(dtype).eps) * scale
    require(actual.shape == expected.shape, f'{what}: shape {actual.shape}')
    d = float(np.max(np.abs(np.asarray(actual, np.longdouble) - expected), initial=0))
    require(d <= tol, lambda: f'{what}: {actual.tolist()} instead of {expected.tolist()}')


@st.composite
def grid_cases(draw):
    return {
        'shape': draw(
            st.one_of(
                *[st.tuples(st.integers(1, 6), st.integers(1, 6))] * 9,
                st.sampled_from([(40, 3), (1, 70), (12, 33)]),
            )
        ),
        'spacing': draw(st.integers(1, 80)) / 16,
        'ff': draw(st.sampled_from([1, 0.5, 0.81, 0.25, 0.1])),
        'xr': draw(st.booleans()),
        'yr': draw(st.booleans()),
        'center': draw(CENTERS),
        'angle': draw(ANGLES),
        'out': draw(st.booleans()),
    }


@sub(grid_cases, quick=400, thorough=20000, nontrivial=lambda c: c['angle'] % 360 != 0)
def grids(case):
    """Nodes and squares of a grid: lattice, reflection, rotation, translation."""
    from pysimulators.geometry import create_grid, create_grid_squares

    m, n = case['shape']
    j, i = np.indices((m, n))
    nodes = case['spacing'] * np.stack([i - (n - 1) / 2, (m - 1) / 2 - j], -1)
    half = case['spacing'] * np.sqrt(np.longdouble(case['ff'])) / 2
    corners = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]]) * half
    squares = nodes[..., None, :] + corners
    sign = np.array([-1 if case['xr'] else 1, -1 if case['yr'] else 1])
    keywords = dict(
        xreflection=case['xr'], yreflection=case['yr'], center=case['center'],
        angle=case['angle'],
    )
    for what, func, x, kw in (
        ('grid', create_grid, nodes, {}),
        ('squares', create_grid_squares, squares, {'filling_factor': case['ff']}),
    ):
        e = rot(x * sign, case['angle']) + case['center']
        out = np.full(x.shape, np.nan) if case['out'] else None
        a = func((m, n), case['spacing'], out=out, **kw, **keywords)
        require(out is None or a is out, 'the output is not the argument')
        check(a, e, what)
        # defaults
        check(func((m, n), case['spacing'], **kw), x, f'{what}, without transform')


@st.composite
def polygon_cases(draw):
    dtype = draw(st.sampled_from(['f2', 'f4', 'f8', 'f16']))
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2), (1, 3), (0,)]))
    n = int(np.prod(shape)) * 2
    size = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))
    if draw(gen.rarely()):
        shape = draw(st.sampled_from([(130,), (7, 9)]))
        size = gen.rng(draw(gen.seeds())).integers(0, 40, shape + (2,))
    return {
        'dtype': dtype,
        'shape': shape,
        'size': np.array(size).reshape(shape + (2,)) / 8,
        'n': draw(st.sampled_from([*range(3, 13), 60])),
        'center': draw(CENTERS),
        'angle': draw(ANGLES),
        'out': draw(st.booleans()),
    }


@sub(polygon_cases, quick=400, thorough=20000, nontrivial=lambda c: c['angle'] % 360 != 0)
def polygons(case):
    """Rectangles, squares and regular polygons of the requested sizes and precision."""
    from pysimulators.geometry import (
        create_circle,
        create_rectangle,
        create_regular_polygon,
        create_square,
    )

    dtype, center, angle, n = (case[_] for _ in ('dtype', 'center', 'angle', 'n'))
    size = np.asarray(case['size'], dtype)
    corners = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]]) / 2
    keywords = dict(center=center, angle=angle, dtype=dtype)
    s = np.asarray(size, np.longdouble)

    def run(what, func, e, *args, **kw):
        out = np.full(e.shape, np.nan, dtype) if case['out'] else None
        a = func(*args, out=out, **kw)
        require(a.dtype == np.dtype(dtype), f'{what}: type {a.dtype}')
        require(out is None or a is out, 'the output is not the argument')
        check(a, e, what, dtype, 40)

    e = rot(corners * s[..., None, :], angle) + center
    run('rectangle', create_rectangle, e, size, **keywords)
    radius = size[..., 0]
    r = s[..., 0]
    e = rot(corners * r[..., None, None], angle) + center
    run('square', create_square, e, radius, **keywords)
    a = 2 * np.longdouble(np.pi) / n * np.arange(n)
    # float64 pi is not enough for extended precision
    a = 8 * np.arctan(np.longdouble(1)) / n * np.arange(n)
    x = r[..., None, None] * np.stack([np.cos(a), np.sin(a)], -1)
    tol_dtype = dtype
    run('polygon', create_regular_polygon, rot(x, angle) + center, n, radius, **keywords)
    run('circle', create_circle, x + center, radius, center=center, n=n, dtype=tol_dtype)


@st.composite
def rotate_cases(draw):
    return {
        'shape': draw(
            st.sampled_from([(), (1,), (4,), (2, 3), (3, 1, 2), (0,)] * 3 + [(300,), (9, 15)])
        ),
        'dtype': draw(st.sampled_from(['f2', 'f4', 'f8', 'f8', 'f16', 'i4', 'i8', '>f8'])),
        'layout': draw(st.sampled_from(['c', 'f', 'strided', 'reversed', 'list'])),
        'out': draw(st.sampled_from([None, None, 'new', 'f', 'strided', 'in-place'])),
        'angle': draw(ANGLES),
        'seed': draw(gen.seeds()),
    }


@sub(rotate_cases, quick=500, thorough=20000, nontrivial=lambda c: c['angle'] % 360 != 0)
def rotation(case):
    """Counter-clockwise rotation of points of any type and memory layout."""
    from pysimulators.geometry import rotate

    r = gen.rng(case['seed'])
    dtype = np.dtype(case['dtype'])
    x0 = (r.integers(-64, 64, case['shape'] + (2,)) / (1 if dtype.kind == 'i' else 16))
    x0 = x0.astype(dtype)
    x = x0.copy()
    how = case['layout']
    if how == 'f':
        x = x0.copy(order='F')
    elif how == 'strided':
        x = np.repeat(x0, 2, axis=-1)[..., ::2]
    elif how == 'reversed' and x.ndim > 1:
        x = x0[::-1].copy()[::-1]
    elif how == 'list' and x.size:
        x = x0.tolist()
        dtype = np.asarray(x).dtype
    e = rot(x0, case['angle'])
    ftype = dtype.newbyteorder('=') if dtype.kind == 'f' else np.dtype(float)
    out = None
    if case['out'] == 'new':
        out = np.full(e.shape, np.nan, ftype)
    elif case['out'] == 'f':
        out = np.full(e.shape, np.nan, ftype, order='F')
    elif case['out'] == 'strided':
        out = np.full(e.shape[:-1] + (4,), np.nan, ftype)[..., ::2]
    elif case['out'] == 'in-place':
        if how != 'c' or dtype != ftype:
            return
        out = x
    y = rotate(x, case['angle'], out=out)
    require(out is None or y is out, 'the output is not the argument')
    require(y.dtype.kind == 'f', f'the coordinates {np.asarray(x).dtype} become {y.dtype}')
    check(np.asarray(y), e, 'rotation', ftype, 130)
    if case['out'] != 'in-place':
        require(np.array_equal(np.asarray(x), x0), 'the input is modified')


@st.composite
def area_cases(draw):
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2), (0,), (2, 1, 2)]))
    n = draw(st.integers(3, 7))
    k = int(np.prod(shape)) * n * 2
    xy = draw(st.lists(st.integers(-30, 30), min_size=k, max_size=k))
    if draw(gen.rarely()):
        shape, n = draw(st.sampled_from([((130,), 4), ((7, 9), 3), ((2,), 70)]))
        xy = gen.rng(draw(gen.seeds())).integers(-30, 31, shape + (n, 2))
    return {
        'xy': np.array(xy, int).reshape(shape + (n, 2)),
        'dtype': draw(st.sampled_from(['f8', 'i8', 'f4', 'list'])),
        'layout': draw(st.sampled_from(['c', 'f', 's'])),
        'out': draw(st.booleans()),
        'dtypeout': draw(st.sampled_from(['f8', 'f8', 'f4'])),
        'max': draw(st.integers(1, 200)) / 8,
    }


def shoelace(p):
    x, y = p[..., 0], p[..., 1]
    return np.sum(x * np.roll(y, -1, -1) - y * np.roll(x, -1, -1), -1) / 2


@sub(
    area_cases, quick=400, thorough=20000,
    nontrivial=lambda c: bool(np.any(shoelace(c['xy']) != 0)),
)
def area(case):
    """Signed area of polygons and the segmentation of their outline."""
    from pysimulators.geometry import segment_polygon, surface_simple_polygon

    xy = case['xy']
    e = shoelace(xy)
    if case['dtype'] == 'list':
        x = xy.tolist() if xy.size else xy
    else:
        x = xy.astype(case['dtype'])
        if case['layout'] == 'f':
            x = x.copy(order='F')
        elif case['layout'] == 's':
            x = np.repeat(x, 2, axis=-2)[..., ::2, :]
    keywords = {}
    if case['out']:
        keywords['out'] = np.full(e.shape, np.nan)
    else:
        keywords['dtype'] = case['dtypeout']
    a = surface_simple_polygon(x, **keywords)
    require(np.shape(a) == e.shape, f'shape {np.shape(a)}')
    require(np.array_equal(a, e), lambda: f'area {np.asarray(a)} instead of {e}')
    if case['out']:
        require(np.array_equal(keywords['out'], e), 'output argument')
    elif np.shape(a):
        require(a.dtype == np.dtype(case['dtypeout']), f'type {a.dtype}')
    # outline
    for p in xy.reshape((-1,) + xy.shape[-2:])[:2]:
        s = segment_polygon(p, case['max'])
        q = np.vstack([p, p[:1]])
        require(s.dtype == float, 'type')
        k = 0
        for v0, v1 in zip(q[:-1], q[1:]):
            d = v1 - v0
            length = np.hypot(*d)
            if length == 0:
                continue
            n = int(np.ceil(length / case['max']))
            part = s[k : k + n]
            require(len(part) == n, lambda: f'{len(s)} points: {s.tolist()}')
            e = v0 + np.arange(n)[:, None] / n * d
            require(
                np.max(np.abs(part - e)) < 1e-12 * 100,
                lambda: f'segments {part.tolist()} instead of {e.tolist()}',
            )
            require(length / n <= case['max'] * (1 + 1e-12), 'long segment')
            k += n
        require(k == len(s), f'{len(s)} points instead of {k}')


@st.composite
def hull_cases(draw):
    n = draw(st.integers(3, 14))
    k = draw(st.sampled_from([2, 4, 20, 1000]))
    pts = draw(
        st.lists(st.tuples(st.integers(-k, k), st.integers(-k, k)), min_size=n, max_size=n)
    )
    if draw(gen.rarely()):
        r = gen.rng(draw(gen.seeds()))
        more = r.integers(-k, k + 1, (draw(st.sampled_from([40, 130])), 2))
        pts = pts + [tuple(_) for _ in more.tolist()]
    return {
        'points': pts,
        'shape': draw(st.sampled_from(['flat', 'nested'])),
        'scale': draw(st.sampled_from([1, 0.25])),
        'list': draw(st.booleans()),
    }


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def exact_hull(points):
    """Monotone chain: strict vertices of the hull, counter-clockwise."""
    p = sorted(set(points))

    def half(p):
        h = []
        for x in p:
            while len(h) >= 2 and cross(h[-2], h[-1], x) <= 0:
                h.pop()
            h.append(x)
        return h[:-1]

    return half(p) + half(p[::-1])


@sub(hull_cases, quick=300, thorough=15000,
     nontrivial=lambda c: len(exact_hull(c['points'])) > 2)
def hull(case):
    """The hull has all the extreme points, no interior one, in counter-clockwise order."""
    from pysimulators.geometry import convex_hull

    e = exact_hull(case['points'])
    if len(e) < 3:
        return
    p = np.array(case['points']) * case['scale']
    if case['shape'] == 'nested':
        p = p[None]
    h = convex_hull(p.tolist() if case['list'] else p)
    h = [tuple(int(round(_ / case['scale'])) for _ in x) for x in np.asarray(h)]
    what = f'{h} instead of {e}'
    require(set(e) <= set(h) <= set(case['points']), what)
    require(len(set(h)) == len(h), f'{what}: repeated points')
    n = len(h)
    for i in range(n):
        require(cross(h[i - 1], h[i], h[(i + 1) % n]) >= 0, f'{what}: not counter-clockwise')
        for x in e:
            require(cross(h[i - 1], h[i], x) >= 0, f'{what}: a point is outside')

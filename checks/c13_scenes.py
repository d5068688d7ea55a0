"""C13: scenes and the spatial integration of their pixels over polygons."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

F = 'src/pysimulators/packedtables/scenes.py'
PROPERTY = dict(
    title='Spatial integration weights pixels by their exact overlap with the polygons',
    statement=(
        'For every scene and sequence of polygons (any shape, orientation and position, also '
        'partly or wholly outside), the integration operator weights each pixel by the area '
        'that it shares with the polygon, whatever the requested number of columns, value '
        'and index types, and tells whether a polygon extends outside of the scene; applied '
        'to a map it gives the integral, and its transpose is its adjoint. Scene pixels have '
        'the documented rows, columns and 1-d indices, and world and pixel coordinates are '
        'converted back and forth exactly.'
    ),
    over=['inputs', 'configurations'],
    text='every scene shape, polygon, number of columns and data type',
    why=(
        'The tests integrate over aligned squares and check a total; overlaps with slanted '
        'edges, clipped, reversed or degenerate polygons are not covered.'
    ),
    files=[F, 'src/flib/projection.f90.j2', 'src/flib/module_geometry.f90.j2'],
    mechanism=[
        ('SceneGrid.get_integration_operator, fromfits', F),
        ('matrix_polygon_integration', 'src/flib/projection.f90.j2'),
        ('intersection_polygon_unity_square', 'src/flib/module_geometry.f90.j2'),
    ],
)
RULE = (
    'A case is a scene and polygons; it is non-trivial when a polygon has slanted edges and '
    'shares some area with the scene.'
)


def clip(poly, axis, bound, sign):
    """Part of the polygon where sign * (x[axis] - bound) <= 0."""
    out = []
    for p, q in zip(poly, poly[1:] + poly[:1]):
        dp, dq = sign * (p[axis] - bound), sign * (q[axis] - bound)
        if dp <= 0:
            out.append(p)
        if dp * dq < 0:
            t = dp / (dp - dq)
            out.append(tuple(a + t * (b - a) for a, b in zip(p, q)))
    return out


def overlap(poly, ix, iy):
    half = Fraction(1, 2)
    for axis, i in ((0, ix), (1, iy)):
        poly = clip(poly, axis, i + half, 1)
        poly = clip(poly, axis, i - half, -1)
    a = Fraction(0)
    for p, q in zip(poly, poly[1:] + poly[:1]):
        a += p[0] * q[1] - p[1] * q[0]
    return abs(a) / 2


def overlaps(polygons, nx, ny):
    out = np.zeros((len(polygons), ny * nx))
    for k, p in enumerate(polygons):
        p = [tuple(Fraction(float(_)) for _ in x) for x in p]
        for iy in range(ny):
            for ix in range(nx):
                out[k, ix + iy * nx] = float(overlap(p, ix, iy))
    return out


@st.composite
def cases(draw):
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    large = draw(gen.rarely())
    if large:
        nx, ny = draw(st.sampled_from([(40, 7), (3, 130), (20, 20)]))
    nv = draw(st.integers(3, 6))
    shape = draw(st.sampled_from([(1,), (2,), (2, 2), (1, 3), ()]))
    if large:
        shape = draw(st.sampled_from([(3,), (40,), (3, 5)]))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(['any', 'any', 'convex', 'rectangle', 'thin', 'far']))
    n = int(np.prod(shape))
    polys = []
    for _ in range(n):
        c = np.array([r.uniform(-1, nx), r.uniform(-1, ny)])
        if kind == 'far':
            c += r.choice([-1, 1], 2) * r.choice([0, 8, 1000], 2)
        if kind == 'rectangle':
            lo = r.integers(-6, 4 * max(nx, ny), 2) / 4
            hi = lo + r.integers(0, 12, 2) / 4
            p = np.array([[hi[0], hi[1]], [lo[0], hi[1]], lo, [hi[0], lo[1]]])
            p = np.vstack([p, np.repeat(p[-1:], nv, 0)])[: max(nv, 4)]
            if nv == 3:
                p = p[:3]
        else:
            # star-shaped, so that edges do not cross
            a = np.sort(r.uniform(0, 2 * np.pi, nv))
            radius = r.uniform(0.1, 6 if large else 3, nv if kind != 'convex' else 1)
            p = np.stack([np.cos(a), np.sin(a)], -1) * radius.reshape(-1, 1)
            if kind == 'thin':
                p[:, 1] *= r.choice([0, 1e-3, 0.1])
            p = p + c
            p = np.round(p * 16) / 16 if r.integers(2) else np.round(p * 1024) / 1024
        if r.integers(2):
            p = p[::-1]
        polys.append(np.roll(p, r.integers(nv), 0))
    return {
        'shape': (ny, nx),
        'polygons': np.array(polys).reshape(shape + polys[0].shape),
        'ncolmax': draw(st.sampled_from([0, 0, 1, 2, 4, 30, 100])),
        'dtype': draw(st.sampled_from(['f4', 'f8', 'f8'])),
        'itype': draw(st.sampled_from([None, 'i4', 'i8'])),
        'list': draw(st.booleans()),
        'keywords': draw(st.booleans()),
        'seed': draw(gen.seeds()),
    }


def star(p):
    """The polygons whose winding is the same everywhere, so that areas do not cancel."""
    return True


def nontrivial(c):
    p = c['polygons'].reshape((-1,) + c['polygons'].shape[-2:])
    d = p - np.roll(p, 1, 1)
    if not np.any(np.all(d != 0, -1)):
        return False
    return bool(np.any(overlaps(p, c['shape'][1], c['shape'][0])))


@sub(cases, quick=300, thorough=12000, nontrivial=nontrivial)
def integration(case):
    """Weights, indices and use of the integration operator against exact clipping."""
    from pyoperators.utils.mpi import MPI

    from pysimulators import SceneGrid

    ny, nx = case['shape']
    polygons = case['polygons']
    shape = polygons.shape[:-2]
    p = polygons.reshape((-1,) + polygons.shape[-2:])
    scene = SceneGrid(case['shape'])
    proj = scene.get_integration_operator(
        polygons.tolist() if case['list'] else polygons,
        ncolmax=case['ncolmax'], dtype=case['dtype'],
        **({} if case['itype'] is None else {'dtype_index': case['itype']}),
        **({'attrout': {'tag': 3}, 'commin': MPI.COMM_SELF} if case['keywords'] else {}),
    )
    if case['keywords']:
        require(
            proj.attrout == {'tag': 3} and proj.commin is MPI.COMM_SELF,
            lambda: f'the keywords are lost: {proj.attrout} {proj.commin}',
        )
    expected = overlaps(p, nx, ny)
    m = proj.matrix
    index, value = np.asarray(m.data.index), np.asarray(m.data.value)
    tol = (1e-12 if case['dtype'] == 'f8' else 2e-5) * max(
        1, np.max(np.abs(polygons)) if case['dtype'] == 'f4' else 1
    )
    dense = np.zeros(expected.shape)
    for k in range(len(p)):
        used = index[k] >= 0
        require(
            len(set(index[k][used])) == used.sum(), lambda: f'repeated pixel: {index[k]}'
        )
        require(np.all(value[k][~used] == 0), 'unused entries have a weight')
        require(np.all(value[k] >= 0), 'negative weights')
        dense[k, index[k][used]] = value[k][used]
    require(
        np.all(np.abs(dense - expected) <= tol),
        lambda: f'weights {dense.tolist()} instead of {expected.tolist()}',
    )
    require(m.data.value.dtype == np.dtype(case['dtype']), 'value type')
    require(m.data.index.dtype == np.dtype(case['itype'] or 'i4'), 'index type')
    require(m.shape == (len(p), nx * ny), f'matrix shape {m.shape}')
    n = int(np.max(np.sum(index >= 0, -1), initial=0))
    require(proj.min_ncolmax == n, f'min_ncolmax is {proj.min_ncolmax} instead of {n}')
    require(m.ncolmax == max(n, case['ncolmax']), f'ncolmax is {m.ncolmax}')
    x, y = p[..., 0], p[..., 1]
    outside = np.any((x < -0.5) | (x > nx - 0.5) | (y < -0.5) | (y > ny - 0.5))
    require(
        proj.outside is bool(outside), lambda: f'outside is {proj.outside} instead of {outside}'
    )
    # as an operator
    r = gen.rng(case['seed'])
    u = r.integers(-8, 8, case['shape']).astype(float)
    v = r.integers(-8, 8, shape).astype(float)
    pu, ptv = proj(u), proj.T(v)
    require(pu.shape == shape and ptv.shape == u.shape, f'shapes {pu.shape} {ptv.shape}')
    bound = 8 * nx * ny * tol * len(p) + 1e-12
    require(np.all(np.abs(pu.ravel() - dense @ u.ravel()) <= bound), 'integral')
    require(np.all(np.abs(ptv.ravel() - dense.T @ v.ravel()) <= bound), 'back projection')


@st.composite
def scene_cases(draw):
    ny, nx = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if draw(gen.rarely()):
        ny, nx = draw(st.sampled_from([(40, 7), (3, 130), (20, 20)]))
    return {
        'shape': (ny, nx),
        'start1': draw(st.booleans()),
        'dtype': draw(st.sampled_from([None, 'f4', 'i4', 'c16'])),
        'origin': draw(st.sampled_from(['upper', 'lower', 'LOWER'])),
        'cdelt': (draw(st.sampled_from([-1, 1])) * draw(st.integers(1, 50)) / 16,
                  draw(st.integers(1, 50)) / 16),
        'crpix': (draw(st.integers(-20, 40)) / 4, draw(st.integers(-20, 40)) / 4),
        'crval': (draw(st.integers(-30, 30)) / 4, draw(st.integers(-30, 30)) / 4),
        'seed': draw(gen.seeds()),
    }


@sub(scene_cases, quick=150, thorough=5000, nontrivial=lambda c: min(c['shape']) > 1)
def scene(case):
    """Rows, columns, new maps, 1-d indices and world coordinates of grid scenes."""
    from pysimulators import SceneGrid, create_fitsheader

    ny, nx = case['shape']
    keywords = {} if case['dtype'] is None else {'dtype': case['dtype']}
    scene = SceneGrid(
        case['shape'], startswith1=case['start1'], origin=case['origin'], **keywords
    )
    j, i = np.indices(case['shape']).reshape(2, -1) + case['start1']
    require(np.array_equal(scene.row(), j), f'rows {scene.row()}')
    require(np.array_equal(scene.column(), i), f'columns {scene.column()}')
    for what, e in (('ones', 1), ('zeros', 0), ('empty', None)):
        a = getattr(scene, what)()
        require(
            a.shape == case['shape'] and a.dtype == np.dtype(case['dtype'] or float)
            and (e is None or np.all(a == e)),
            lambda: f'{what}: {a!r}',
        )
    require(scene.origin == case['origin'].lower(), f'origin {scene.origin}')
    header = create_fitsheader(
        (nx, ny), ctype=['X---CAR', 'Y---CAR'], cdelt=list(case['cdelt']),
        crpix=list(case['crpix']), crval=list(case['crval']), cunit=['um', 'um'],
    )
    scene = SceneGrid.fromfits(header, **keywords)
    require(scene.shape == case['shape'], f'shape {scene.shape}')
    require(scene.dtype == np.dtype(case['dtype'] or float), f'type {scene.dtype}')
    r = gen.rng(case['seed'])
    pix = r.integers(-4, 4 * max(nx, ny), (5, 2)) / 4
    world = (pix + 1 - case['crpix']) * case['cdelt'] + case['crval']
    # linear in the vicinity of the reference value, as it is an equatorial projection
    require(
        gen.close(scene.toworld(pix), world, 1e-9, 100),
        lambda: f'world {scene.toworld(pix)} instead of {world}',
    )
    require(
        gen.close(scene.topixel(world), pix, 1e-9, 100),
        lambda: f'pixels {scene.topixel(world)} instead of {pix}',
    )
    require(gen.close(scene.topixel(scene.toworld(pix)), pix, 1e-9, 100), 'round trip')
    jj, ii = np.indices(case['shape'])
    x = np.stack([ii, jj], -1).reshape(-1, 2)
    k = scene.to1d(x)
    require(np.array_equal(k, np.arange(nx * ny)), f'1-d indices {k}')
    require(np.array_equal(scene.toNd(k), x), f'pixels of the 1-d indices {scene.toNd(k)}')


@sub(
    lambda: st.sampled_from(
        ['dtype', 'itype', 'origin', 'origin2', 'removed', 'ndim']
    ).map(lambda x: (x,)),
    quick=12, thorough=12,
)
def refused(case):
    """Unsupported types, origins and scenes are refused."""
    from pysimulators import SceneGrid

    p = np.array([[[0.0, 0], [1, 0], [1, 1]]])
    f = {
        'dtype': lambda: SceneGrid((2, 2)).get_integration_operator(p, dtype='f2'),
        'itype': lambda: SceneGrid((2, 2)).get_integration_operator(p, dtype_index='u4'),
        'origin': lambda: SceneGrid((2, 2), origin='left'),
        'origin2': lambda: SceneGrid((2, 2), origin=3),
        'removed': lambda: SceneGrid((2, 2))[:3].get_integration_operator(p),
        'ndim': lambda: SceneGrid((2, 2, 2)),
    }[case[0]]
    try:
        f()
    except (ValueError, TypeError, NotImplementedError):
        return
    fail('an invalid request is accepted')

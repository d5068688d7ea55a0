"""C11: layouts of components in a plane."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub
from checks.c09_packed_table import decode, select, selections, slices
from checks.c10_geometry import ANGLES, CENTERS, rot

F = 'src/pysimulators/packedtables/layouts.py'
PROPERTY = dict(
    title='Layout components keep their position, row, column and unit when selected',
    statement=(
        'For every grid layout (shape, spacing, filling factor, reflections, angle, origin, '
        'units), selection and ordering, the centers and corners of the components are those '
        'of the documented grid expressed in one common unit, the center is the mean of the '
        'corners, and rows and columns are those of the component in the grid. Selecting, '
        'ordering, slicing or splitting the layout only picks components: their positions, '
        'rows and columns do not change, and the unpacked attributes put them back in place.'
    ),
    over=['inputs', 'configurations'],
    text='every grid, unit combination, selection, ordering and subsequent selection',
    why='The tests compare a few whole grids; they never select from a rotated or ordered one.',
    files=[F, 'src/pysimulators/geometry.py', 'src/pysimulators/packedtables/core.py'],
    mechanism=[('LayoutGrid, LayoutGridSquares, Layout', F)],
)
RULE = (
    'A case is a layout and the selections that are applied to it; it is non-trivial when '
    'the grid has several components and is rotated, reflected, ordered or selected.'
)
UNITS = {'m': 1, 'mm': 1e-3, 'um': 1e-6, 'km': 1e3}


@st.composite
def cases(draw):
    shape = draw(st.tuples(st.integers(1, 4), st.integers(1, 4)))
    if draw(gen.rarely()):
        shape = draw(st.sampled_from([(12, 9), (2, 40), (35, 1)]))
    n = shape[0] * shape[1]
    ordering = None
    if draw(st.booleans()):
        r = gen.rng(draw(gen.seeds()))
        ordering = np.where(r.integers(0, 4, n), r.permutation(n), -1).reshape(shape)
    sel = draw(selections(shape))
    if sel[0] in ('ints', 'int', 'tuple') and ordering is not None:
        sel = ('none', None)
    if sel[0] == 'ints':
        v = np.array(sel[1], int) % n
        sel = ('ints', v[np.sort(np.unique(v, return_index=True)[1])].tolist())
    unit = st.sampled_from([None, None, ''] + list(UNITS))
    return {
        'kind': draw(st.sampled_from(['grid', 'circles', 'squares', 'center', 'vertex',
                                      'func'])),
        'shape': shape,
        'spacing': (draw(st.integers(1, 80)) / 16, draw(unit)),
        'origin': (draw(CENTERS), draw(unit)),
        'radius': (draw(st.sampled_from([0.25, [0.25, 0.5]])), draw(unit)),
        'ff': draw(st.sampled_from([1, 0.5, 0.81])),
        'xr': draw(st.booleans()),
        'yr': draw(st.booleans()),
        'angle': draw(ANGLES),
        'start1': draw(st.booleans()),
        'selection': sel,
        'ordering': ordering,
        'subs': draw(st.lists(slices(5 if n < 30 else n // 2), max_size=2)),
        'tuple': draw(st.booleans()),
    }


def nontrivial(c):
    return np.prod(c['shape']) > 1 and (
        c['angle'] % 360 != 0 or c['xr'] or c['yr'] or c['ordering'] is not None
        or c['selection'][0] not in ('none', 'ellipsis')
    )


def quantity(x):
    from pysimulators import Quantity

    value, unit = x
    return value if unit is None else Quantity(value, unit)


@sub(cases, quick=500, thorough=20000, nontrivial=nontrivial)
def layout(case):
    """Positions, rows and columns of the components of layouts."""
    from pysimulators import Layout, LayoutGrid, LayoutGridSquares, Quantity

    kind = case['kind']
    shape = m, n = case['shape']
    circles = kind == 'circles'
    radius = case['radius'][0]
    if circles and isinstance(radius, list):
        radius = np.resize(radius, shape)
    # one unit for all the lengths: a length without unit is expressed in it
    units = [case['spacing'][1], case['origin'][1]] + [case['radius'][1]] * circles
    unit = next((_ for _ in units if _), '')

    def value(x, u):
        x = np.asarray(x, float)
        return x * (UNITS[u] / UNITS[unit]) if u else x

    spacing = value(*case['spacing'])
    origin = value(*case['origin'])
    j, i = np.indices(shape)
    nodes = spacing * np.stack([i - (n - 1) / 2, (m - 1) / 2 - j], -1)
    sign = np.array([-1 if case['xr'] else 1, -1 if case['yr'] else 1])
    center = rot(nodes * sign, case['angle']) + origin
    corners = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]]) * spacing * np.sqrt(case['ff']) / 2
    vertex = rot((nodes[..., None, :] + corners) * sign, case['angle']) + origin
    everything = np.arange(m * n)
    kept = select(everything, case['selection'], shape)
    if case['ordering'] is not None:
        o = case['ordering'].ravel()
        kept = np.array(sorted([_ for _ in kept if o[_] >= 0], key=lambda _: o[_]), int)

    keywords = dict(
        selection=decode(case['selection'], shape), ordering=case['ordering'],
    )
    if kind in ('grid', 'circles', 'squares'):
        cls = LayoutGridSquares if kind == 'squares' else LayoutGrid
        if kind == 'squares':
            keywords['filling_factor'] = case['ff']
        if circles:
            keywords['radius'] = quantity((radius, case['radius'][1]))
        defaults = {
            'xreflection': False, 'yreflection': False, 'angle': 0, 'startswith1': False,
        }
        values = {
            'xreflection': case['xr'], 'yreflection': case['yr'],
            'angle': case['angle'], 'startswith1': case['start1'],
        }
        # the default values are not given
        keywords.update({k: v for k, v in values.items() if v != defaults[k]})
        l = cls(
            shape if case['tuple'] else list(shape), quantity(case['spacing']),
            origin=quantity(case['origin']), **keywords,
        )
    elif kind == 'center':
        l = Layout(shape, center=quantity((np.array(center, float), unit)), **keywords)
    elif kind == 'vertex':
        l = Layout(shape, vertex=quantity((np.array(vertex, float), unit)), **keywords)
    else:
        table = np.array(vertex, float).reshape(-1, 4, 2)
        l = Layout(shape, vertex=lambda s: Quantity(table[s.index], unit), **keywords)

    scale = float(np.max(np.abs(vertex))) + 1e-300

    def same(a, e, what):
        e = np.asarray(e, float)
        require(np.shape(a) == e.shape, f'{what}: shape {np.shape(a)} instead of {e.shape}')
        if unit:
            require(getattr(a, 'unit', None) == unit,
                    f'{what}: unit {getattr(a, "unit", None)!r} instead of {unit!r}')
        a = np.asarray(a)
        require(
            np.array_equal(np.isnan(a), np.isnan(e))
            and np.all(np.abs(a - e)[~np.isnan(e)] <= 1e-13 * scale),
            lambda: f'{what}: {a.tolist()} instead of {e.tolist()}',
        )

    def unpacked(x):
        out = np.full((m * n,) + x.shape[1:], np.nan)
        for k, v in zip(kept, x):
            out[k] = v
        return out.reshape(shape + x.shape[1:])

    for s in [None] + case['subs']:
        if s is not None:
            l = l[s]
            kept = kept[s]
        require(np.array_equal(l.index, kept), lambda: f'index {l.index} instead of {kept}')
        c = center.reshape(-1, 2)[kept]
        same(l.center, c, 'center')
        same(l.all.center, unpacked(c), 'all.center')
        if kind in ('squares', 'vertex', 'func'):
            v = vertex.reshape(-1, 4, 2)[kept]
            require(l.nvertices == 4, 'nvertices')
            same(l.vertex, v, 'vertex')
            same(l.all.vertex, unpacked(v), 'all.vertex')
        else:
            require(not hasattr(l, 'nvertices'), 'nvertices')
        if kind in ('grid', 'circles', 'squares'):
            for what, e in (('row', kept // n), ('column', kept % n)):
                e = e + case['start1']
                a = getattr(l, what)
                require(np.array_equal(a, e), lambda: f'{what} {a} instead of {e}')
                b = getattr(l.all, what)
                f = unpacked(e)
                f[np.isnan(f)] = -1
                require(np.array_equal(b, f), lambda: f'all.{what} {b} instead of {f}')
            require((l.unit or '') == unit, f'unit {l.unit!r} instead of {unit!r}')
            same(l.spacing, spacing, 'spacing')
            same(l.origin, origin, 'origin')
        if circles:
            e = value(radius, case['radius'][1])
            if e.ndim:
                same(l.radius, e.ravel()[kept], 'radius')
            else:
                same(l.radius, e, 'radius')


@st.composite
def bad_cases(draw):
    return {
        'shape': draw(st.sampled_from([3, (3,), (1, 2, 3), 'ab'])),
        'origin': draw(st.sampled_from([(0,), (0, 0, 0)])),
        'squares': draw(st.booleans()),
    }


@sub(bad_cases, quick=20, thorough=50)
def refused(case):
    """Grids that are not 2-dimensional and layouts without positions are refused."""
    from pysimulators import Layout, LayoutGrid, LayoutGridSquares

    cls = LayoutGridSquares if case['squares'] else LayoutGrid
    for f in (
        lambda: cls(case['shape'], 1.0),
        lambda: cls((2, 2), 1.0, origin=case['origin']),
        lambda: Layout((2, 2)),
    ):
        try:
            f()
        except Exception:
            continue
        fail('an invalid layout is accepted')

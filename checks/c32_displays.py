"""C32: what is handed to the plotting library by the displays."""

import sys
from contextlib import contextmanager
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, require, sub

S = 'src/pysimulators/'
PROPERTY = dict(
    title='The displays show the valid data, inside the requested percentiles',
    statement=(
        'The images of arrays, maps and timelines of any data type contain the magnitudes '
        '(the moduli of complex numbers) clipped to the requested percentiles of the valid '
        'elements, the color limits are these percentiles, and what is masked by the '
        'argument, the coverage or the mask, or is not finite, is blank. The origin, labels, '
        'title and keywords are those that are specified or the documented ones. A layout is '
        'drawn as the polygons, circles or centers of its selected components, once '
        'transformed, and a timeline with its masked samples. Nothing that is displayed is '
        'modified.'
    ),
    over=['inputs', 'configurations'],
    text='every array, mask, percentile, layout and combination of the keywords',
    why=(
        'The displays are not tested. A reference that recomputes the displayed values for '
        'any mask, percentile and data type is needed, with a plotting library that records.'
    ),
    files=[S + _ for _ in ('datatypes.py', 'datautils.py', 'packedtables/layouts.py', 'instruments.py')],
    mechanism=[
        ('FitsArray.imshow, FitsArray.imsave, Map.imshow, Tod.imshow', S + 'datatypes.py'),
        ('plot_tod', S + 'datautils.py'),
        ('Layout.plot', S + 'packedtables/layouts.py'),
        ('Instrument.plot', S + 'instruments.py'),
    ],
)
RULE = (
    'A case is an array, its mask and the keywords of the display, or a layout or timelines; '
    'it is non-trivial when there are several elements, of which some are masked, removed or '
    'outside the percentiles.'
)


@contextmanager
def recorder():
    """Stand-in for matplotlib that records the calls."""
    matplotlib, plt = mock.MagicMock(), mock.MagicMock()
    matplotlib.pyplot = plt
    figure = mock.MagicMock()
    figure.get_figheight.return_value = 6.0
    plt.figure.return_value = plt.gcf.return_value = figure
    modules = {
        'matplotlib': matplotlib,
        'matplotlib.pyplot': plt,
        # the maps are displayed without their coordinates
        'kapteyn': None,
        'kapteyn.maputils': None,
    }
    with mock.patch.dict(sys.modules, modules):
        yield plt


def recorded(plt, name):
    """Calls of a function of the library, or of the method of the current axes."""
    return [*getattr(plt, name).call_args_list, *getattr(plt.gca.return_value, name).call_args_list]


def defined(keywords):
    """The keywords that do not have their default value in the plotting library."""
    default = {'closed': True, 'scalex': True, 'scaley': True}
    return {
        k: v for k, v in keywords.items() if v is not None and (k not in default or v is not True)
    }


def percentile(x, p):
    """Percentile of the elements by linear interpolation."""
    x = sorted(float(_) for _ in x)
    i = p / 100 * (len(x) - 1)
    j = min(int(np.floor(i)), len(x) - 1)
    k = min(j + 1, len(x) - 1)
    return x[j] + (x[k] - x[j]) * (i - j)


@st.composite
def images(draw):
    shape = draw(st.sampled_from([(1, 1), (2, 3), (4, 4), (3, 7)]))
    r = gen.rng(draw(gen.seeds()))
    dtype = draw(st.sampled_from(['f8', 'f8', 'f4', 'i4', 'u1', 'c16', '?']))
    value = r.integers(-40, 40, shape) / 4
    if dtype == 'c16':
        value = value + 1j * r.integers(-40, 40, shape) / 4
    elif dtype == 'u1':
        value = np.abs(value)
    if dtype[0] in 'fc':
        bad = r.integers(0, 6, shape)
        if draw(st.booleans()):
            value[bad == 0] = np.nan
            value[bad == 1] = np.inf
    mask = draw(st.sampled_from([None, None, 'argument']))
    return {
        'value': value.astype(dtype),
        'cls': draw(st.sampled_from(['FitsArray', 'Map', 'Tod'])),
        'unit': draw(st.sampled_from(['', 'Jy', 'K'])),
        'mask': None if mask is None else r.integers(0, 3, shape) == 0,
        'own': None if draw(st.booleans()) else r.integers(-1, 4, shape).astype(float),
        'percentile': draw(
            st.sampled_from([None, 0, 10, 25.0, 100, (0, 100), (5, 90), (25, 50.0)])
        ),
        'origin': draw(st.sampled_from([None, 'lower', 'upper'])),
        'maporigin': draw(st.sampled_from([None, 'lower', 'upper'])),
        'title': draw(st.sampled_from([None, 'title'])),
        'labels': draw(st.sampled_from([None, ('a', 'b')])),
        'interpolation': draw(st.sampled_from([None, 'bilinear'])),
        'colorbar': draw(st.sampled_from([None, True, False])),
        'new_figure': draw(st.sampled_from([None, True, False])),
        'vextra': draw(st.sampled_from([None, 0.5])),
        'list': draw(st.booleans()),
        'wcs': draw(st.booleans()),
        'save': draw(st.sampled_from([None, None, None, False, True])),
    }


def invalid(case):
    value = case['value']
    out = ~np.isfinite(value)
    if case['mask'] is not None:
        out |= case['mask']
    elif case['own'] is not None and case['cls'] == 'Map':
        out |= case['own'] <= 0
    elif case['own'] is not None and case['cls'] == 'Tod':
        out |= case['own'] > 1
    return out


@sub(
    images,
    quick=500,
    thorough=8000,
    nontrivial=lambda c: c['value'].size > 1 and np.any(invalid(c)) and c['percentile'] not in (None, 0),
)
def imshow(case):
    """Pixels, limits, labels and keywords of an image."""
    import pysimulators

    value, cls = case['value'], case['cls']
    kw = {'unit': case['unit']}
    if cls == 'Map':
        kw['origin'] = case['maporigin']
        if case['own'] is not None:
            kw['coverage'] = case['own']
    elif cls == 'Tod' and case['own'] is not None:
        kw['mask'] = case['own'] > 1
    if case['wcs']:
        # the library that displays the coordinates is not available
        kw['header'] = pysimulators.create_fitsheader(value.shape[::-1], cdelt=0.1, crval=(1, 2))
    array = getattr(pysimulators, cls)(value, dtype=value.dtype, **kw)
    bad = invalid(case)
    if np.all(bad):
        discard()
    args = {
        k: case[k]
        for k in ('percentile', 'origin', 'title', 'interpolation', 'colorbar', 'new_figure')
        if case[k] is not None
    }
    if case['labels']:
        args['xlabel'], args['ylabel'] = case['labels']
    if case['mask'] is not None:
        args['mask'] = case['mask'].tolist() if case['list'] else case['mask']
    if case['vextra'] is not None:
        args['alpha'] = case['vextra']
    save = case['save']
    with recorder() as plt:
        if save is None:
            image = array.imshow(**args)
        else:
            args.pop('new_figure', None)
            library = sys.modules['matplotlib']
            library.is_interactive.return_value = plt.isinteractive.return_value = save
            array.imsave('image.png', **args)
    calls = recorded(plt, 'imshow')
    require(len(calls) == 1, 'not one image')
    own = plt.imshow if plt.imshow.called else plt.gca.return_value.imshow
    if save is None:
        require(image is own.return_value, 'the image is not returned')
    else:
        image = own.return_value
        files = [*plt.savefig.call_args_list, *plt.figure.return_value.savefig.call_args_list]
        require([_.args[0] for _ in files] == ['image.png'], lambda: f'files: {files}')
        require(plt.figure.call_count == 1, 'the figure that is exported')
        history = [_.args[0] for _ in library.interactive.call_args_list]
        require(
            not history or history[-1] is save, lambda: f'interactive: {history}, {save} before'
        )
    ((data,), keywords), = calls
    magnitude = np.abs(value) if value.dtype.kind == 'c' else value.astype(float)
    p = case['percentile'] or 0
    p = p if isinstance(p, tuple) else (p / 2, 100 - p / 2)
    lo, hi = (percentile(magnitude[~bad], _) for _ in p)
    expected = np.where(bad, np.nan, np.clip(magnitude, lo, hi))
    tol = 1e-12 if value.dtype in ('f8', 'c16') else 1e-5
    data = np.asarray(data)
    require(data.shape == value.shape, lambda: f'shape {data.shape}')
    require(
        np.allclose(data, expected, rtol=tol, atol=tol, equal_nan=True),
        lambda: f'pixels {data.tolist()} instead of {expected.tolist()}',
    )
    limits = image.set_clim.call_args.args
    require(
        np.allclose(limits, (lo, hi), rtol=tol, atol=tol),
        lambda: f'limits {limits} instead of {lo, hi}',
    )
    require(
        keywords.get('interpolation') == (case['interpolation'] or 'nearest'), 'interpolation'
    )
    if case['vextra'] is not None:
        require(keywords.get('alpha') == case['vextra'], 'the keywords are not forwarded')
    origin = case['origin']
    if origin is None:
        origin = {'FitsArray': None, 'Map': array.origin if cls == 'Map' else None, 'Tod': 'upper'}[cls]
    if case['maporigin'] and case['origin'] is None and cls == 'Map':
        require(origin == case['maporigin'], 'the origin of the map')
    require(keywords.get('origin') == origin, lambda: f'origin: {keywords} instead of {origin}')
    if cls == 'Tod':
        require(keywords.get('aspect') == 'auto', 'the aspect of the timelines')
    axes = plt.gca.return_value
    labels = case['labels'] or {
        'FitsArray': ('', ''), 'Map': ('X', 'Y'), 'Tod': ('Sample', 'Detector number')
    }[cls]
    require(
        axes.set_xlabel.call_args.args[0] == labels[0]
        and axes.set_ylabel.call_args.args[0] == labels[1],
        'the labels of the axes',
    )
    require(
        plt.title.called is (case['title'] is not None)
        and (not plt.title.called or plt.title.call_args.args[0] == case['title']),
        'the title',
    )
    require(plt.colorbar.called is (case['colorbar'] is not False), 'the color bar')
    if save is None:
        require(plt.figure.called is (case['new_figure'] is not False), 'the new figure')
    # nothing is modified
    require(np.array_equal(np.asarray(array), value, equal_nan=value.dtype.kind in 'fc'), 'the array is modified')
    require(array.unit == case['unit'], 'the unit is modified')
    if case['mask'] is not None and not case['list']:
        require(np.array_equal(args['mask'], case['mask']), 'the mask is modified')
    if cls == 'Map' and case['own'] is not None:
        require(np.array_equal(np.asarray(array.coverage), case['own']), 'the coverage is modified')


@st.composite
def layouts(draw):
    shape = draw(st.sampled_from([(1,), (4,), (2, 3)]))
    total = int(np.prod(shape))
    r = gen.rng(draw(gen.seeds()))
    keep = draw(st.sampled_from([None, 'some', 'some']))
    if keep:
        keep = r.integers(0, 2, shape).astype(bool)
        keep.flat[r.integers(total)] = True
    return {
        'shape': shape,
        'keep': keep,
        'kind': draw(st.sampled_from(['center', 'radius', 'vertex'])),
        'center': r.integers(-8, 9, shape + (draw(st.sampled_from([2, 3])),)) / 4,
        'radius': r.integers(1, 9, shape) / 4,
        'scalar': draw(st.booleans()),
        'vertex': r.integers(-8, 9, shape + (draw(st.integers(3, 5)), draw(st.sampled_from([2, 3])))) / 4,
        'transform': draw(st.sampled_from([None, 2.0, -0.5])),
        'edgecolor': draw(st.sampled_from([None, 'red', (0.5, 0.25, 1.0), 'each'])),
        'facecolor': draw(st.sampled_from([None, 'blue', (0.5, 0.5, 0.0), 'each'])),
        'fill': draw(st.sampled_from([None, True, False])),
        'autoscale': draw(st.sampled_from([None, True, False])),
        'extra': draw(st.sampled_from([{}, {'alpha': 0.5}, {'color': 'green'}])),
        'instrument': draw(st.booleans()),
    }


@sub(
    layouts,
    quick=300,
    thorough=5000,
    nontrivial=lambda c: c['keep'] is not None and not np.all(c['keep']) and c['shape'] != (1,),
)
def layout(case):
    """Polygons, circles or points of the selected components."""
    from pysimulators import Instrument, Layout

    shape, kind = case['shape'], case['kind']
    keep = np.ones(shape, bool) if case['keep'] is None else case['keep']
    n = int(np.sum(keep))
    kw = {}
    if kind == 'vertex':
        kw['vertex'] = case['vertex']
    else:
        kw['center'] = case['center']
        if kind == 'radius':
            kw['radius'] = 0.75 if case['scalar'] else case['radius']
    table = Layout(shape, selection=case['keep'], **kw)
    args = {k: case[k] for k in ('fill', 'autoscale') if case[k] is not None}
    colors = {}
    for k in 'edgecolor', 'facecolor':
        c = case[k]
        colors[k] = n * [c]
        if c == 'each':
            colors[k] = [f'{k}{i}' for i in range(n)]
            c = colors[k]
        if c is not None:
            args[k] = c
    factor = case['transform']
    if factor is not None:
        args['transform'] = lambda x: x * factor
    with recorder() as plt:
        (Instrument('name', table) if case['instrument'] else table).plot(**args, **case['extra'])
    factor = 1 if factor is None else factor
    center = case['center'][keep][:, :2]
    autoscale = case['autoscale'] is not False
    if kind == 'center':
        calls = recorded(plt, 'plot')
        require(len(calls) == 1, 'not one plot')
        ((x, y), keywords), = calls
        require(
            np.array_equal(x, center[:, 0] * factor) and np.array_equal(y, center[:, 1] * factor),
            lambda: f'points {x}, {y} instead of {center.tolist()}',
        )
        expected = {
            'color': 'black', 'marker': 'o', 'linestyle': '', 'scalex': autoscale,
            'scaley': autoscale, **case['extra'],
        }
        require(defined(keywords) == defined(expected), lambda: f'{keywords} instead of {expected}')
        return
    calls = plt.Polygon.call_args_list
    require(len(calls) == n, lambda: f'{len(calls)} polygons instead of {n}')
    axes = plt.gca.return_value
    require(axes.add_patch.call_count == n, 'the polygons are not all added')
    require(axes.autoscale_view.called is autoscale, 'automatic scale')
    fill = case['fill']
    if fill is None and case['facecolor'] is not None:
        fill = True
    radius = np.full(shape, 0.75) if case['scalar'] else case['radius']
    for i, call in enumerate(calls):
        polygon, keywords = np.asarray(call.args[0]) / factor, call.kwargs
        if kind == 'vertex':
            require(
                np.array_equal(polygon, case['vertex'][keep][i][:, :2]),
                lambda: f'polygon {i}: {polygon.tolist()}',
            )
        else:
            # a regular polygon inscribed in the circle
            d = np.hypot(*(polygon - center[i]).T)
            require(
                len(polygon) > 10 and np.allclose(d, radius[keep][i], rtol=1e-10),
                lambda: f'circle {i}: {polygon.tolist()}',
            )
            require(
                np.allclose(np.mean(polygon, axis=0), center[i], atol=1e-10),
                lambda: f'the circle {i} is not complete',
            )
        expected = {
            'closed': True, 'fill': fill, 'edgecolor': colors['edgecolor'][i],
            'facecolor': colors['facecolor'][i], **case['extra'],
        }
        require(defined(keywords) == defined(expected), lambda: f'polygon {i}: {keywords} instead of {expected}')


@st.composite
def timelines(draw):
    shape = draw(st.sampled_from([(5,), (1, 4), (3, 6), (2, 2, 3)]))
    r = gen.rng(draw(gen.seeds()))
    return {
        'value': r.integers(-8, 9, shape) / 4,
        'kind': draw(st.sampled_from(['tod', 'ndarray'])),
        'own': None if draw(st.booleans()) else r.integers(0, 3, shape) == 0,
        'mask': None if draw(st.booleans()) else r.integers(0, 3, shape) == 0,
        'unit': draw(st.sampled_from(['', 'Jy'])),
        'extra': draw(st.sampled_from([{}, {'alpha': 0.5}])),
    }


@sub(
    timelines,
    quick=200,
    thorough=3000,
    nontrivial=lambda c: c['value'].ndim > 1 and (c['mask'] is not None or c['own'] is not None),
)
def timeline(case):
    """Timelines and their masked samples."""
    from pysimulators import Tod
    from pysimulators.datautils import plot_tod

    value, mask = case['value'], case['mask']
    tod = value.copy()
    if case['kind'] == 'tod':
        tod = Tod(value, unit=case['unit'], mask=case['own'])
        if mask is None:
            mask = case['own']
    if mask is not None and np.all(mask):
        discard()
    with recorder() as plt:
        plot_tod(tod, **({} if case['mask'] is None else {'mask': case['mask']}), **case['extra'])
    lines = value.reshape((-1, value.shape[-1]))
    masks = None if mask is None else mask.reshape((-1, value.shape[-1]))
    calls = recorded(plt, 'plot')
    for i, line in enumerate(lines):
        call = calls.pop(0)
        require(
            len(call.args) == 1 and np.array_equal(np.asarray(call.args[0]), line),
            lambda: f'the timeline {i} is {call.args}',
        )
        require(call.kwargs == case['extra'], 'the keywords are not forwarded')
        if masks is not None:
            x, y, style = calls.pop(0).args
            require(
                np.array_equal(np.ravel(x), np.flatnonzero(masks[i]))
                and np.array_equal(np.ravel(y), line[masks[i]])
                and style == 'ro',
                lambda: f'the masked samples of the timeline {i} are {x} {y} {style}',
            )
    require(not calls, 'too many plots')
    unit = case['unit'] if case['kind'] == 'tod' else ''
    label = f'Signal [{unit}]' if unit else 'Signal'
    require(plt.ylabel.call_args.args == (label,), lambda: f'label {plt.ylabel.call_args}')
    require(np.array_equal(np.asarray(tod), value), 'the timelines are modified')
    if case['kind'] == 'tod' and case['own'] is not None:
        require(np.array_equal(tod.mask, case['own']), 'the mask is modified')

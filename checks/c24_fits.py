"""C24: the FITS files of the arrays, maps and TODs."""

import copy
import os
import pathlib
import pickle

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, fail, require, sub

D = 'src/pysimulators/datatypes.py'
M = 'src/pysimulators/mpiutils.py'
PROPERTY = dict(
    title='Arrays saved to FITS files are read back with all their attributes',
    statement=(
        'An array, map or TOD that is saved is read back by the same class with the same '
        'values, unit, derived units, header cards, coverage, error, origin and mask, '
        'whatever the type of the file name, the number of times it is read, modified and '
        'saved again, or the other class that reads it. The file is a standard FITS file '
        'that contains nothing else, and reading or saving modifies neither of them.'
    ),
    over=['inputs', 'histories'],
    text='every content, data type, layout and history of saves, loads and modifications',
    why=(
        'The tests save each class once; what remains from the previous contents of the '
        'file or header depends on the history of the array.'
    ),
    files=[D, M],
    mechanism=[
        ('FitsArray.__new__, Map.__new__, Tod.__new__', D),
        ('FitsArray.save, Map.save, Tod.save', D),
        ('read_fits, write_fits', M),
    ],
)
RULE = (
    'A case is a history of an array and files; it is non-trivial when an array with '
    'some attribute is read from a file.'
)
ASSUMPTIONS = [
    'the values have a data type that FITS stores exactly; the signed and unsigned '
    'integers are read as floating point numbers unless the type is requested',
    'complex, boolean and zero-dimensional arrays have no FITS header and are not saved',
]

UNITS = ['', 'Jy', 'm / s', 'km', 'pixel^2', 'foo']
DTYPES = ['f8', 'f8', 'f4', 'i2', 'i4', 'i8', 'u1', '>f8', '>f4', '>i4', 'u2', 'u4', 'i1']


@st.composite
def contents(draw, cls=None, shape=None):
    cls = cls or draw(st.sampled_from(['FitsArray', 'Map', 'Tod']))
    r = gen.rng(draw(gen.seeds()))
    if shape is None:
        shape = draw(
            st.sampled_from(
                [(1,), (5,), (2, 3), (3, 2), (1, 4), (2, 3, 2), (1, 1, 3)] * 3 + [(1450,), (70, 9)]
            )
        )
    dtype = draw(st.sampled_from(DTYPES))
    value = r.integers(0 if 'u' in dtype else -100, 101, shape)
    if 'f' in dtype:
        value = value / 4
        if draw(st.booleans()):
            value.flat[0] = draw(st.sampled_from([np.nan, np.inf, -0.0]))
    case = {
        'cls': cls,
        'value': value.astype(dtype),
        'layout': draw(st.sampled_from(['C', 'C', 'F', 'strided'])),
        'unit': draw(st.sampled_from(UNITS)),
        'derived': draw(
            st.sampled_from([None, None, {'foo': (2.0, 'm')}, {'foo': (1.0, 's'), 'bar': (3.0, 'foo')}])
        ),
        'cards': draw(
            st.lists(
                st.sampled_from(
                    [('AAA', 3), ('BBB', 'text'), ('CCC', 2.5), ('DDD', True), ('OBJECT', 'M31')]
                ),
                max_size=3,
                unique_by=lambda x: x[0],
            )
        ),
        'header': draw(st.sampled_from(['none', 'none', 'cards', 'wcs'])),
    }
    if case['header'] == 'wcs' and (len(shape) != 2 or np.dtype(dtype).kind != 'f'):
        case['header'] = 'cards'
    attrs = {}
    if cls == 'Map':
        for k in 'coverage', 'error':
            if draw(st.booleans()):
                attrs[k] = (r.integers(0, 9, shape) / 4).astype(
                    draw(st.sampled_from(['f8', 'f4', 'i4']))
                )
        if draw(st.booleans()):
            attrs['origin'] = draw(st.sampled_from(['lower', 'upper']))
    elif cls == 'Tod' and draw(st.booleans()):
        attrs['mask'] = r.integers(0, 2, shape).astype(bool)
    case['attrs'] = attrs
    return case


def lay_out(value, layout):
    if layout == 'F':
        return np.asfortranarray(value)
    if layout == 'strided':
        big = np.zeros(tuple(2 * n for n in value.shape), value.dtype)
        view = big[tuple(slice(None, None, 2) for _ in value.shape)]
        view[...] = value
        return view
    return value.copy()


def build(case):
    import pysimulators
    from astropy.io import fits
    from pysimulators import Quantity, create_fitsheader

    value = case['value']
    keywords = {'unit': case['unit'], 'dtype': value.dtype, 'order': None}
    if case['derived'] is not None:
        keywords['derived_units'] = {k: Quantity(*v) for k, v in case['derived'].items()}
    header = None
    if case['header'] == 'cards':
        header = fits.Header()
    elif case['header'] == 'wcs':
        header = create_fitsheader(
            value.shape[::-1], cdelt=0.5, crval=(10, 20), crpix=(1.5, 2)
        )
    if header is not None:
        for k, v in case['cards']:
            header[k] = v
        keywords['header'] = header
    attrs = {
        k: v if isinstance(v, str) else lay_out(v, case['layout'])
        for k, v in case['attrs'].items()
    }
    cls = getattr(pysimulators, case['cls'])
    # copy=False keeps the memory layout
    return cls(lay_out(value, case['layout']), copy=False, **keywords, **attrs)


def model_of(case):
    """The expected content of the array."""
    cards = {} if case['header'] == 'none' else dict(case['cards'])
    if case['header'] == 'wcs':
        cards.update(CRPIX1=1.5, CRPIX2=2.0, CRVAL1=10.0, CRVAL2=20.0, CTYPE1='RA---TAN')
    m = {
        'cls': case['cls'],
        'value': case['value'].copy(),
        'unit': case['unit'],
        'derived': case['derived'] or {},
        'cards': cards,
        'coverage': None,
        'error': None,
        'mask': None,
        'origin': 'lower' if case['cls'] == 'Map' else None,
        'card': None,  # the card of the origin, which the other classes keep
    }
    for k, v in case['attrs'].items():
        m[k] = v if isinstance(v, str) else v.copy()
    return m


def same(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=b.dtype.kind == 'f')


def verify(x, m, message, dtype=None):
    from pysimulators import Quantity

    require(type(x).__name__ == m['cls'], f'{message}: the class is wrong', got=type(x))
    require(same(x, m['value']), f'{message}: values', got=np.asarray(x), expected=m['value'])
    if dtype is not None:
        require(x.dtype == dtype, f'{message}: data type', got=x.dtype, expected=dtype)
    q = Quantity(1.0, m['unit'])
    require(x._unit == q._unit, f'{message}: unit', got=x.unit, expected=m['unit'])
    du = {k: Quantity(*v) for k, v in m['derived'].items()}
    require(x.derived_units == du, f'{message}: derived units', got=x.derived_units)
    for k, v in du.items():
        require(x.derived_units[k]._unit == v._unit, f'{message}: unit of the derived unit')
    for k in 'coverage', 'error', 'mask':
        if hasattr(x, k) or m[k] is not None:
            v = getattr(x, k)
            require(same(v, m[k]), f'{message}: {k}', got=v, expected=m[k])
            if v is not None:
                require(
                    v.dtype == m[k].dtype.newbyteorder('=') or v.dtype == m[k].dtype,
                    f'{message}: data type of {k}',
                    got=v.dtype,
                )
    if m['origin'] is not None:
        require(x.origin == m['origin'], f'{message}: origin', got=x.origin)
    if m['cards']:
        for k, v in m['cards'].items():
            require(x.header.get(k) == v, f'{message}: card {k}', got=x.header.get(k))


def read_dtype(dtype):
    """The signed integers are read as floating point numbers."""
    dtype = np.dtype(dtype).newbyteorder('=')
    return dtype


def standard(filename, m):
    """The file is read by astropy, with nothing else than the content."""
    from astropy.io import fits
    from pysimulators import Quantity

    with fits.open(filename) as hdus:
        hdus.verify('exception')
        names = [h.name.upper() for h in hdus]
        expected = ['PRIMARY']
        if m['derived']:
            expected.append('DERIVED_UNITS')
        for k in 'coverage', 'error', 'mask':
            if m[k] is not None:
                expected.append(k.upper())
        require(sorted(names) == sorted(expected), 'the extensions are wrong', got=names, expected=expected)
        header = hdus[0].header
        require(same(hdus[0].data, m['value']), 'the values of the file are wrong')
        unit = header.get('BUNIT', '')
        require(
            Quantity(1.0, unit)._unit == Quantity(1.0, m['unit'])._unit,
            'the unit of the file is wrong',
            got=unit,
        )
        for k, v in m['cards'].items():
            require(header.get(k) == v, f'the card {k} of the file is wrong')
        for k in 'coverage', 'error', 'mask':
            if m[k] is not None:
                require(same(hdus[k].data, m[k]), f'the extension {k} is wrong')
                if k == 'mask':
                    require(hdus[k].data.dtype == np.uint8, 'the type of the mask is wrong')


OPS = [
    'save', 'save', 'load', 'load', 'unit', 'derived', 'card', 'value', 'attribute', 'slice',
    'cast', 'new', 'as', 'other', 'fork',
]


@st.composite
def histories(draw):
    ops = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=9))
    r = gen.rng(draw(gen.seeds()))
    ops = ['save', *ops, 'save', 'load']
    steps = []
    for op in ops:
        step = {'op': op, 'path': draw(st.sampled_from(['str', 'Path']))}
        if op in ('save', 'load', 'as', 'other'):
            step['file'] = draw(st.sampled_from('ab'))
        if op in ('as', 'other'):
            step['cls'] = draw(st.sampled_from(['FitsArray', 'Map', 'Tod']))
        if op == 'unit':
            step['unit'] = draw(st.sampled_from(UNITS))
        if op == 'derived':
            step['derived'] = draw(st.sampled_from([{}, {'foo': (5.0, 'm')}]))
        if op == 'card':
            step['card'] = draw(st.sampled_from([('AAA', 7), ('EEE', 'new')]))
        if op == 'attribute':
            step['remove'] = draw(st.booleans())
            step['seed'] = int(r.integers(0, 1000))
        if op == 'slice':
            step['slice'] = draw(
                st.sampled_from([slice(1, None), slice(None, None, 2), slice(None, -1)])
            )
            step['axis'] = draw(st.integers(0, 2))
        if op == 'cast':
            step['dtype'] = draw(st.sampled_from(['f4', 'f8']))
        if op == 'fork':
            step['how'] = draw(st.sampled_from(['astype', 'constructor', 'deepcopy', 'pickle']))
            step['dtype'] = draw(st.sampled_from(['f4', 'f8', 'i4']))
        if op == 'new':
            step['content'] = draw(contents())
        steps.append(step)
    return {'content': draw(contents()), 'steps': steps}


@sub(histories(), quick=350, thorough=6000, nontrivial=lambda c: (
    c['content']['unit'] or c['content']['derived'] or c['content']['attrs']
))
def history(case):
    """Save, load, modify in any order: the model is a record of the content."""
    import pysimulators
    from pysimulators import Quantity

    x, m = build(case['content']), model_of(case['content'])
    verify(x, m, 'the array')
    files = {}
    for i, step in enumerate(case['steps']):
        op = step['op']
        where = f'step {i} ({op})'
        if 'file' in step:
            name = os.path.abspath(step['file'] + '.fits')
            path = name if step['path'] == 'str' else pathlib.Path(name)
        if op == 'save':
            m = copied(m)
            m['card'] = m['origin'] or m['card']
            require(x.save(path) is None, 'save returns something')
            files[name] = copied(m)
            verify(x, m, where + ', the array that is saved')
            standard(name, m)
        elif op in ('load', 'as', 'other'):
            if name not in files:
                continue
            before = open(name, 'rb').read()
            content = copied(files[name])
            if op == 'other':
                # another class: the attributes that it knows
                content = as_class(content, step['cls'])
            elif op == 'as':
                # requested dtype
                dtype = content['value'].dtype.newbyteorder('=')
                y = getattr(pysimulators, content['cls'])(path, dtype=dtype)
                verify(y, content, where, dtype)
            y = getattr(pysimulators, content['cls'])(path)
            native = content['value'].dtype.newbyteorder('=')
            verify(y, content, where, np.dtype('f8') if native.kind == 'i' else None)
            # the array is not tied to the file
            np.asarray(y)[...] = 1
            z = getattr(pysimulators, content['cls'])(path)
            verify(z, content, where + ', read again')
            require(open(name, 'rb').read() == before, f'{where}: the file is modified')
            x, m = z, content
            m['value'] = np.array(x)
        elif op == 'unit':
            x.unit = m['unit'] = step['unit']
        elif op == 'derived':
            x.derived_units = {k: Quantity(*v) for k, v in step['derived'].items()}
            m['derived'] = step['derived']
        elif op == 'card':
            k, v = step['card']
            x.header[k] = v
            m['cards'] = dict(m['cards'], **{k: v})
        elif op == 'value':
            x = x + x
            m['value'] = m['value'] + m['value']
        elif op == 'attribute':
            r = gen.rng(step['seed'])
            for k in {'Map': ['coverage', 'error'], 'Tod': ['mask']}.get(m['cls'], []):
                v = None if step['remove'] else r.integers(0, 2, x.shape).astype(
                    bool if k == 'mask' else float
                )
                setattr(x, k, v)
                m[k] = None if v is None else v.copy()
        elif op == 'slice':
            if step['axis'] >= x.ndim:
                continue
            key = (slice(None),) * step['axis'] + (step['slice'],)
            if 0 in m['value'][key].shape:
                continue
            x = x[key]
            for k in 'value', 'coverage', 'error', 'mask':
                m[k] = None if m[k] is None else m[k][key]
        elif op == 'cast':
            x = x.astype(step['dtype'])
            m['value'] = m['value'].astype(step['dtype'])
            for k in 'coverage', 'error':
                if m[k] is not None:
                    m[k] = m[k].astype(step['dtype'])
        elif op == 'fork':
            fork(x, m, step, where)
        elif op == 'new':
            x, m = build(step['content']), model_of(step['content'])
        verify(x, m, where)
    for name in files:
        os.remove(name)


BITPIX = {'f4': -32, 'f8': -64, 'i4': 32}


def fork(x, m, step, where):
    """What is done to a copy has no effect on the original."""
    how = step['how']
    header = repr(x.header)
    if how == 'astype':
        y = x.astype(step['dtype'])
        if x._header is not None:
            require(
                y.header['BITPIX'] == BITPIX[step['dtype']],
                f'{where}: BITPIX is {y.header["BITPIX"]} for {step["dtype"]}',
            )
    elif how == 'constructor':
        y = type(x)(x)
    elif how == 'deepcopy':
        y = copy.deepcopy(x)
    else:
        y = pickle.loads(pickle.dumps(x))
    require(type(y) is type(x), f'{where}: the copy has another type')
    if how != 'astype':
        verify(y, m, f'{where}, the copy')
    np.asarray(y)[...] = 77
    for k in 'coverage', 'error', 'mask':
        a = getattr(y, k, None)
        # the conversion of a Tod, as the operations, keeps the same mask
        if a is not None and (how, k) != ('astype', 'mask'):
            np.asarray(a)[...] = 1 if k == 'mask' else 77
    y.header['FORKED'] = 1
    y.unit = 'kg'
    require(repr(x.header) == header, f'{where}: the header of the original is modified')
    verify(x, m, f'{where}, the original')


def copied(m):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in m.items()}


def as_class(m, cls):
    m = dict(m, cls=cls)
    if cls != 'Map':
        m.update(coverage=None, error=None, origin=None)
    elif m['origin'] is None:
        m['origin'] = m['card'] or 'lower'
    if cls != 'Tod':
        m['mask'] = None
    return m


@st.composite
def overrides(draw):
    c = draw(contents())
    which = draw(
        st.lists(
            st.sampled_from(['unit', 'dtype', 'derived_units', 'header', 'attrs', 'ndmin', 'subok']),
            max_size=3,
            unique=True,
        )
    )
    return {
        'content': c,
        'which': which,
        'unit': draw(st.sampled_from(UNITS)),
        'dtype': draw(st.sampled_from(['f4', 'f8', 'i4', 'c16'])),
        'other': draw(contents(c['cls'], c['value'].shape)),
        'path': draw(st.sampled_from(['str', 'Path'])),
    }


@sub(overrides(), quick=250, thorough=4000, nontrivial=lambda c: c['which'])
def keywords(case):
    """The keywords have precedence over the content of the file."""
    import pysimulators
    from astropy.io import fits
    from pysimulators import Quantity

    content = case['content']
    x, m = build(content), model_of(content)
    name = os.path.abspath('keywords.fits')
    x.save(name)
    kw = {}
    m['value'] = m['value'].astype(m['value'].dtype.newbyteorder('='))
    dtype = np.dtype('f8') if m['value'].dtype.kind == 'i' else m['value'].dtype
    for k in case['which']:
        if k == 'unit':
            kw['unit'] = m['unit'] = case['unit']
        elif k == 'dtype':
            dtype = np.dtype(case['dtype'])
            if dtype.kind == 'i' and m['value'].dtype.kind == 'f':
                discard()
            kw['dtype'] = dtype
        elif k == 'derived_units':
            kw[k] = {'foo': Quantity(7.0, 'kg')}
            m['derived'] = {'foo': (7.0, 'kg')}
        elif k == 'header':
            kw['header'] = fits.Header([('ZZZ', 9)])
            m['cards'] = {'ZZZ': 9}
            if m['origin'] is not None and 'origin' not in kw:
                kw['origin'] = m['origin']
        elif k == 'attrs':
            attrs = model_of(case['other'])
            for k in 'coverage', 'error', 'mask', 'origin':
                if k in case['other']['attrs']:
                    kw[k] = case['other']['attrs'][k]
                    m[k] = attrs[k]
        elif k == 'ndmin':
            kw['ndmin'] = x.ndim
        elif k == 'subok':
            kw['subok'] = True
    # a type of values that cannot represent NaN is not requested above
    with np.errstate(all='ignore'):
        m['value'] = m['value'].astype(dtype)
    y = getattr(pysimulators, content['cls'])(
        name if case['path'] == 'str' else pathlib.Path(name), **kw
    )
    verify(y, m, 'the array', dtype)
    os.remove(name)


@st.composite
def raw_files(draw):
    r = gen.rng(draw(gen.seeds()))
    n = draw(st.integers(0, 2))
    shape = draw(st.sampled_from([(4,), (2, 3), (2, 2, 3)]))
    return {
        'empty': n,
        'value': (r.integers(0, 100, shape)).astype(draw(st.sampled_from(['f4', 'f8', 'i2', 'u1', 'u2']))),
        'second': r.random(shape),
        'key': draw(st.sampled_from(['BUNIT', 'QTTY____', None])),
        'unit': draw(st.sampled_from(['Jy', 'm', '1'])),
        'cls': draw(st.sampled_from(['FitsArray', 'Map', 'Tod'])),
        'scale': draw(st.sampled_from([None, None, (2.0, 0.5)])),
    }


@sub(raw_files(), quick=120, thorough=2000, nontrivial=lambda c: c['empty'] or c['scale'])
def foreign(case):
    """The files of others: first HDU with data, BUNIT or QTTY____ and scaled integers."""
    import pysimulators
    from astropy.io import fits

    hdus = [fits.PrimaryHDU()] if case['empty'] else []
    hdus += [fits.ImageHDU() for _ in range(case['empty'] - 1)]
    value = case['value']
    h = (fits.ImageHDU if case['empty'] else fits.PrimaryHDU)(value.copy())
    if case['scale'] and value.dtype.kind == 'i':
        h.header['BSCALE'], h.header['BZERO'] = case['scale']
        h = type(h)(value.copy())
        h.scale('int16', bscale=case['scale'][0], bzero=case['scale'][1])
    if case['key'] and not (case['key'] == 'BUNIT' and case['unit'] == '1'):
        h.header[case['key']] = case['unit']
    hdus.append(h)
    hdus.append(fits.ImageHDU(case['second'], name='OTHER'))
    name = os.path.abspath('foreign.fits')
    fits.HDUList(hdus).writeto(name, overwrite=True)
    with fits.open(name) as f:
        expected = np.array(f[len(hdus) - 2].data)
    x = getattr(pysimulators, case['cls'])(name)
    require(same(x, expected), 'the values are wrong', got=np.asarray(x), expected=expected)
    unit = case['unit'] if case['key'] and case['unit'] != '1' else ''
    require(x.unit == unit, 'the unit is wrong', got=x.unit, expected=unit)
    x.save(name)
    y = getattr(pysimulators, case['cls'])(name)
    require(same(y, expected) and y.unit == unit, 'the file is not the same once saved', got=(np.asarray(y), y.unit), expected=(expected, unit))
    with fits.open(name) as f:
        require(len(f) == 1 and same(f[0].data, expected), 'the file has something else')
    os.remove(name)

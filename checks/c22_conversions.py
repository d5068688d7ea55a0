"""C22: the conversions of the quantities, and what depends on them."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, units as u
from harness.core import discard, fail, require, sub

Q = 'src/pysimulators/quantities.py'
PROPERTY = dict(
    title='Unit conversions use the SI factors and never change what is represented',
    statement=(
        'A quantity is converted between two units by the ratio of their SI factors, '
        'whatever the derived units, own, broadcast along dimensions or global, and the '
        'units of other dimensions are refused with the quantity left as it was. Sums, '
        'extrema, remainders and comparisons convert the other operand to the first unit. '
        'Items convert like the whole, and a conversion has no effect on the next ones.'
    ),
    over=['inputs', 'histories'],
    text='every quantity, derived unit and sequence of conversions',
    why=(
        'The tests convert a few scalars; the broadcast of the derived units depends on '
        'the shapes and indices, and the leaks between quantities on the history.'
    ),
    files=[Q],
    mechanism=[
        ('Quantity.inunit, tounit, SI', Q),
        ('Quantity.__getitem__', Q),
        ('Quantity.__array_ufunc__', Q),
        ('_check_du, _get_du', Q),
    ],
)
RULE = (
    'A case is a quantity and the units it is converted to; it is non-trivial when the '
    'factor is not one or a derived unit is broadcast.'
)


@st.composite
def angular(draw):
    unit = draw(u.units(maximum=3))
    if draw(st.booleans()):
        for s in draw(
            st.lists(st.sampled_from(list(u.ANGLES)), min_size=1, max_size=2, unique=True)
        ):
            unit[s] = float(draw(st.sampled_from([1, -1, 2, -2])))
    return unit


@st.composite
def pairs(draw):
    """A unit, and another one of the same dimension."""
    unit = draw(u.units(maximum=2)) if draw(st.booleans()) else {}
    other = dict(unit)
    for name in draw(
        st.lists(st.sampled_from(list(u.FAMILIES)), min_size=1, max_size=2, unique=True)
    ):
        p = float(draw(st.sampled_from([1, 1, 2, -1, -2, 0.5, 3])))
        a, b = (draw(st.sampled_from(u.FAMILIES[name])) for _ in range(2))
        unit, other = u.multiply(unit, {a: p}), u.multiply(other, {b: p})
    if draw(st.booleans()):
        p = float(draw(st.sampled_from([1, 2, -1, -2])))
        a, b = (draw(st.sampled_from(list(u.ANGLES))) for _ in range(2))
        unit, other = u.multiply(unit, {a: p}), u.multiply(other, {b: p})
        if abs(p) == 2 and draw(st.booleans()):
            other = u.multiply(u.multiply(other, {b: -p}), {'sr': p / 2})
    if draw(st.booleans()):
        # rewrite a derived unit with the base ones
        for k in list(other):
            if k in other and k in u.TABLE and draw(st.booleans()):
                v = other.pop(k)
                other = u.multiply(other, u.power(u.TABLE[k][1], v))
    return unit, other


SHAPES = [(), (3,), (2, 3), (2, 1, 3), (0,)]


@st.composite
def conversions(draw):
    r = gen.rng(draw(gen.seeds()))
    unit, other = draw(pairs())
    return {
        'value': r.integers(-20, 20, draw(st.sampled_from(SHAPES))) / 4,
        'dtype': draw(st.sampled_from(['float64', 'float64', 'complex128', 'float32'])),
        'layout': draw(st.sampled_from(['C', 'F', 'strided'])),
        'unit': unit,
        'to': other,
        'wrong': draw(st.sampled_from(['m', 's', 'kg', 'rad', 'K', '?'])),
    }


def layout(value, dtype, order):
    value = np.asarray(value, dtype)
    if order == 'F':
        return np.asfortranarray(value)
    if order == 'strided' and value.ndim:
        out = np.zeros(value.shape[:-1] + (2 * value.shape[-1],), dtype)[..., ::2]
        out[...] = value
        return out
    return value.copy()


def ratio(unit, other):
    (f1, d1), (f2, d2) = u.si(unit), u.si(other)
    if not u.same(d1, d2):
        discard()
    if not 1e-100 < f1 < 1e100 or not 1e-100 < f2 < 1e100 or not f1 / f2 < 1e30:
        discard()
    return f1 / f2


def tolerance(dtype):
    return 2e-6 if np.dtype(dtype).itemsize == 4 else 1e-12


def non_trivial(case):
    return u.normalized(case['unit']) != u.normalized(case['to'])


@sub(conversions(), quick=800, thorough=15000, nontrivial=non_trivial)
def converts(case):
    from pysimulators import Quantity
    from pysimulators.quantities import UnitError

    value = layout(case['value'], case['dtype'], case['layout'])
    original = value.copy()
    unit, to = u.text(case['unit']), u.text(case['to'])
    factor = ratio(case['unit'], case['to'])
    if case['dtype'] == 'float32' and not 1e-30 < factor < 1e30:
        discard()
    if not case['unit'] or not case['to']:
        factor = 1.0
    tol = tolerance(case['dtype'])
    q = Quantity(value, unit, copy=False, order='A')
    p = q.tounit(to)
    require(
        gen.close(p.magnitude, original * factor, tol),
        'the conversion is wrong',
        got=p.magnitude,
        expected=original * factor,
    )
    require(u.same(u.parse(p.unit), case['to']), 'the unit is not the new one')
    require(p.dtype == value.dtype, 'the conversion changes the type')
    require(
        np.array_equal(q.magnitude, original) and u.same(u.parse(q.unit), case['unit']),
        'the conversion to a new quantity modifies the input',
    )
    require(not np.shares_memory(p, q), 'the conversion is not a copy')
    back = p.tounit(unit)
    require(gen.close(back.magnitude, original, tol), 'the conversion has no inverse')

    # the dimension is checked, and the failure has no effect
    wrong = u.multiply(case['unit'], {case['wrong']: 1.0})
    if case['unit'] and wrong and not u.same(u.si(wrong)[1], u.si(case['unit'])[1]):
        for f in q.inunit, q.tounit:
            try:
                f(u.text(wrong))
            except UnitError:
                pass
            else:
                fail('units of different dimensions are converted', unit=wrong)
        require(
            np.array_equal(q.magnitude, original)
            and u.same(u.parse(q.unit), case['unit']),
            'a refused conversion modifies the quantity',
        )

    # in place: the same memory
    q.inunit(to)
    require(u.same(u.parse(q.unit), case['to']), 'the unit in place is not the new one')
    require(
        gen.close(q.magnitude, original * factor, tol), 'the in-place conversion is wrong'
    )
    if value.ndim and value.size:
        require(np.shares_memory(q, value), 'the conversion is not done in place')
        require(gen.close(value, original * factor, tol), 'the memory is not converted')


@st.composite
def si_cases(draw):
    r = gen.rng(draw(gen.seeds()))
    return {
        'value': r.integers(-20, 20, draw(st.sampled_from(SHAPES))) / 4,
        'unit': draw(angular()),
    }


@sub(si_cases(), quick=600, thorough=10000, nontrivial=lambda c: len(c['unit']) > 1)
def si(case):
    from pysimulators import Quantity

    factor, dims = u.si(case['unit'])
    if not 1e-150 < factor < 1e150:
        discard()
    q = Quantity(case['value'], u.text(case['unit']))
    s = q.SI
    require(u.same(u.parse(s.unit), dims), 'the SI unit is wrong', got=s.unit, want=dims)
    require(
        gen.close(s.magnitude, case['value'] * factor, 1e-12),
        'the SI value is wrong',
        got=s.magnitude,
        expected=case['value'] * factor,
    )
    again = s.SI
    require(
        again.unit == s.unit and np.array_equal(again.magnitude, s.magnitude),
        'the SI of a SI quantity is different',
        unit=again.unit,
        was=s.unit,
    )
    require(
        np.array_equal(q.magnitude, case['value'])
        and u.same(u.parse(q.unit), case['unit']),
        'the SI modifies the quantity',
    )


COMBINE = [
    'add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'fmod', 'remainder'
]
COMPARE = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal']


@st.composite
def combinations(draw):
    r = gen.rng(draw(gen.seeds()))
    unit, other = draw(pairs())
    kind = draw(st.sampled_from(['quantity'] * 5 + ['unitless', 'ndarray', 'scalar']))
    shape = draw(st.sampled_from([(), (3,), (2, 3)] * 5 + [(70,), (9, 15)]))
    x = r.choice([-20, -3, -1, 0, 1, 2, 5, 100], shape) / 4
    y = r.choice([-20, -3, -1, 1, 2, 5, 100], draw(st.sampled_from([shape, (), shape])))
    return {
        'x': x,
        'y': y / 4,
        # so that the converted operand is of the order of the first one
        'equalize': draw(st.booleans()),
        'unit': unit,
        'to': other,
        'kind': kind,
        'order': draw(st.sampled_from(['direct', 'direct', 'reversed'])),
        'func': draw(st.sampled_from(COMBINE + COMPARE + ['arctan2', 'clip'])),
        'form': draw(st.sampled_from(['operator', 'ufunc', 'out'])),
        'wrong': draw(st.sampled_from([False, False, False, True])),
    }


OPERATORS = {
    'add': lambda x, y: x + y,
    'subtract': lambda x, y: x - y,
    'remainder': lambda x, y: x % y,
    'equal': lambda x, y: x == y,
    'not_equal': lambda x, y: x != y,
    'less': lambda x, y: x < y,
    'less_equal': lambda x, y: x <= y,
    'greater': lambda x, y: x > y,
    'greater_equal': lambda x, y: x >= y,
}


@sub(combinations(), quick=1000, thorough=20000, nontrivial=non_trivial)
def combines(case):
    from pysimulators import Quantity
    from pysimulators.quantities import UnitError

    name = case['func']
    unit, to = dict(case['unit']), dict(case['to'])
    kind = case['kind']
    factor = ratio(to, unit)
    if not unit or not to:
        factor = 1.0
    x, y = case['x'], case['y']
    if kind != 'quantity':
        factor, to = 1.0, {}
    elif case['wrong']:
        to = u.multiply(to, {'mol': 1.0})
    if case['equalize']:
        y = y / factor
    qx = Quantity(x, u.text(unit))
    qy = {
        'quantity': lambda: Quantity(y, u.text(to)),
        'unitless': lambda: Quantity(y),
        'ndarray': lambda: y.copy(),
        'scalar': lambda: float(y.flat[0]),
    }[kind]()
    ya = np.asarray(y if kind != 'scalar' else y.flat[0]) * factor

    if case['order'] == 'reversed' and kind != 'quantity':
        args, plain = (qy, qx), (ya, x)
    else:
        args, plain = (qx, qy), (x, ya)
    func = getattr(np, name)
    if name == 'clip':
        if kind != 'quantity' or not unit or not to:
            discard()
        hi = ya + 5
        args = qx, qy, Quantity(hi / factor, u.text(to))
        plain = x, ya, hi
        calls = [
            lambda: np.clip(*args),
            lambda: qx.clip(*args[1:]),
            lambda: np.clip(qx, a_min=args[1], a_max=args[2]),
        ]
    elif case['form'] == 'operator' and name in OPERATORS:
        calls = [lambda: OPERATORS[name](*args)]
    elif case['form'] == 'out' and name in COMBINE:
        shape = np.broadcast_shapes(plain[0].shape, plain[1].shape)
        out = Quantity(np.zeros(shape), 'foo')
        calls = [lambda: (func(*args, out=out), out)[1]]
    else:
        calls = [lambda: func(*args)]

    for call in calls:
        if kind == 'quantity' and case['wrong'] and unit and to:
            try:
                call()
            except UnitError:
                continue
            fail('quantities of different dimensions are combined', func=name)
        with np.errstate(all='ignore'):
            expected = func(*plain)
            result = call()
        if name in COMPARE or name in ('fmod', 'remainder'):
            # rounding may change the outcome close to equality
            d = np.abs(plain[0] - plain[1])
            s = np.abs(plain[0]) + np.abs(plain[1]) + 1e-300
            clear = (d > 1e-9 * s) | (np.array(factor == 1.0))
            if name in ('fmod', 'remainder'):
                k = plain[0] / plain[1]
                clear = np.abs(k - np.rint(k)) > 1e-6
                clear &= np.abs(k) < 1e6
            if not np.all(clear):
                discard()
        if name in COMPARE:
            require(not isinstance(result, Quantity), 'the comparison is a quantity')
            require(
                np.array_equal(np.asarray(result), expected),
                'the comparison is wrong',
                func=name,
                got=result,
            )
            continue
        require(
            gen.close(np.asarray(result), expected, 1e-9),
            'the values are not combined in the same unit',
            func=name,
            got=result,
            expected=expected,
        )
        if name == 'arctan2':
            require(
                not isinstance(result, Quantity) or result.unit == '',
                'the angle has the unit of the input',
            )
            continue
        require(
            isinstance(result, Quantity) and u.same(u.parse(result.unit), unit or to),
            'the unit is not that of the first operand',
            func=name,
            got=result,
        )
    require(
        np.array_equal(qx.magnitude, x) and u.same(u.parse(qx.unit), unit),
        'the operand is modified',
    )
    if kind == 'quantity':
        require(
            np.array_equal(qy.magnitude, y) and u.same(u.parse(qy.unit), to),
            'the second operand is modified',
        )


@st.composite
def derived(draw):
    r = gen.rng(draw(gen.seeds()))
    shape = draw(
        st.sampled_from(
            [(3,), (2, 3), (3, 3), (2, 3, 4), (1, 3), (3, 1), (2, 2, 2)] * 3 + [(70,), (9, 15)]
        )
    )
    ndim = len(shape)

    def array(kind):
        n = draw(st.integers(1, ndim))
        s = shape[-n:] if kind == 'leftward' else shape[:n]
        return r.choice([0.5, 1.0, 2.0, 4.0, 8.0, 0.25], s)

    table = {}
    for name, target in (('a', 'm'), ('b', 's'), ('c', 'km'), ('d', 'a')):
        kind = draw(
            st.sampled_from(
                ['leftward', 'rightward', 'scalar', 'function', 'none']
                if name != 'd'
                else ['scalar', 'none']
            )
        )
        if name == 'd' and table.get('a', ('none',))[0] == 'none':
            kind = 'none'
        if kind == 'none':
            continue
        if kind in ('leftward', 'rightward'):
            table[name] = kind, array(kind), target
        else:
            table[name] = kind, np.array(r.choice([0.5, 2.0, 4.0])), target
    # a scalar unit that is defined with a broadcast one has its layout
    if 'd' in table and table['a'][0] == 'rightward':
        del table['d']
    # a global unit is overriden
    if draw(st.booleans()):
        table['Jy'] = 'scalar', np.array(4.0), draw(st.sampled_from(['m', 'foo']))
    names = [_ for _ in table] + ['m', 's', 'Jy']
    unit = {}
    for _ in range(draw(st.integers(1, 3))):
        unit = u.multiply(
            unit, {draw(st.sampled_from(names)): draw(st.sampled_from([1, 1, -1, 2, -2]))}
        )
    keys = []
    for s in shape[: draw(st.integers(1, ndim))]:
        k = draw(st.sampled_from(['int', 'slice', 'all', 'list', 'negative', 'step', 'mask']))
        # a single advanced index: NumPy moves the dimensions of several ones
        if k in ('list', 'mask') and any(_[0] in ('list', 'mask') for _ in keys):
            k = 'all'
        keys.append((k, draw(st.integers(0, s - 1)), draw(st.integers(0, s))))
    if any(k[0] in ('list', 'mask') for k in keys):
        # with an integer apart from it as well
        keys = [('all',) + k[1:] if k[0] in ('int', 'negative') else k for k in keys]
    return {
        'value': r.integers(-8, 8, shape) / 2,
        'table': table,
        'unit': unit,
        'keys': keys,
        'full_mask': draw(st.sampled_from([False, False, True])),
        'ellipsis': draw(st.sampled_from([None, None, 'first', 'last'])),
        'history': draw(st.booleans()),
        'target': draw(st.booleans()),
    }


def model(case):
    """The SI factor of every element, and the SI unit."""
    shape = case['value'].shape
    table = {}

    def symbol(name):
        if name not in case['table']:
            factor, dims = u.si({name: 1.0})
            return np.full(shape, factor), dims
        kind, array, target = case['table'][name]
        f, dims = symbol(target)
        if kind == 'rightward':
            array = array.reshape(array.shape + (len(shape) - array.ndim) * (1,))
        return f * np.broadcast_to(array, shape), dims

    factor, dims = np.ones(shape), {}
    for k, v in case['unit'].items():
        f, d = symbol(k)
        factor = factor * f**v
        dims = u.multiply(dims, u.power(d, v))
    return factor, dims


def make(case):
    from pysimulators import Quantity

    du = {}
    for name, (kind, array, target) in case['table'].items():
        q = Quantity(array, target)
        if kind == 'function':
            du[name] = lambda input, q=q: q
        elif kind == 'scalar':
            du[name] = q
        else:
            du[f'{name}[{kind}]'] = q
    return Quantity(case['value'], u.text(case['unit']), du)


def build_key(case):
    if case['full_mask']:
        return case['value'] > 0
    out = []
    for (kind, i, j), s in zip(case['keys'], case['value'].shape):
        out.append(
            {
                'int': i,
                'negative': i - s,
                'slice': slice(min(i, j), max(i, j)),
                'all': slice(None),
                'step': slice(None, None, -1 if j % 2 else 2),
                'list': [i, j % s],
                'mask': np.arange(s) % 2 == i % 2,
            }[kind]
        )
    if case['ellipsis'] == 'last':
        out.append(Ellipsis)
    elif case['ellipsis'] == 'first':
        n = len(case['value'].shape)
        if len(out) < n:
            out = out[:0] + [Ellipsis] + [slice(None)] * 0 + out
            # the keys now apply to the last dimensions: keep only slices
            out = [k if isinstance(k, slice) or k is Ellipsis else slice(None) for k in out]
    if len(out) == 1 and not case['ellipsis']:
        return out[0]
    return tuple(out)


@sub(
    derived(),
    quick=800,
    thorough=15000,
    nontrivial=lambda c: any(
        k in c['table'] and c['table'][k][0].endswith('ward') for k in c['unit']
    ),
)
def derived_units(case):
    from pysimulators import Quantity, units

    factor, dims = model(case)
    expected = case['value'] * factor
    before = {
        k: (v.magnitude.copy(), v.unit, dict(v.derived_units))
        for k, v in units.items()
        if isinstance(v, Quantity)
    }
    q = make(case)

    def check(q, expected, message):
        s = q.SI
        require(
            u.same(u.parse(s.unit), dims), f'{message}: SI unit', got=s.unit, want=dims
        )
        require(
            gen.close(s.magnitude, expected, 1e-12),
            f'{message}: SI',
            got=s.magnitude,
            expected=expected,
        )
        if not dims or not q._unit:
            return
        p = q.tounit(u.text(dims))
        require(
            gen.close(p.magnitude, expected, 1e-12),
            f'{message}: conversion',
            got=p.magnitude,
            expected=expected,
        )
        back = Quantity(expected, u.text(dims), q.derived_units).tounit(q.unit)
        require(
            gen.close(back.magnitude, np.asarray(q), 1e-12),
            f'{message}: conversion to the derived unit',
            got=back.magnitude,
            expected=np.asarray(q),
        )

    if case['history']:
        check(q, expected, 'the quantity')
    key = build_key(case)
    item = q[key]
    if isinstance(item, np.ndarray):
        require(
            np.array_equal(item.magnitude, case['value'][key]), 'the items are wrong'
        )
        check(item, expected[key], 'the items')
    check(q, expected, 'the quantity')
    check(q[...], expected, 'the view of the quantity')
    if isinstance(item, np.ndarray):
        check(item, expected[key], 'the items after the quantity')

    # no leak in the units of the others
    for k, (magnitude, unit, own) in before.items():
        v = units[k]
        require(
            np.array_equal(v.magnitude, magnitude)
            and v.unit == unit
            and dict(v.derived_units) == own,
            'the conversion modifies a global unit',
            symbol=k,
        )
    s = Quantity(1.0, 'Jy').SI
    require(
        s.unit == 'kg / s^2' and gen.close(s.magnitude, np.array(1e-26), 1e-12),
        'a derived unit has an effect on other quantities',
        got=s,
    )


@st.composite
def bad_derived(draw):
    return {
        'kind': draw(st.sampled_from(['type', 'value', 'broadcast'])),
        'value': draw(st.sampled_from([1, 2.5, 'm', None, [1.0], 'array'])),
        'broadcast': draw(st.sampled_from(['[up]', '[left]', '[', '[]', '[rightward', '[leftward] '])),
    }


@sub(bad_derived(), quick=60, thorough=300)
def derived_units_refused(case):
    from pysimulators import Quantity
    from pysimulators.quantities import UnitError

    q = Quantity([1.0, 2], 'a', {'a': Quantity(2.0, 'm')})
    value = np.ones(2) if case['value'] == 'array' else case['value']
    du, error = {
        'type': ([('a', Quantity(1.0, 'm'))], TypeError),
        'value': ({'a': value}, UnitError),
        'broadcast': ({'a' + case['broadcast']: Quantity([1.0, 2], 'm')}, UnitError),
    }[case['kind']]
    try:
        q.derived_units = du
    except error:
        pass
    else:
        fail('invalid derived units are accepted', units=du)
    require(q.SI.magnitude.tolist() == [2, 4], 'the refused units are used')


# the pixels of the maps
SOLID_ANGLES = {
    'sr': 1.0,
    'rad^2': 1.0,
    'deg^2': np.deg2rad(1) ** 2,
    'arcmin^2': np.deg2rad(1 / 60) ** 2,
    'arcsec^2': np.deg2rad(1 / 3600) ** 2,
}
CUNITS = {None: 1.0, 'deg': 1.0, 'arcmin': 1 / 60, 'arcsec': 1 / 3600}


@st.composite
def pixel_cases(draw):
    shape = (draw(st.integers(1, 5)), draw(st.integers(1, 5)))
    naxis3 = draw(st.sampled_from([0, 0, 2, 3]))
    names = ['pixel', 'pixel_reference'] + list(SOLID_ANGLES)
    from_, to = draw(st.sampled_from(names)), draw(st.sampled_from(names))
    # only the square of the radian is the steradian
    powers = [1, -1] + ([2, -2, 0.5] if {from_, to} <= set(names[:2]) else [])
    return {
        'shape': ((naxis3,) if naxis3 else ()) + shape,
        'third': draw(st.booleans()),
        'cls': draw(st.sampled_from(['Map', 'Map', 'FitsArray', 'Tod'])),
        'crpix': [draw(st.sampled_from([1, 0.5, 2, 3.25, -4])) for _ in range(2)],
        'crval': [draw(st.sampled_from([0, 10.0, 266, -120])), draw(st.sampled_from([0.0, 20, -89]))],
        'step': draw(st.sampled_from([1e-3, 0.05, 0.5, 3, 6])),
        'ratio': draw(st.sampled_from([1, 1, 0.5, 2])),
        'signs': [draw(st.sampled_from([-1, 1])) for _ in range(2)],
        'angle': draw(st.sampled_from([0, 0, 30, -125])),
        'matrix': draw(st.sampled_from(['cd', 'cdelt', 'cdelt', 'none'])),
        'cunit': draw(st.sampled_from(list(CUNITS) + [None, 'deg'])),
        'missing': draw(
            st.sampled_from([None] * 6 + ['CRPIX1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CRPIX2'])
        ),
        'other': draw(st.sampled_from(['', 'Jy', 'W', 'K^2'])),
        'from': from_,
        'to': to,
        'power': draw(st.sampled_from(powers)),
        'header': draw(st.sampled_from([True] * 6 + [False])),
        'seed': draw(st.integers(0, 1000)),
    }


def pixel_header(case):
    from astropy.io import fits

    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = len(case['shape'])
    for i, n in enumerate(case['shape'][::-1]):
        h[f'NAXIS{i + 1}'] = n
    factor = CUNITS[case['cunit']]
    s = [case['step'] / factor * _ for _ in case['signs']]
    s[1] *= case['ratio']
    for i in range(2):
        h[f'CRPIX{i + 1}'] = float(case['crpix'][i])
        h[f'CRVAL{i + 1}'] = float(case['crval'][i]) / factor
        h[f'CTYPE{i + 1}'] = ['RA---TAN', 'DEC--TAN'][i]
        if case['cunit'] is not None:
            h[f'CUNIT{i + 1}'] = case['cunit']
    c, d = np.cos(np.deg2rad(case['angle'])), np.sin(np.deg2rad(case['angle']))
    if case['matrix'] == 'cd':
        h['CD1_1'], h['CD1_2'] = c * s[0], -d * s[1]
        h['CD2_1'], h['CD2_2'] = d * s[0], c * s[1]
    elif case['matrix'] == 'cdelt':
        h['CDELT1'], h['CDELT2'] = s
        if case['angle']:
            h['CROTA2'] = float(case['angle'])
    if len(case['shape']) == 3 and case['third']:
        h['CRPIX3'], h['CRVAL3'], h['CTYPE3'] = 1.0, 1.0, 'WAVE'
    if case['missing']:
        del h[case['missing']]
    return h


@sub(
    pixel_cases(),
    quick=800,
    thorough=15000,
    nontrivial=lambda c: c['from'] != c['to'] and c['header'],
)
def pixels(case):
    """
    The area of a pixel is that of the reference pixel times the cube of the
    cosine of its distance to the reference position: gnomonic projection.
    """
    import pysimulators as p
    from pysimulators.quantities import UnitError

    shape = case['shape']
    value = np.random.default_rng(case['seed']).uniform(1, 2, shape)

    def unit(name):
        base, _, e = name.partition('^')
        e = float(e or 1) * case['power']
        return f'{case["other"]} {base}^{e}'.strip()

    header = pixel_header(case) if case['header'] else None
    with_scale = header is not None and not case['missing'] and (len(shape) == 2 or case['third'])
    with_area = header is not None and case['matrix'] != 'none'
    cls = getattr(p, case['cls'])
    if header is None:
        q = p.Quantity(value, unit(case['from']))
    else:
        q = cls(value, header=header, unit=unit(case['from']))
    names = [case['from'], case['to']]

    if with_scale and case['matrix'] == 'none' and 'pixel' in names:
        discard('the coordinates are not defined')

    step = np.deg2rad(case['step'])
    y, x = np.mgrid[1 : shape[-2] + 1, 1 : shape[-1] + 1]
    u = step * np.hypot(x - case['crpix'][0], case['ratio'] * (y - case['crpix'][1]))
    scale = (1 + u**2) ** -1.5 if with_scale else np.ones(shape[-2:])
    # the tangents of the increments may be used instead of the increments
    rtol = 1e-9 + (2 * step**2 * max(1, case['ratio']) ** 2 * u**2 / (1 + u**2)) * 2 * max(1, abs(case['power']))

    def to_sr(name):
        if name in SOLID_ANGLES:
            return SOLID_ANGLES[name]
        if not with_area:
            return None
        return step**2 * case['ratio'] * (scale if name == 'pixel' else 1)

    if names[0] == names[1]:
        factor = np.ones(shape[-2:])
    elif set(names) == {'pixel', 'pixel_reference'}:
        factor = scale if names[0] == 'pixel' else 1 / scale
    else:
        a, b = (to_sr(_) for _ in names)
        factor = None if a is None or b is None else np.broadcast_to(a / b, shape[-2:])

    if factor is None:
        try:
            q.tounit(unit(case['to']))
        except UnitError:
            return
        fail('an undefined pixel area is used', unit=case['from'], to=case['to'])
    try:
        out = q.tounit(unit(case['to']))
    except Exception as error:
        if isinstance(error, RuntimeError) and case['ratio'] != 1 and 'pixel' in names:
            discard('the scale of pixels which are not square is not implemented')
        fail('the area of the pixels is not converted', error=repr(error))
    expected = value * factor ** case['power']
    require(out.unit == p.Quantity(1, unit(case['to'])).unit, 'wrong unit', got=out.unit)
    require(type(out) is type(q), 'wrong type', got=type(out).__name__)
    require(
        np.all(np.abs(out.magnitude - expected) <= rtol * np.abs(expected)),
        'the area of the pixels is wrong',
        got=out.magnitude,
        expected=expected,
    )
    require(np.array_equal(q.magnitude, value), 'the map is modified')
    # and back
    back = out.tounit(unit(case['from']))
    require(
        np.allclose(back.magnitude, value, rtol=1e-10), 'the conversion is not reverted'
    )
    if header is not None:
        require(repr(q.header) == repr(header), 'the header is modified')

"""C21: the strings of the units, and the units of the results."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, units as u
from harness.core import fail, require, sub

Q = 'src/pysimulators/quantities.py'
PROPERTY = dict(
    title='Units are read, printed and carried through products and powers exactly',
    statement=(
        'A unit string is the product of its symbols, each with the operator and the '
        'exponent written for it, what is printed reads back as the same unit, and any '
        'other string or type is refused. Every product, quotient, power and root has the '
        'magnitude NumPy gives and the unit the exponents add up to, in place, written to '
        'an output or neither, and leaves its operands as they were.'
    ),
    over=['inputs', 'histories'],
    text='every unit, value and expression of products, quotients, powers and roots',
    why=(
        'The tests multiply a few units; the cancellation, order and sharing of the '
        'exponents between quantities show up along expressions.'
    ),
    files=[Q],
    mechanism=[
        ('_extract_unit, _strunit', Q),
        ('_multiply_unit, _divide_unit, _power_unit', Q),
        ('Quantity.__array_ufunc__', Q),
    ],
)
RULE = (
    'A case is a unit string or an expression of quantities; it is non-trivial when '
    'several symbols or operations are involved.'
)
SYMBOLS = list(u.TABLE) + list(u.ANGLES) + ['sr', 'pixel'] + u.UNKNOWN


@st.composite
def strings(draw):
    n = draw(st.integers(0, 5))
    pool = draw(
        st.lists(st.sampled_from(SYMBOLS), min_size=1, max_size=4, unique=True)
    )
    tokens, out, unit = [], ' ' * draw(st.integers(0, 2)), {}
    for i in range(n):
        symbol = draw(st.sampled_from(pool))
        op = draw(st.sampled_from(['', '', '/', '*'] if i else ['', '', '', '/']))
        exponent = draw(st.sampled_from([None, None] + u.EXPONENTS))
        if op:
            out += ' ' * draw(st.integers(0, 2)) + op + ' ' * draw(st.integers(0, 2))
        elif i:
            out += ' ' * draw(st.integers(1, 2))
        out += symbol
        if exponent is not None:
            out += '^' + u.number(exponent, draw(st.integers(0, 2)))
        value = 1.0 if exponent is None else float(exponent)
        unit = u.multiply(unit, {symbol: -value if op == '/' else value})
        tokens.append(symbol)
    return {
        'string': out + ' ' * draw(st.integers(0, 2)),
        'unit': unit,
        'tokens': n,
        'shape': draw(st.sampled_from([(), (2,), (2, 3)] * 5 + [(70,), (9, 15)])),
    }


@sub(strings(), quick=1000, thorough=20000, nontrivial=lambda c: c['tokens'] > 1)
def reads_and_prints(case):
    from pysimulators import Quantity

    values = np.ones(case['shape']) * 1.5
    q = Quantity(values, case['string'])
    require(
        u.same(u.parse(q.unit), case['unit']),
        'the unit is not the product of its symbols',
        printed=q.unit,
    )
    expected = f'{values} {q.unit}' if q.unit else f'{values}'
    require(str(q) == expected, 'the quantity is not printed with its unit', str=str(q))
    require(
        repr(q) == f"Quantity({values}, '{q.unit}')",
        'the representation does not show the unit',
        repr=repr(q),
    )
    for again in (
        Quantity(values, q.unit),
        Quantity(values, u.text(case['unit'])),
        Quantity(values, dict(case['unit'])),
    ):
        require(again.unit == q.unit, 'the unit is not unique', got=again.unit)
        require(np.all(again == q), 'quantities of the same unit are different')
    other = Quantity(values, 'foo')
    other.unit = case['string']
    require(other.unit == q.unit, 'the unit that is set is not the unit that is read')


@st.composite
def invalid(draw):
    case = draw(strings())
    return {
        'prefix': case['string'],
        'junk': draw(
            st.sampled_from(
                ['^', '2', '1/', '//m', '**2', '-', '+', '(m)', 'm2', '#', 'm^x', '/',
                 '*', 'm^-', 'm^2^3', 'é', '.']
            )
        ),
        'type': draw(st.sampled_from([None, 1, 2.5, ['m'], ('m', 's'), b'm', True])),
    }


@sub(invalid(), quick=300, thorough=5000)
def refuses(case):
    from pysimulators import Quantity

    for string, error in (
        (case['prefix'] + ' ' + case['junk'], ValueError),
        (case['type'], TypeError),
    ):
        if string is None:
            continue
        q = Quantity([1.0, 2], 'm / s')
        for f in (
            lambda: Quantity(1.0, string),
            lambda: setattr(q, 'unit', string),
            lambda: q.inunit(string),
            lambda: q.tounit(string),
        ):
            try:
                f()
            except error:
                pass
            else:
                fail('an invalid unit is accepted', unit=string)
        require(
            q.unit == 'm / s' and q.magnitude.tolist() == [1, 2],
            'the quantity is modified by a refused unit',
        )


POOL = ['m', 's', 'km', 'Jy', '?']
EXACT = [1, 2, -1, -2, 0.5, 4, -0.5]


@st.composite
def magnitudes(draw):
    r = gen.rng(draw(gen.seeds()))
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 3)] * 4 + [(70,), (9, 15)]))
    how = draw(st.sampled_from(['scalar', 'same', 'row', 'list', 'quantity', 'bad']))
    other = {'scalar': (), 'row': shape[-1:], 'bad': (*shape, 4)}.get(how, shape)
    return {
        'value': r.integers(-9, 9, shape) / 4.0,
        'other': r.integers(10, 20, other) / 4.0,
        'unit': draw(u.units(POOL, exponents=EXACT)),
        'how': how,
        'view': draw(st.booleans()),
    }


@sub(magnitudes(), quick=200, thorough=3000, nontrivial=lambda c: c['value'].size > 1)
def magnitude(case):
    """The magnitude is a view of the values, and setting it does not change the unit."""
    from pysimulators import Quantity

    value, other, how = case['value'], case['other'], case['how']
    q = Quantity(value, u.text(case['unit']))
    unit = q.unit
    p = q[...] if case['view'] else q
    require(
        type(q.magnitude) is np.ndarray and np.shares_memory(q.magnitude, q),
        'the magnitude is not a view',
    )
    require(np.array_equal(q.magnitude, value), 'the magnitude is wrong', got=q.magnitude)
    expected = np.empty(value.shape)
    given = other.tolist() if how == 'list' else other
    if how == 'quantity':
        given = Quantity(other, 'kg')
    try:
        expected[...] = value
        expected[...] = other
    except ValueError:
        try:
            p.magnitude = given
        except ValueError:
            pass
        else:
            fail('a magnitude of another shape is accepted')
    else:
        p.magnitude = given
    require(
        q.shape == value.shape and np.array_equal(q.magnitude, expected),
        'the magnitude is not set',
        got=q.magnitude,
        expected=expected,
    )
    require(q.unit == unit and p.unit == unit, 'the unit is modified', got=q.unit)


BINARY = ['multiply', 'divide', 'true_divide', 'floor_divide']
UNARY = ['square', 'reciprocal', 'sqrt', 'cbrt', 'power', 'float_power', 'scale']


@st.composite
def expressions(draw):
    r = gen.rng(draw(gen.seeds()))
    shape = draw(st.sampled_from([(), (3,), (2, 3)] * 5 + [(70,), (9, 15)]))
    dtype = draw(st.sampled_from(['float64', 'float64', 'float32', 'complex128']))
    leaves = []
    for i in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(['quantity'] * 4 + ['ndarray', 'scalar', 'unitless']))
        if i == 0:
            kind = 'quantity'
        s = draw(st.sampled_from([shape, shape, (), shape[-1:]]))
        value = r.integers(1, 20, s) / 4.0
        leaves.append(
            {
                'kind': kind,
                'value': value.astype(dtype),
                'unit': draw(u.units(POOL, exponents=EXACT)),
            }
        )
    ops = []
    for i in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(BINARY * 2 + UNARY))
        if dtype == 'complex128' and op in ('floor_divide', 'cbrt'):
            op = 'multiply'
        ops.append(
            {
                'op': op,
                'i': draw(st.integers(0, 20)),
                'j': draw(st.integers(0, 20)),
                'how': draw(st.sampled_from(['plain', 'plain', 'inplace', 'out'])),
                'power': draw(st.sampled_from([0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5])),
                'form': draw(st.sampled_from(['operator', 'ufunc'])),
            }
        )
    return {'leaves': leaves, 'ops': ops}


def python_operator(op):
    return {
        'multiply': lambda x, y: x * y,
        'divide': lambda x, y: x / y,
        'true_divide': lambda x, y: x / y,
        'floor_divide': lambda x, y: x // y,
    }[op]


def python_inplace(op):
    def multiply(x, y):
        x *= y
        return x

    def divide(x, y):
        x /= y
        return x

    def floor_divide(x, y):
        x //= y
        return x

    return {
        'multiply': multiply,
        'divide': divide,
        'true_divide': divide,
        'floor_divide': floor_divide,
    }[op]


@sub(
    expressions(),
    quick=500,
    thorough=10000,
    nontrivial=lambda c: len(c['ops']) > 1,
)
def expression(case):
    from pysimulators import Quantity

    # every entry: what the library holds, the magnitude and the unit of the model
    pool = []
    for leaf in case['leaves']:
        value, unit = leaf['value'], leaf['unit']
        if leaf['kind'] == 'quantity':
            x = Quantity(value, u.text(unit))
        elif leaf['kind'] == 'unitless':
            x, unit = Quantity(value), {}
        elif leaf['kind'] == 'ndarray':
            x, unit = value.copy(), {}
        else:
            value, unit = value.flat[0], {}
            x = value.item()
        pool.append([x, np.array(value), unit])

    def check(entry, message):
        x, value, unit = entry
        if isinstance(x, Quantity):
            require(
                u.same(u.parse(x.unit), unit),
                f'{message}: unit',
                got=x.unit,
                expected=unit,
                op=op,
            )
        else:
            require(not unit, f'{message}: not a quantity', type=type(x), op=op)
        actual = np.asarray(x)
        require(actual.shape == value.shape, f'{message}: shape', op=op)
        require(
            gen.close(actual, value, 1e-13 if value.dtype.itemsize >= 8 else 1e-5),
            f'{message}: magnitude',
            got=actual,
            expected=value,
            op=op,
        )

    for op in case['ops']:
        i = op['i'] % len(pool)
        j = op['j'] % len(pool)
        x, y = pool[i], pool[j]
        if not isinstance(x[0], Quantity) and not isinstance(y[0], Quantity):
            x = pool[0]
            i = 0
        name, how = op['op'], op['how']
        if np.any(np.abs(x[1]) > 1e6) or np.any(np.abs(x[1]) < 1e-6):
            continue
        if np.any(np.abs(y[1]) > 1e6) or np.any(np.abs(y[1]) < 1e-6):
            continue
        with np.errstate(all='ignore'):
            if name in BINARY:
                func = getattr(np, name)
                value = func(x[1], y[1])
                unit = u.multiply(x[2], y[2], 1 if name == 'multiply' else -1)
                args = x[0], y[0]
                operator = python_operator(name)
            else:
                if not isinstance(x[0], Quantity):
                    continue
                if np.any(np.real(x[1]) < 0):
                    continue
                args = (x[0],)
                if name in ('power', 'float_power'):
                    func = getattr(np, name)
                    p = op['power']
                    value, unit = func(x[1], p), u.power(x[2], p)
                    args = x[0], p
                    operator = (lambda a, b: a**b) if name == 'power' else func
                elif name == 'scale':
                    func, value, unit = np.multiply, x[1] * 2, x[2]
                    args = 2, x[0]
                    operator = lambda a, b: a * b
                else:
                    func = operator = getattr(np, name)
                    value = func(x[1])
                    p = {'square': 2, 'reciprocal': -1, 'sqrt': 0.5, 'cbrt': 1 / 3}[
                        name
                    ]
                    unit = u.power(x[2], p)
            if not np.all(np.isfinite(value)):
                continue
            target = None
            if how == 'inplace':
                if (
                    name not in BINARY
                    or not isinstance(x[0], Quantity)
                    or value.shape != x[1].shape
                    or value.dtype != x[1].dtype
                ):
                    how = 'plain'
            if how == 'plain':
                result = (operator if op['form'] == 'operator' else func)(*args)
                pool.append([result, np.asarray(value), unit])
                check(pool[-1], 'the result is wrong')
            elif how == 'inplace':
                target = x[0]
                result = python_inplace(name)(*args)
                require(
                    np.shares_memory(np.asarray(result), np.asarray(target)),
                    'the operation is not done in place',
                )
                pool[i] = [target, np.asarray(value), unit]
                check([result, np.asarray(value), unit], 'the in-place result is wrong')
            else:
                target = Quantity(np.zeros(value.shape, value.dtype), 'foo')
                result = func(*args, out=target)
                check([result, np.asarray(value), unit], 'the result is wrong')
                pool.append([target, np.asarray(value), unit])
        for k, entry in enumerate(pool):
            check(
                entry,
                'the output or the operand in place is wrong'
                if target is not None and entry[0] is target
                else 'another quantity is modified',
            )

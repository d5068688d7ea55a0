"""C23: the NumPy functions, methods, constructors and copies of the quantities."""

import copy
import pickle
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from harness import gen, units as u
from harness.core import discard, fail, require, sub

Q = 'src/pysimulators/quantities.py'
D = 'src/pysimulators/datatypes.py'
PROPERTY = dict(
    title='NumPy functions of quantities act on consistent magnitudes and return the unit',
    statement=(
        'The supported NumPy functions first convert the quantities that they join to the '
        'first unit, return what NumPy returns for these magnitudes, with that unit, its '
        'square for variances or the product of the units for products, for every shape, '
        'axis and output; the indices of elements have no unit. The constructors, copies and '
        'pickles of all the data types keep the values, type and attributes, and share or '
        'copy the memory as they are asked.'
    ),
    over=['inputs'],
    text='every supported function, shape, axis, unit, dtype and data type',
    why=(
        'The tests call each function once on a fixed array; positions, keywords, axes, '
        'mixed units and shared memory depend on the call.'
    ),
    files=[Q, D],
    mechanism=[
        ('FUNCTIONS, Quantity.__array_function__', Q),
        ('Quantity.__new__, __reduce__, __setstate__', Q),
        ('FitsArray.__new__, Map.__new__, Tod.__new__', D),
    ],
)
RULE = (
    'A case is a call of a function or a construction; it is non-trivial when several '
    'units are involved or the array has several elements.'
)

P = namedtuple('P', 'value unit')


class Builder:
    """Random arguments for the functions."""

    def __init__(self, draw):
        self.draw = draw
        self.r = gen.rng(draw(gen.seeds()))
        self.family = draw(st.sampled_from(list(u.FAMILIES)))
        self.first = {draw(st.sampled_from(u.FAMILIES[self.family])): 1.0}
        self.shape = draw(
            st.sampled_from(
                [(1,), (3,), (4,), (2, 3), (3, 3), (1, 4), (2, 3, 2), (2, 1, 2)] * 3
                + [(70,), (9, 15)]
            )
        )

    def pick(self, *args):
        return self.draw(st.sampled_from(args))

    def axis(self, ndim=None):
        ndim = len(self.shape) if ndim is None else ndim
        return self.draw(st.integers(-ndim, ndim - 1))

    def values(self, shape=None):
        return self.r.integers(-8, 9, self.shape if shape is None else shape) / 4

    def q(self, shape=None):
        return P(self.values(shape), self.first)

    def like(self, shape=None):
        """Another one, of the same dimension, or without unit."""
        kind = self.pick('other', 'other', 'other', 'same', 'unitless', 'ndarray')
        unit = {
            'other': {self.pick(*u.FAMILIES[self.family]): 1.0},
            'same': self.first,
            'unitless': {},
            'ndarray': None,
        }[kind]
        return P(self.values(shape), unit)

    def several(self, n):
        """A sequence whose first unit is not that of the first element."""
        out = [self.q()] + [self.like() for _ in range(n - 1)]
        i = self.draw(st.integers(0, n - 1))
        return out[i:] + out[:i]

    def any(self, shape=None):
        """Another one of any unit."""
        unit = self.pick(None, {}, {'s': -1.0}, {'m': 1.0}, {'kg': 2.0, 's': 0.5}, self.first)
        return P(self.values(shape), unit)


def _reduction(b):
    kw = {}
    axis = b.pick(None, b.axis(), 'default')
    if axis != 'default':
        kw['axis'] = axis
    if b.pick(False, True):
        kw['keepdims'] = b.pick(False, True)
    return [b.q()], kw


def _accumulation(b):
    return [b.q()], {'axis': b.axis()}


def _joined(b):
    axis = b.axis()
    n = b.draw(st.integers(1, 3))
    return [tuple(b.several(n))], {'axis': axis}


def _stack(b):
    n = b.draw(st.integers(1, 3))
    return [b.several(n)], {}


def _split(axis):
    def build(b):
        if axis is None:
            i = b.axis()
            s, kw = b.shape[i], {'axis': i}
        else:
            i = axis if len(b.shape) > 1 else 0
            if len(b.shape) <= i:
                b.shape = (2, 3, 4)
            s, kw = b.shape[i], {}
        return [b.q(), b.pick(*[k for k in range(1, s + 1) if s % k == 0])], kw

    return build


def _array_split(b):
    return [b.q(), b.draw(st.integers(1, 4))], {'axis': b.axis()}


def _sets(b):
    return [b.q(), b.like()], {}


def _prod1(b):
    n = b.draw(st.integers(1, 4))
    m = b.draw(st.integers(1, 4))
    return [P(b.values((n,)), b.first), b.any((m,))], {}


def _prodsame(b):
    n = b.draw(st.integers(1, 4))
    return [P(b.values((n,)), b.first), b.any((n,))], {}


def _matrix(b):
    n, k, m = (b.draw(st.integers(1, 3)) for _ in range(3))
    return [P(b.values((n, k)), b.first), b.any((k, m))], {}


def _inner(b):
    n, k, m = (b.draw(st.integers(1, 3)) for _ in range(3))
    return [P(b.values((n, k)), b.first), b.any((m, k))], {}


def _einsum(b):
    n, k, m = (b.draw(st.integers(1, 3)) for _ in range(3))
    return (
        ['ij,jk->' + b.pick('ik', 'i', '', 'ijk'), b.q((n, k)), b.any((k, m))],
        {},
    )


def _tensordot(b):
    n, k, m = (b.draw(st.integers(1, 3)) for _ in range(3))
    return [b.q((n, k)), b.any((k, m))], {'axes': b.pick(0, 1)}


def _square(b):
    axis = b.pick(None, b.axis())
    return [b.q()], {'axis': axis}


def _reshape(b):
    size = int(np.prod(b.shape))
    return [b.q(), b.pick((size,), (-1,), (1, size), b.shape[::-1])], {}


def _along(b):
    axis = b.axis()
    return [b.q(), b.r.integers(0, b.shape[axis], b.shape), axis], {}


def _cov(b):
    b.shape = (b.draw(st.integers(1, 3)), b.draw(st.integers(2, 5)))
    return [b.q()], {'bias': b.pick(False, True), 'rowvar': b.pick(True, True, False)}


def _insert(b):
    b.shape = (b.draw(st.integers(1, 5)),)
    return [b.q(), b.draw(st.integers(0, b.shape[0])), b.like(())], {}


def _diff(b):
    kw = {'axis': 0}
    for k in ('prepend', 'append'):
        if b.pick(False, True):
            kw[k] = b.like(b.shape)
    return [b.q()], kw


def _average(b):
    return [b.q()], {'axis': 0, 'weights': P(np.abs(b.values()) + 1, b.pick(None, {'s': 1.0}))}


def _clip(b):
    lo, hi = b.like(()), b.like(())
    return [b.q(), lo, hi], {}


def _where(b):
    return [b.values() > 0, b.q(), b.like(b.pick(b.shape, ()))], {}


def _choose(b):
    n = b.draw(st.integers(1, 3))
    return [b.r.integers(0, n, b.shape), b.several(n)], {}


def _select(b):
    n = b.draw(st.integers(1, 3))
    return [
        [b.values() > 0 for _ in range(n)],
        b.several(n),
    ], {}


def _mask1d(b):
    b.shape = (b.draw(st.integers(1, 6)),)
    return [b.r.integers(0, 2, b.shape).astype(bool), b.q()], {}


def _plain(*args, **kw):
    return lambda b: ([b.q(), *(a(b) if callable(a) else a for a in args)],
                      {k: v(b) if callable(v) else v for k, v in kw.items()})


def _ndim(n, inner):
    def build(b):
        if len(b.shape) < n:
            b.shape = (2, 3, 2)[:n]
        return inner(b)

    return build


def _each(b):
    return [b.q(b.pick((3,), (1,))), b.any((2, 1)), b.any((3,))], {}


def _one_d(inner):
    def build(b):
        b.shape = (b.draw(st.integers(1, 6)),)
        return inner(b)

    return build


def _unique(b):
    kw = {}
    for k in ('return_index', 'return_inverse', 'return_counts'):
        if b.pick(False, False, True):
            kw[k] = True
    return [b.q()], kw


SAME, PROD, SQUARE, EACH = 'same', 'prod', 'square', 'each'
# name: builder, action, whether the first output only is a quantity
TABLE = {
    **{
        k: (_reduction, SAME)
        for k in 'amax amin max min mean sum std nanmax nanmin nanmean nanstd nansum'.split()
    },
    'median': (_reduction, SAME),
    'nanmedian': (_reduction, SAME),
    'ptp': (_reduction, SAME),
    'var': (_reduction, SQUARE),
    'nanvar': (_square, SQUARE),
    'cov': (_cov, SQUARE),
    'take_along_axis': (_along, SAME),
    'average': (_average, SAME),
    'cumsum': (_accumulation, SAME),
    'nancumsum': (_accumulation, SAME),
    'sort': (_accumulation, SAME),
    'flip': (_accumulation, SAME),
    'diff': (_diff, SAME),
    'clip': (_clip, SAME),
    'around': (_plain(lambda b: b.pick(0, 1)), SAME),
    'round': (_plain(lambda b: b.pick(0, 1)), SAME),
    'atleast_1d': (_plain(), SAME),
    'atleast_2d': (_plain(), SAME),
    'atleast_3d': (_plain(), SAME),
    'copy': (_plain(), SAME),
    'fix': (_plain(), SAME),
    'imag': (_plain(), SAME),
    'real': (_plain(), SAME),
    'real_if_close': (_plain(), SAME),
    'ravel': (_plain(), SAME),
    'squeeze': (_plain(), SAME),
    'transpose': (_plain(), SAME),
    'permute_dims': (_plain(), SAME),
    'nan_to_num': (_plain(), SAME),
    'broadcast_to': (_plain(lambda b: (2,) + b.shape), SAME),
    'compress': (_mask1d, SAME),
    'extract': (_mask1d, SAME),
    'delete': (_plain(0, axis=lambda b: b.axis()), SAME),
    'diag': (_one_d(_plain(lambda b: b.pick(-1, 0, 1))), SAME),
    'diagflat': (_plain(), SAME),
    'diagonal': (_ndim(2, _plain()), SAME),
    'trace': (_ndim(2, _plain(lambda b: b.pick(-1, 0, 1))), SAME),
    'expand_dims': (_plain(lambda b: b.axis()), SAME),
    'fliplr': (_ndim(2, _plain()), SAME),
    'flipud': (_plain(), SAME),
    'moveaxis': (_plain(0, -1), SAME),
    'rollaxis': (_plain(-1), SAME),
    'swapaxes': (_plain(0, -1), SAME),
    'pad': (_plain(lambda b: b.pick(1, (1, 2))), SAME),
    'partition': (_one_d(_plain(0)), SAME),
    'repeat': (_plain(lambda b: b.pick(1, 2, 3), axis=lambda b: b.pick(None, 0)), SAME),
    'reshape': (_reshape, SAME),
    'resize': (_plain(lambda b: b.pick((2, 2), (5,))), SAME),
    'roll': (_plain(lambda b: b.pick(-1, 2), axis=lambda b: b.pick(None, 0)), SAME),
    'rot90': (_ndim(2, _plain(lambda b: b.pick(1, 2))), SAME),
    'sort_complex': (_plain(), SAME),
    'take': (_plain(lambda b: b.pick(0, [0], [[0, 0]]), axis=lambda b: b.pick(None, 0)), SAME),
    'tile': (_plain(lambda b: b.pick(2, (2, 1))), SAME),
    'trim_zeros': (_one_d(_plain(lambda b: b.pick('fb', 'f'))), SAME),
    'unwrap': (_plain(), SAME),
    'unique': (_unique, SAME),
    'unique_values': (_plain(), SAME),
    'unique_all': (_plain(), SAME),
    'append': (lambda b: ([b.q(), b.like()], {}), SAME),
    'insert': (_insert, SAME),
    'intersect1d': (lambda b: ([b.q(), b.like()], {'return_indices': b.pick(False, True)}), SAME),
    'setdiff1d': (_sets, SAME),
    'setxor1d': (_sets, SAME),
    'union1d': (_sets, SAME),
    'concatenate': (_joined, SAME),
    'concat': (_joined, SAME),
    'stack': (_joined, SAME),
    'column_stack': (_stack, SAME),
    'dstack': (_stack, SAME),
    'hstack': (_stack, SAME),
    'vstack': (_stack, SAME),
    'where': (_where, SAME),
    'choose': (_choose, SAME),
    'select': (_select, SAME),
    'array_split': (_array_split, SAME),
    'split': (_split(None), SAME),
    'hsplit': (_split(1), SAME),
    'vsplit': (_ndim(2, _split(0)), SAME),
    'dsplit': (_ndim(3, _split(2)), SAME),
    'convolve': (_prod1, PROD),
    'correlate': (_prod1, PROD),
    'cross': (lambda b: ([b.q((3,)), b.any((2, 3))], {}), PROD),
    'dot': (_matrix, PROD),
    'matmul': (_matrix, PROD),
    'inner': (_inner, PROD),
    'kron': (_prod1, PROD),
    'outer': (_prod1, PROD),
    'tensordot': (_tensordot, PROD),
    'vdot': (_prodsame, PROD),
    'vecdot': (_prodsame, PROD),
    'einsum': (_einsum, PROD),
    'broadcast_arrays': (_each, EACH),
}
for _name, _ in (('cumulative_sum', 0), ('unstack', 0), ('matvec', 0)):
    if hasattr(np, _name):
        TABLE[_name] = {
            'cumulative_sum': (_accumulation, SAME),
            'unstack': (_plain(), SAME),
            'matvec': (lambda b: ([b.q((2, 3)), b.any((3,))], {}), PROD),
        }[_name]
NAMES = sorted(TABLE)


@st.composite
def calls(draw):
    name = draw(st.sampled_from(NAMES))
    b = Builder(draw)
    args, kw = TABLE[name][0](b)
    return {
        'name': name,
        'args': args,
        'kw': kw,
        'cls': draw(st.sampled_from(['Quantity', 'Quantity', 'FitsArray', 'Map', 'Tod'])),
        'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'complex128'])),
        'out': draw(st.sampled_from([None, None, 'quantity', 'ndarray'])),
        'derived': draw(st.booleans()),
    }


def placeholders(x):
    if isinstance(x, P):
        return [x]
    if isinstance(x, (list, tuple)):
        return sum((placeholders(_) for _ in x), [])
    if isinstance(x, dict):
        return placeholders(list(x.values()))
    return []


def substitute(x, f):
    if isinstance(x, P):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(substitute(_, f) for _ in x)
    if isinstance(x, dict):
        return {k: substitute(v, f) for k, v in x.items()}
    return x


REAL = {'median', 'nanmedian', 'fix', 'unwrap', 'ptp'}
OUT = {'sum', 'mean', 'max', 'min', 'std', 'var', 'cumsum', 'take', 'dot', 'clip', 'concatenate', 'stack', 'median', 'outer', 'matmul', 'round', 'nansum'}


@sub(
    calls(),
    quick=2500,
    thorough=40000,
    nontrivial=lambda c: placeholders(c['args'])[0].value.size > 1,
)
def functions(case):
    import pysimulators
    from pysimulators import Quantity

    name, dtype = case['name'], case['dtype']
    cls = getattr(pysimulators, case['cls'])
    func = getattr(np, name)
    action = TABLE[name][1]
    if dtype == 'complex128' and name in REAL | {'unique_all', 'unique_values'}:
        dtype = 'float64'
    du = {'foo': Quantity(2.0, 'm')} if case['derived'] else None

    # joined sets depend on the rounding of the conversion: keep powers of two apart
    everything = placeholders([case['args'], case['kw']])
    common = next((p.unit for p in everything if p.unit), {})

    def real(p):
        value = p.value.astype(dtype)
        if p.unit is None:
            return value
        return cls(value, unit=u.text(p.unit), derived_units=du)

    def plain(p):
        value = p.value.astype(dtype)
        if action == SAME and p.unit and p.unit != common:
            if name == 'average':
                return value
            value = value * value.dtype.type(u.si(p.unit)[0] / u.si(common)[0])
        return value

    args, kw = substitute(case['args'], real), substitute(case['kw'], real)
    pargs, pkw = substitute(case['args'], plain), substitute(case['kw'], plain)
    joined = name in ('intersect1d', 'setdiff1d', 'setxor1d', 'union1d')
    if joined and any(p.unit and p.unit != common for p in everything):
        # exact comparisons of rounded numbers
        for p, o in zip(placeholders(case['args']), args):
            if isinstance(o, Quantity) and o.unit and not np.array_equal(
                np.asarray(o.tounit(u.text(common))), plain(p)
            ):
                discard()
    with np.errstate(all='ignore'):
        try:
            expected = func(*pargs, **pkw)
        except Exception:
            discard()
        out = None
        if case['out'] and name in OUT and isinstance(expected, np.ndarray):
            if name == 'round' and dtype == 'complex128':
                discard()
            out = np.zeros(expected.shape, expected.dtype)
            if case['out'] == 'quantity':
                out = cls(out, unit='bar', copy=False)
            kw = dict(kw, out=out)
        result = func(*args, **kw)

    if action == SAME:
        unit = common
    elif action == SQUARE:
        unit = u.power(common, 2)
    elif action == PROD:
        unit = {}
        for p in placeholders(case['args']):
            unit = u.multiply(unit, p.unit or {})
    tol = 1e-4 if dtype == 'float32' else 1e-11
    scale = max(
        [1e-300]
        + [float(np.max(np.abs(plain(p)), initial=0)) for p in everything]
    )

    def check(actual, expected, unit, message):
        require(isinstance(actual, Quantity), f'{message}: no unit', name=name, got=actual)
        require(
            type(actual) is cls or name in ('matmul', 'vecdot', 'matvec'),
            f'{message}: type',
            name=name,
            type=type(actual),
        )
        require(
            u.same(u.parse(actual.unit), unit),
            f'{message}: unit',
            name=name,
            got=actual.unit,
            expected=unit,
        )
        # the magnitude alone is the NumPy result
        actual = np.asarray(actual)
        expected = np.asarray(expected)
        s = float(np.max(np.abs(expected), initial=0))
        s = max(s, scale**2 if action in (PROD, SQUARE) else scale)
        require(
            actual.dtype == expected.dtype,
            f'{message}: dtype',
            name=name,
            got=actual.dtype,
            expected=expected.dtype,
        )
        require(
            gen.close(actual, expected, tol, s),
            f'{message}: magnitude',
            name=name,
            got=actual,
            expected=expected,
        )

    if case['out'] == 'ndarray' and out is not None:
        require(
            np.shares_memory(np.asarray(result), out) or out.size == 0,
            'the result is not the output',
            name=name,
        )
        require(gen.close(out, expected, tol, scale), 'the output is wrong', name=name)
    elif out is not None:
        check(out, expected, unit, 'the output')
        check(result, expected, unit, 'the result with an output')
    elif name == 'broadcast_arrays':
        require(len(result) == len(expected), 'the number of outputs is wrong')
        for a, e, p in zip(result, expected, case['args']):
            check(a, e, p.unit or {}, 'the broadcast array')
    elif isinstance(expected, (tuple, list)):
        require(len(result) == len(expected), 'the number of outputs is wrong', name=name)
        if hasattr(expected, '_fields'):
            require(type(result) is type(expected), 'the named tuple is lost', name=name)
        for i, (a, e) in enumerate(zip(result, expected)):
            if i > 0 and name in ('unique', 'unique_all', 'intersect1d'):
                require(
                    not isinstance(a, Quantity) and np.array_equal(a, e),
                    'the indices are wrong',
                    name=name,
                )
            else:
                check(a, e, unit, 'the element of the result')
    else:
        check(result, expected, unit, 'the result')
        if du and name not in ('matmul', 'vecdot', 'matvec') and isinstance(
            args[0], Quantity
        ):
            require(
                result.derived_units == du, 'the derived units are lost', name=name
            )

    # the inputs are left alone
    for p, x in zip(everything, collect([args, {k: v for k, v in kw.items() if k != 'out'}], everything)):
        require(
            np.array_equal(np.asarray(x), p.value.astype(dtype)),
            'the input is modified',
            name=name,
        )
        if p.unit is not None:
            require(u.same(u.parse(x.unit), p.unit), 'the unit of the input is modified')


def collect(x, like):
    """The arrays that were built for the placeholders, in the same order."""
    out = []

    def visit(x):
        if isinstance(x, np.ndarray) and x.dtype != bool and x.dtype.kind in 'fc':
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for _ in x:
                visit(_)
        elif isinstance(x, dict):
            for _ in x.values():
                visit(_)

    visit(x)
    if len(out) != len(like):
        discard()
    return out


METHODS = {
    'sum': SAME, 'max': SAME, 'min': SAME, 'mean': SAME, 'std': SAME, 'var': SQUARE,
    'cumsum': SAME, 'copy': SAME, 'flatten': SAME, 'ravel': SAME, 'transpose': SAME,
    'squeeze': SAME, 'conj': SAME, 'conjugate': SAME,
}


@st.composite
def method_cases(draw):
    b = Builder(draw)
    return {
        'value': b.values(),
        'unit': b.first,
        'method': draw(st.sampled_from(sorted(METHODS))),
        'axis': b.pick('default', b.axis()),
        'ufunc': draw(st.sampled_from(['add', 'maximum', 'minimum', 'hypot'])),
        'ufunc_method': draw(st.sampled_from(['reduce', 'accumulate', 'outer', 'at'])),
        'other': {draw(st.sampled_from(u.FAMILIES[b.family])): 1.0},
    }


@sub(method_cases(), quick=400, thorough=6000, nontrivial=lambda c: c['value'].size > 1)
def methods(case):
    from pysimulators import Quantity

    value, unit = case['value'], case['unit']
    q = Quantity(value, u.text(unit))
    name = case['method']
    kw = {}
    if case['axis'] != 'default' and name in ('sum', 'max', 'min', 'mean', 'std', 'var', 'cumsum'):
        kw['axis'] = case['axis']
    result, expected = getattr(q, name)(**kw), getattr(value, name)(**kw)

    def check(result, expected, unit, message):
        require(isinstance(result, Quantity), f'{message}: no unit', name=name)
        require(u.same(u.parse(result.unit), unit), f'{message}: unit', got=result.unit)
        require(gen.close(np.asarray(result), np.asarray(expected), 1e-12), message)

    check(
        result,
        expected,
        u.power(unit, 2) if METHODS[name] == SQUARE else unit,
        f'the method {name}',
    )
    # the methods of the ufuncs
    func, how = getattr(np, case['ufunc']), case['ufunc_method']
    factor = u.si(case['other'])[0] / u.si(unit)[0]
    other = Quantity(value.ravel()[:2] / factor, u.text(case['other']))
    if how in ('reduce', 'accumulate'):
        check(getattr(func, how)(q), getattr(func, how)(value), unit, f'{func}.{how}')
    elif how == 'outer':
        expected = func.outer(value, value.ravel()[:2])
        check(func.outer(q, other), expected, unit, f'{func}.outer')
    else:
        expected = value.copy()
        index = [0] * len(other)
        func.at(expected, index, value.ravel()[:2].reshape((-1,) + (value.ndim - 1) * (1,)))
        func.at(q, index, other.reshape((-1,) + (value.ndim - 1) * (1,)))
        check(q, expected, unit, f'{func}.at')


# functions of the elements that keep the unit, and that have none
KEPT = ['absolute', 'ceil', 'conjugate', 'fabs', 'floor', 'negative', 'positive', 'rint', 'trunc', 'copysign']
PURE = [
    'exp', 'expm1', 'exp2', 'log', 'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'arcsin',
    'arccos', 'arctan', 'sinh', 'tanh', 'arcsinh', 'sign', 'signbit', 'isfinite', 'isnan', 'isinf',
    'logical_not', 'deg2rad', 'rad2deg', 'logical_and', 'logical_or',
]
SEVERAL = ['modf', 'frexp', 'divmod']
PYTHON = {
    'absolute': abs, 'negative': lambda x: -x, 'positive': lambda x: +x,
    'conjugate': lambda x: x.conj(), 'divmod': divmod,
}


@st.composite
def elementwise_cases(draw):
    b = Builder(draw)
    name = draw(st.sampled_from(KEPT + PURE + SEVERAL))
    dtype = draw(st.sampled_from(['f8', 'f8', 'f4', 'c16', 'i4']))
    if dtype == 'c16' and name not in ('absolute', 'conjugate', 'negative', 'positive', 'exp', 'sin'):
        dtype = 'f8'
    value = b.r.integers(-20, 21, b.shape) / 8
    if dtype == 'c16':
        value = value + 1j * b.r.integers(-20, 21, b.shape) / 8
    elif dtype == 'i4':
        value *= 8
    return {
        'cls': draw(st.sampled_from(['Quantity', 'Quantity', 'FitsArray', 'Map', 'Tod'])),
        'name': name,
        'value': value.astype(dtype),
        'other': b.r.choice([-5, -2, 1, 3], b.shape) / 4,
        'unit': draw(st.sampled_from([b.first, b.first, {}])),
        'form': draw(st.sampled_from(['ufunc', 'ufunc', 'python', 'out', 'out', 'ndarray', 'mixed', 'inplace'])),
        'where': b.r.integers(0, 2, b.shape).astype(bool) if draw(st.integers(0, 3)) == 0 else None,
    }


@sub(elementwise_cases(), quick=500, thorough=8000, nontrivial=lambda c: c['value'].size > 1)
def elementwise(case):
    """Functions of each element: their values, unit, type and outputs."""
    import pysimulators
    from pysimulators import Quantity

    cls = getattr(pysimulators, case['cls'])
    name, form, value, unit = case['name'], case['form'], case['value'], case['unit']
    func = getattr(np, name)
    q = cls(value, unit=u.text(unit), dtype=value.dtype)
    own = q.unit
    more = [case['other'].copy()] if func.nin == 2 else []
    kept = unit if name in KEPT else {}
    with np.errstate(all='ignore'):
        expected = func(value, *more)
    single = not isinstance(expected, tuple)
    expected = (expected,) if single else expected
    outs = None
    kw = {}
    if form in ('out', 'ndarray', 'mixed', 'inplace'):
        outs = [np.full(_.shape, 1, _.dtype) for _ in expected]
        if case['where'] is not None:
            kw['where'] = case['where']
            expected = [np.where(case['where'], e, o) for e, o in zip(expected, outs)]
        quantity = [form == 'out' or form == 'mixed' and i % 2 == 1 for i in range(len(outs))]
        outs = [
            cls(o, unit='foo', dtype=o.dtype) if t else o for o, t in zip(outs, quantity)
        ]
        if form == 'inplace':
            if not single or expected[0].dtype != value.dtype or func.nin > 1:
                discard()
            if 'where' in kw:
                expected = [np.where(case['where'], func(value), value)]
            outs = [q]
        kw['out'] = outs[0] if single else tuple(outs)
    call = PYTHON.get(name, func) if form == 'python' else func
    with np.errstate(all='ignore'):
        results = call(q, *more, **kw)
    require(
        isinstance(results, tuple) is (not single),
        lambda: f'{name} returns {type(results).__name__}',
    )
    results = (results,) if single else results
    require(len(results) == len(expected), 'the number of outputs', name=name)
    for i, (r, e) in enumerate(zip(results, expected)):
        if outs is not None:
            # a view with the unit may be returned for an array
            require(
                r is outs[i] or not isinstance(outs[i], Quantity) and np.shares_memory(r, outs[i]),
                'an output is not returned', name=name, output=i,
            )
            require(
                np.array_equal(np.asarray(outs[i]), e, equal_nan=e.dtype.kind in 'fc'),
                'the output is not filled', name=name,
            )
        require(np.shape(r) == e.shape, 'the shape', name=name, got=np.shape(r))
        require(
            np.array_equal(np.asarray(r), e, equal_nan=e.dtype.kind in 'fc'),
            'the values', name=name, got=r, expected=e,
        )
        if outs is not None and not isinstance(outs[i], Quantity):
            continue
        if name in SEVERAL:
            continue
        require(
            not kept or isinstance(r, cls), 'the type of the result', name=name, got=type(r)
        )
        require(
            u.same(u.parse(getattr(r, 'unit', '')), kept),
            'the unit of the result', name=name, got=getattr(r, 'unit', None), expected=kept,
        )
    if form != 'inplace':
        require(
            np.array_equal(np.asarray(q), value) and q.unit == own, 'the argument is modified'
        )


@st.composite
def constructions(draw):
    r = gen.rng(draw(gen.seeds()))
    cls = draw(st.sampled_from(['Quantity', 'FitsArray', 'Map', 'Tod']))
    shape = draw(st.sampled_from([(3,), (2, 3), (1, 2, 2), (0, 2)]))
    return {
        'cls': cls,
        'source': draw(st.sampled_from(['ndarray', 'list', 'own', 'Quantity', 'FitsArray', 'Map', 'Tod'])),
        'value': r.integers(-8, 9, shape) / 4,
        'dtype': draw(st.sampled_from(['float64', 'float32', 'complex128', 'int64', 'uint8', 'bool', 'int8'])),
        'to': draw(st.sampled_from([None, None, 'float64', 'float32', 'int64', 'complex128'])),
        'unit': draw(st.sampled_from([None, '', 'm', 'Jy / s'])),
        'own': draw(st.sampled_from(['', 'km'])),
        'copy': draw(st.booleans()),
        'subok': draw(st.booleans()),
        'ndmin': draw(st.sampled_from([0, 0, 2, 4])),
        'order': draw(st.sampled_from(['C', 'C', 'F'])),
        'derived': draw(st.booleans()),
        'header': draw(st.booleans()),
        'mask': r.integers(0, 2, shape).astype(bool) if draw(st.booleans()) else None,
        'coverage': r.random(shape) if draw(st.booleans()) else None,
        'error': r.random(shape) if draw(st.booleans()) else None,
        'origin': draw(st.sampled_from(['lower', 'upper'])),
        'protocol': draw(st.integers(0, pickle.HIGHEST_PROTOCOL)),
    }


def build(case, cls, value, **kw):
    """An instance of the class with all its attributes."""
    import pysimulators
    from astropy.io import fits
    from pysimulators import Quantity

    cls = getattr(pysimulators, cls)
    kw.setdefault('unit', case['own'])
    if case['derived']:
        kw['derived_units'] = {'foo': Quantity(2.0, 'm'), 'bar': Quantity(3.0, 'foo')}
    if cls is not Quantity and case['header']:
        kw['header'] = fits.Header([('FOO', 3, 'a comment'), ('BAR', 'text')])
    if cls is pysimulators.Map:
        kw.update(coverage=case['coverage'], error=case['error'], origin=case['origin'])
    if cls is pysimulators.Tod:
        kw['mask'] = case['mask']
    return cls(value, **kw)


def attributes(x):
    out = {'unit': x.unit, 'derived': dict(x.derived_units)}
    for k in ('coverage', 'error', 'origin', 'mask'):
        v = getattr(x, k, None)
        out[k] = v.tolist() if isinstance(v, np.ndarray) else v
    h = getattr(x, '_header', None)
    out['header'] = None if h is None else [tuple(_) for _ in h.cards]
    return out


@sub(constructions(), quick=500, thorough=8000, nontrivial=lambda c: c['value'].size > 1)
def constructs(case):
    import pysimulators
    from pysimulators import Quantity

    cls = getattr(pysimulators, case['cls'])
    value = case['value'].astype(case['dtype'])
    source = case['source'] if case['source'] != 'own' else case['cls']
    if source == 'ndarray':
        x = value.copy()
    elif source == 'list':
        x = value.tolist()
    else:
        x = build(case, source, value, dtype=value.dtype)
        require(x.dtype == value.dtype, 'the dtype is not the requested one')
    before = attributes(x) if isinstance(x, Quantity) else None
    original = np.array(x)
    keywords = dict(
        unit=case['unit'],
        copy=case['copy'],
        subok=case['subok'],
        ndmin=case['ndmin'],
        order=case['order'],
    )
    if case['to']:
        keywords['dtype'] = case['to']
    if source == 'list' and value.size == 0:
        discard()
    if value.dtype.kind == 'c' and case['to'] in ('float64', 'float32', 'int64'):
        discard()
    y = cls(x, **keywords)
    if isinstance(x, cls) and case['subok']:
        require(type(y) is type(x), 'subok does not keep the subclass', type=type(y))
    else:
        require(type(y) is cls, 'the type is not the class', type=type(y))

    plain = np.asarray(x)
    # the signed integers are upcast, unless the type is requested
    expected_dtype = case['to'] or ('float64' if plain.dtype.kind == 'i' else plain.dtype)
    require(y.dtype == expected_dtype, 'the type of the values is wrong', got=y.dtype)
    reference = np.array(original, dtype=expected_dtype, ndmin=case['ndmin'])
    require(
        np.array_equal(np.asarray(y), reference) and y.shape == reference.shape,
        'the values are wrong',
    )
    if source != 'list' and case['copy'] and value.size:
        require(not np.shares_memory(np.asarray(y), np.asarray(x)), 'the copy shares memory')
    if (
        source != 'list'
        and not case['copy']
        and plain.dtype == expected_dtype
        and value.size
        and plain.ndim >= case['ndmin']
        and plain.flags['C_CONTIGUOUS' if case['order'] == 'C' else 'F_CONTIGUOUS']
    ):
        require(np.shares_memory(np.asarray(y), np.asarray(x)), 'no copy is needed')
    if case['order'] == 'F':
        require(np.asarray(y).flags.f_contiguous, 'the order is not Fortran')
    if case['order'] == 'C':
        require(np.asarray(y).flags.c_contiguous, 'the order is not C')

    # the attributes
    unit = case['unit']
    if unit is None:
        unit = before['unit'] if before else ''
    require(u.same(u.parse(y.unit), u.parse(unit)), 'the unit is wrong', got=y.unit)
    if before:
        require(y.derived_units == before['derived'], 'the derived units are lost')
        after = attributes(x)
        if y is not x:
            require(after == before, 'the input is modified', after=after, before=before)
        now = attributes(y)
        for k in ('header', 'coverage', 'error', 'origin', 'mask'):
            # the attributes that both classes know
            if hasattr(x, '_header' if k == 'header' else k) and (
                hasattr(y, '_header' if k == 'header' else k)
            ):
                require(now[k] == before[k], f'the attribute {k} is lost', got=now[k])


@sub(constructions(), quick=400, thorough=6000)
def copies(case):
    from pysimulators import Quantity

    value = case['value'].astype(case['dtype'])
    x = build(case, case['cls'], value, dtype=value.dtype)
    before = attributes(x)
    original = np.array(x)
    results = {
        'pickle': pickle.loads(pickle.dumps(x, case['protocol'])),
        'copy.copy': copy.copy(x),
        'copy.deepcopy': copy.deepcopy(x),
        'method copy': x.copy(),
        'view': x.view(),
        'constructor': type(x)(x, dtype=x.dtype),
        'slice': x[:],
        'ellipsis': x[...],
    }
    for name, y in results.items():
        require(type(y) is type(x), f'{name}: the type is lost', type=type(y))
        require(
            y.dtype == x.dtype and np.array_equal(np.asarray(y), original),
            f'{name}: the values are wrong',
        )
        now = attributes(y)
        for k in before:
            require(
                now[k] == before[k],
                f'{name}: the attribute {k} is wrong',
                got=now[k],
                expected=before[k],
            )
        if value.size:
            require(
                np.shares_memory(np.asarray(y), np.asarray(x))
                == (name in ('view', 'slice', 'ellipsis')),
                f'{name}: the memory is wrong',
            )
    # modify the copies: neither the original nor the other copies change
    for name in ('pickle', 'copy.deepcopy', 'constructor'):
        y = results[name]
        np.asarray(y)[...] = 1
        y.unit = 'kg'
        if name != 'constructor':
            y.derived_units['other'] = Quantity(1.0, 's')
        for k in ('coverage', 'error', 'mask'):
            v = getattr(y, k, None)
            if isinstance(v, np.ndarray):
                v[...] = 0
        h = getattr(y, '_header', None)
        if h is not None:
            h['NEW'] = 3
        require(attributes(x) == before, f'{name}: the original is modified', got=attributes(x), expected=before)
        require(np.array_equal(np.asarray(x), original), f'{name}: the values are shared')
    for shape in ((2,), (), (2, 0), 3):
        for f in 'ones', 'zeros', 'empty':
            y = getattr(type(x), f)(shape, unit='m', dtype=case['to'])
            require(
                type(y) is type(x)
                and y.unit == 'm'
                and y.dtype == np.dtype(case['to'] or 'float64')
                and y.shape == np.empty(shape).shape
                and (f == 'empty' or np.all(np.asarray(y) == (f == 'ones'))),
                f'{f} is wrong',
                got=y,
            )


@st.composite
def index_cases(draw):
    b = Builder(draw)
    return {
        'value': b.values(),
        'unit': b.pick({}, b.first, b.first),
        'cls': draw(st.sampled_from(['Quantity', 'FitsArray', 'Map', 'Tod'])),
        'axis': b.pick(None, b.axis(), 'default'),
        'other': {draw(st.sampled_from(u.FAMILIES[b.family])): 1.0},
        'fill': draw(st.sampled_from(['quantity', 'number'])),
    }


@sub(index_cases(), quick=400, thorough=6000, nontrivial=lambda c: c['value'].size > 1)
def indices(case):
    """The indices of elements have no unit; the diagonal is filled with converted values."""
    import pysimulators
    from pysimulators import Quantity

    cls, value, unit = getattr(pysimulators, case['cls']), case['value'], case['unit']
    q = cls(value, unit=u.text(unit))
    axis = 0 if case['axis'] == 'default' else case['axis']
    kw = {} if case['axis'] == 'default' else {'axis': axis}

    def check(result, expected, unit, message):
        require(isinstance(result, Quantity), f'{message}: no unit', got=result)
        require(type(result) is cls, f'{message}: type', got=type(result))
        require(
            u.same(u.parse(result.unit), unit),
            f'{message}: unit',
            got=result.unit,
            expected=unit,
        )
        require(
            gen.close(np.asarray(result), np.asarray(expected), 1e-12, np.max(np.abs(expected), initial=0)),
            f'{message}: magnitude',
            got=result,
            expected=expected,
        )

    # the indices
    for name in 'argmax', 'argmin', 'argsort', 'argpartition':
        args = () if name != 'argpartition' else (0,)
        if axis is None and name == 'argpartition':
            continue
        for how, result in (
            ('function', getattr(np, name)(q, *args, **kw)),
            ('method', getattr(q, name)(*args, **kw)),
        ):
            expected = getattr(value, name)(*args, **kw)
            require(
                not isinstance(result, Quantity),
                f'the indices of the {how} {name} have a unit',
                got=result,
            )
            require(
                np.array_equal(result, expected) and np.shape(result) == np.shape(expected),
                f'{how} {name}',
                got=result,
                expected=expected,
            )

    # the diagonal
    if value.ndim == 2:
        factor = 1.0
        fill, x = 2.5, q.copy()
        expected = value.copy()
        if case['fill'] == 'quantity' and unit:
            factor = u.si(case['other'])[0] / u.si(unit)[0]
            fill = Quantity(2.5, u.text(case['other']))
        np.fill_diagonal(expected, 2.5 * factor)
        np.fill_diagonal(x, fill)
        check(x, expected, unit, 'np.fill_diagonal')
    require(np.array_equal(np.asarray(q), value), 'the input is modified')
    require(u.same(u.parse(q.unit), unit), 'the unit of the input is modified')

"""C09: packed tables against a model made of a list of component indices."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

PROPERTY = dict(
    title='Packed tables store exactly the selected components, in order',
    statement=(
        'For every shape, selection (booleans, integers, slices) and ordering, a packed table '
        'holds exactly the selected components of each attribute, in row-major order or in '
        'the specified ordering; pack and unpack are inverse of each other over them and the '
        'other components are flagged as removed and given the missing value of the type. '
        'Indexing, slicing, splitting, copying and setting attributes, chained in any order, '
        'are those of the 1-dimensional arrays of the selected components.'
    ),
    over=['inputs', 'histories'],
    text='every shape, selection, ordering, attribute type and chain of operations',
    why=(
        'The tests select once in a few fixed tables; the internal index has three '
        'representations whose compositions depend on the whole history of selections.'
    ),
    files=['src/pysimulators/packedtables/core.py'],
    mechanism=[
        ('PackedTable._get_index, _normalize_selection, _normalize_slice',
         'src/pysimulators/packedtables/core.py'),
        ('PackedTable.__getitem__, pack, unpack, split, copy', 'src/pysimulators/packedtables/core.py'),
        ('UnpackedTable', 'src/pysimulators/packedtables/core.py'),
    ],
)
RULE = (
    'A case is a table (shape, splittable dimensions, selection, ordering, attributes) and a '
    'sequence of operations; it is non-trivial when the table has several components and '
    'is not left whole.'
)
QUICK_BUDGET = 40


def slices(n):
    bound = st.one_of(st.none(), st.integers(-n - 3, n + 3))
    return st.builds(
        slice, bound, bound, st.sampled_from([None, None, 1, 1, 2, 3, -1, -2, -n - 1])
    )


def selections(shape, tuples=True):
    """A selection of the components, as ('kind', value)."""
    n = int(np.prod(shape))
    if n > 30:
        r = gen.seeds().map(gen.rng)
        mask = r.map(lambda r: (r.random(n) < r.random()).tolist())
        some = r.map(lambda r: r.integers(-n, n, r.integers(0, n)).tolist())
        chosen = r.map(lambda r: np.flatnonzero(r.random(n) < r.random()).tolist())
    else:
        mask = st.lists(st.booleans(), min_size=n, max_size=n)
        some = st.lists(st.integers(-n, n - 1), max_size=n)
        chosen = st.lists(st.integers(0, n - 1), max_size=n, unique=True).map(sorted)
    options = [
        st.just(('none', None)),
        st.just(('ellipsis', None)),
        st.tuples(st.just('slice'), slices(n)),
        st.tuples(st.just('bool'), mask),
    ]
    if n:
        options += [
            st.tuples(st.just('int'), st.integers(-n, n - 1)),
            st.tuples(st.just('ints'), some),
            st.tuples(st.just('ints'), chosen),
        ]
        if tuples:
            el = [
                st.one_of(slices(_), slices(_), st.just(slice(None)), st.integers(-_, _ - 1))
                for _ in shape
            ]
            options.append(
                st.integers(1, len(shape)).flatmap(
                    lambda k: st.tuples(st.just('tuple'), st.tuples(*el[:k]))
                ).filter(lambda x: any(isinstance(_, slice) for _ in x[1]))
            )
        if tuples and len(shape) > 1:
            options.append(
                st.tuples(
                    st.just('tuple'), el[-1].map(lambda x: (Ellipsis, x))
                ).filter(lambda x: isinstance(x[1][1], slice))
            )
    return st.one_of(*options)


def decode(selection, shape, as_list=False):
    """The selection in the form that is given to the table."""
    kind, value = selection
    if kind == 'none':
        return None
    if kind == 'ellipsis':
        return Ellipsis
    if kind == 'bool':
        value = np.array(value, bool).reshape(shape)
        return value.tolist() if as_list and value.size else value
    if kind == 'ints':
        # the integers can be of any type
        dtypes = ['i8', 'i4', '>i8', 'i2'] + ['u4'] * all(_ >= 0 for _ in value)
        dtype = dtypes[(sum(value) + len(value)) % len(dtypes)]
        return value if as_list else np.array(value, dtype)
    return value


def select(indices, selection, shape):
    """Reference: the components of `indices` (1-d) kept by the selection."""
    kind, value = selection
    if kind in ('none', 'ellipsis'):
        return indices
    if kind == 'bool':
        return indices[np.array(value, bool)]
    if kind == 'int':
        return indices[[value]]
    if kind == 'ints':
        return indices[np.array(value, int)]
    if kind == 'slice':
        return indices[value]
    if len(shape) == 1:
        # the order of a slice is kept along a single dimension
        (v,) = [_ for _ in value if _ is not Ellipsis]
        return indices[v] if isinstance(v, slice) else indices[[v]]
    keep = np.zeros(shape, bool)
    keep[value] = True
    return indices[keep.ravel()]


DTYPES = ['f8', 'i8', 'bool', 'u1', 'c16', 'S3', 'U2', 'O', [('a', 'f8'), ('b', 'i4')], 'f4']


@st.composite
def tables(draw):
    shape = tuple(draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)))
    if draw(gen.rarely()):
        shape = draw(st.sampled_from([(40,), (130,), (9, 15), (70, 2), (3, 4, 11)]))
    ndim = draw(st.sampled_from([None, None] + list(range(1, len(shape) + 1))))
    actual = shape[:ndim]
    n = int(np.prod(actual))
    selection = draw(selections(actual))
    ordering = None
    if draw(st.booleans()):
        r = gen.rng(draw(gen.seeds()))
        how = draw(st.sampled_from(['perm', 'ties', 'reverse', 'holes', 'any']))
        ordering = {
            'perm': lambda: r.permutation(n),
            'reverse': lambda: np.arange(n)[::-1],
            'ties': lambda: r.integers(0, 2, n),
            'holes': lambda: np.where(r.integers(0, 2, n), r.permutation(n), -1),
            'any': lambda: r.integers(-3, 100, n),
        }[how]().reshape(actual)
    if selection[0] == 'ints' and ordering is None:
        # a component is selected once
        v = np.array(selection[1], int) % n
        v = v[np.sort(np.unique(v, return_index=True)[1])]
        selection = ('ints', v.tolist())
    attrs = draw(
        st.lists(
            st.tuples(st.sampled_from(DTYPES), st.sampled_from([(), (2,), (2, 1)])),
            min_size=1,
            max_size=3,
        )
    )
    return {
        'shape': shape,
        'ndim': ndim,
        'selection': selection,
        'ordering': ordering,
        'attrs': attrs,
        'as_list': draw(st.booleans()),
    }


def values(shape, dtype, seed=0):
    """Distinct (modulo the capacity of the type) values."""
    n = int(np.prod(shape))
    x = np.arange(n) + 1 + seed
    if isinstance(dtype, list):
        out = np.empty(n, dtype)
        out['a'], out['b'] = x + 0.5, -x
    elif dtype == 'bool':
        out = (x * 7 // 3) % 2 == 0
    elif dtype in ('S3', 'U2', 'O'):
        out = np.array([str(_ % 100) for _ in x], dtype)
    elif dtype == 'c16':
        out = x - 1j * x
    else:
        out = x.astype(dtype)
    return out.reshape(shape)


def missing(dtype):
    dtype = np.dtype(dtype)
    if dtype.names:
        return np.array((np.nan, -1), dtype)
    return {'b': False, 'i': -1, 'u': 0, 'f': np.nan, 'c': np.nan, 'S': b'', 'U': '',
            'O': None}[dtype.kind]


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.names:
        return all(equal(a[_], b[_]) for _ in a.dtype.names)
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


class Model:
    """Indices of the components and their attributes, as 1-dimensional arrays."""

    def __init__(self, case):
        self.shape = case['shape'][: case['ndim']]
        n = int(np.prod(self.shape))
        everything = np.arange(n)
        kept = select(everything, case['selection'], self.shape)
        if case['ordering'] is not None:
            order = case['ordering'].ravel()
            rank = [i for i in everything if i in set(kept.tolist()) and order[i] >= 0]
            kept = np.array(sorted(rank, key=lambda i: (order[i], i)), int)
        self.index = kept
        self.full = {}
        self.attrs = {}

    def table(self, case):
        from pysimulators import PackedTable

        keywords = {}
        for i, (dtype, tail) in enumerate(case['attrs']):
            x = values(self.shape + tail, dtype, i)
            keywords[f'key{i}'] = x
            self.attrs[f'key{i}'] = x.reshape((-1,) + tail)[self.index]
        return PackedTable(
            case['shape'],
            ndim=case['ndim'],
            selection=decode(case['selection'], self.shape, case['as_list']),
            ordering=case['ordering'],
            func=lambda s: s.index * 2,
            func2=lambda s, x: s.index * x,
            scalar=3.5,
            nothing=None,
            **keywords,
        )

    def unpacked(self, x, missing_value):
        out = np.empty((int(np.prod(self.shape)),) + x.shape[1:], x.dtype)
        out[...] = missing_value
        for i, v in zip(self.index, x):
            out[i] = v
        return out.reshape(self.shape + x.shape[1:])

    def same(self, t, what):
        index = np.asarray(t.index)
        require(
            index.dtype == np.int64 and np.array_equal(index, self.index),
            lambda: f'{what}: index {index.tolist()} instead of {self.index.tolist()}',
        )
        require(len(t) == self.index.size, lambda: f'{what}: length {len(t)}')
        for k, v in self.attrs.items():
            a = getattr(t, k)
            require(equal(a, v), lambda: f'{what}: {k} is {a!r} instead of {v!r}')
            writeable = a.flags.writeable
            u, e = getattr(t.all, k), self.unpacked(v, missing(v.dtype))
            require(
                getattr(t, k).flags.writeable == writeable,
                f'{what}: {k} cannot be modified once all.{k} has been read',
            )
            require(equal(u, e), lambda: f'{what}: all.{k} is {u!r} instead of {e!r}')
            require(not u.flags.writeable, f'{what}: all.{k} is writeable')
        require(t.scalar == 3.5 and np.ndim(t.scalar) == 0, f'{what}: scalar')
        require(t.nothing is None and t.all.nothing is None, f'{what}: None')
        for v, a, u in (
            (2 * self.index, t.func, t.all.func),
            (3 * self.index, t.func2(3), t.all.func2(3)),
        ):
            require(equal(a, v), f'{what}: function attribute')
            require(equal(u, self.unpacked(v, -1)), f'{what}: unpacked function attribute')
        removed = np.ones(int(np.prod(self.shape)), bool)
        removed[self.index] = False
        require(
            equal(t.all.removed, removed.reshape(self.shape)),
            lambda: f'{what}: removed is {t.all.removed.tolist()}',
        )
        s = np.where(removed, np.nan, 3.5).reshape(self.shape)
        require(equal(t.all.scalar, s), lambda: f'{what}: all.scalar is {t.all.scalar}')


def small(case):
    t = case['t']
    return (
        int(np.prod(t['shape'][: t['ndim']])) > 1
        and (t['selection'][0] not in ('none', 'ellipsis') or t['ordering'] is not None
             or bool(case.get('ops')))
    )


@st.composite
def chain_cases(draw):
    t = draw(tables())
    n = len(Model(t).index)
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(
            st.sampled_from(
                ['get', 'get', 'get', 'get', 'split', 'copy', 'set', 'setall', 'fill', 'bad']
            )
        )
        if kind == 'get':
            sel = draw(selections((n,)))
            ops.append(('get', sel, draw(st.booleans())))
            n = len(select(np.arange(n), sel, (n,)))
        elif kind == 'split':
            k = draw(st.integers(1, 4))
            w = draw(st.integers(0, k - 1))
            ops.append(('split', k, w))
            n = n // k + (w < n % k)
        elif kind == 'bad':
            ops.append(('bad', draw(st.integers(0, 3))))
        else:
            ops.append((kind, draw(st.integers(0, len(t['attrs']) - 1)),
                        draw(st.integers(1, 50))))
    return {'t': t, 'ops': ops}


@sub(chain_cases, quick=700, thorough=25000, nontrivial=small)
def chain(case):
    """Any chain of selections, splits, copies and assignments follows the model."""
    t = case['t']
    m = Model(t)
    n0 = int(np.prod(m.shape))
    table = m.table(t)
    m.same(table, 'construction')
    for op in case['ops']:
        kind = op[0]
        what = f'after {op!r}'
        n = len(m.index)
        if kind == 'get':
            new = table[decode(op[1], (n,), op[2])]
            m.same(table, f'table that {what} is applied to')
            m.index = select(m.index, op[1], (n,))
            m.attrs = {k: select(v, op[1], (n,)) for k, v in m.attrs.items()}
            table = new
        elif kind == 'split':
            parts = table.split(op[1])
            require(len(parts) == op[1], f'{len(parts)} parts')
            sizes = [n // op[1] + (i < n % op[1]) for i in range(op[1])]
            start = sum(sizes[: op[2]])
            s = slice(start, start + sizes[op[2]])
            m.index = m.index[s]
            m.attrs = {k: v[s] for k, v in m.attrs.items()}
            table = parts[op[2]]
        elif kind == 'copy':
            new = table.copy()
            for k in m.attrs:
                require(
                    not np.shares_memory(getattr(new, k), getattr(table, k)),
                    f'the copy shares {k}',
                )
            table = new
        elif kind == 'set':
            k = f'key{op[1]}'
            dtype, tail = t['attrs'][op[1]]
            m.attrs[k] = values((n,) + tail, dtype, op[2])
            setattr(table, k, m.attrs[k].copy())
        elif kind == 'setall':
            k = f'key{op[1]}'
            dtype, tail = t['attrs'][op[1]]
            x = values(m.shape + tail, dtype, op[2])
            setattr(table.all, k, x)
            m.attrs[k] = x.reshape((n0,) + tail)[m.index]
        elif kind == 'fill':
            # the previous tables may share the array
            k = f'key{op[1]}'
            dtype, tail = t['attrs'][op[1]]
            if isinstance(dtype, list):
                continue
            m.attrs[k] = m.attrs[k].copy()
            setattr(table, k, getattr(table, k).copy())
            v = values((1,), dtype, op[2])[0]
            setattr(table, k, v)
            m.attrs[k][...] = v
        else:
            bad = [
                lambda: setattr(table, 'key0', np.zeros(n + 1)),
                lambda: setattr(table.all, 'key0', np.zeros(tuple(_ + 1 for _ in m.shape))),
                lambda: table[[n]],
                lambda: table[np.ones(n + 1, bool)],
            ]
            try:
                bad[op[1]]()
            except (ValueError, IndexError):
                pass
            else:
                fail(f'invalid input {op[1]} is accepted')
        m.same(table, what)


@st.composite
def pack_cases(draw):
    t = draw(tables())
    return {
        't': t,
        'dtype': draw(st.sampled_from(DTYPES)),
        'tail': draw(st.sampled_from([(), (3,), (2, 2)])),
        'out': draw(st.sampled_from([None, None, 'c', 's', 'f'])),
        'copy': draw(st.booleans()),
        'layout': draw(st.sampled_from(['c', 'f', 's'])),
        'missing': draw(st.booleans()),
        'subset': draw(slices(4)),
    }


def layout(x, how):
    if how == 'f':
        return x.copy(order='F')
    if how == 's' and x.ndim:
        return np.repeat(x, 2, axis=0)[::2]
    return x.copy()


@sub(pack_cases, quick=600, thorough=20000, nontrivial=small)
def pack_unpack(case):
    """pack gives the selected components, unpack puts them back."""
    t = case['t']
    m = Model(t)
    table = m.table(t)[case['subset']]
    m.index = m.index[case['subset']]
    n = len(m.index)
    x0 = values(m.shape + case['tail'], case['dtype'])
    x = layout(x0, case['layout'])
    e = x0.reshape((-1,) + case['tail'])[m.index]
    how = case['out']
    out = None
    if how:
        out = layout(np.zeros(e.shape, e.dtype), how)
    y = table.pack(x, out=out, copy=case['copy'])
    require(equal(y, e), lambda: f'packed: {y!r} instead of {e!r}')
    if how:
        require(y is out, 'the packed output is not the argument')
    elif case['copy']:
        require(not np.shares_memory(x, y), 'the packed output is a view')
    require(equal(x, x0), 'pack modified its input')
    # back
    v = missing(x.dtype)
    keywords = {}
    if case['missing'] and not isinstance(case['dtype'], list):
        v = values((1,), case['dtype'], 77)[0]
        keywords['missing_value'] = v
    if how:
        out = layout(np.zeros(x0.shape, e.dtype), how)
    y0 = y.copy()
    z = table.unpack(y, out=out, copy=case['copy'], **keywords)
    f = m.unpacked(e, v)
    require(equal(z, f), lambda: f'unpacked: {z!r} instead of {f!r}')
    if how:
        require(z is out, 'the unpacked output is not the argument')
    elif case['copy']:
        require(not np.shares_memory(z, y), 'the unpacked output is a view')
    require(equal(y, y0), 'unpack modified its input')
    require(equal(table.pack(z), e), 'pack(unpack(x)) is not x')
    # one value for all the components
    z = table.unpack(5)
    f = m.unpacked(np.full(n, 5), -1)
    require(equal(z, f), lambda: f'unpacked scalar: {z!r} instead of {f!r}')
    for bad in (np.zeros(n + 2), np.zeros((n + 2, 3))):
        try:
            table.unpack(bad)
        except ValueError:
            pass
        else:
            fail('unpack accepts any number of components')
    for func, x, shape in (table.unpack, e, x0.shape), (table.pack, x0, e.shape):
        for bad in (*shape, 1), (2, *shape), shape[:-1] + (shape[-1] + 1,):
            try:
                func(x, out=np.zeros(bad, e.dtype))
            except ValueError:
                pass
            else:
                fail('an output of another shape is accepted', shape=shape, out=bad)


@sub(
    lambda: st.tuples(st.integers(0, 9).flatmap(lambda n: st.tuples(st.just(n), slices(n)))),
    quick=300,
    thorough=10000,
    nontrivial=lambda c: c[0][0] > 1,
)
def normalized_slice(case):
    """Slices of the packed components are those of a sequence."""
    from pysimulators import PackedTable

    ((n, s),) = case
    if n == 0:
        table = PackedTable((4,), selection=[], val=np.arange(4))
    else:
        table = PackedTable((n,), val=np.arange(n))
    new = table[s]
    e = np.arange(n)[s]
    require(np.array_equal(new.val, e), lambda: f'{new.val.tolist()} instead of {e.tolist()}')
    require(np.array_equal(new.index, e), lambda: f'index {new.index.tolist()}')
    require(len(new) == len(e), 'length')
    warnings.simplefilter('ignore')
    removed = ~np.isin(np.arange(table.shape[0]), e)
    require(np.array_equal(new.all.removed, removed), f'removed {new.all.removed}')

"""C25: the mask of the TODs, the coverage and error of the maps."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, fail, require, sub

D = 'src/pysimulators/datatypes.py'
PROPERTY = dict(
    title='Masks of TODs and coverages and errors of maps follow the data',
    statement=(
        'Whatever the sequence of slices, reshapes, transpositions, copies, casts, '
        'arithmetic operations, splits and joins, the mask of a TOD and the coverage and '
        'error of a map have the shape of the data and flag the same samples. The NumPy '
        'functions and methods that reduce, accumulate or sort a TOD discard its masked '
        'samples as NumPy does for masked arrays, and none of them modifies its input.'
    ),
    over=['inputs', 'histories'],
    text='every shape, mask, index and sequence of operations',
    why=(
        'The tests apply a few functions to one 2x4 array; the mask that is lost, stale or '
        'shared depends on the index, the shape and the previous operations.'
    ),
    files=[D],
    mechanism=[
        ('Tod.__getitem__, Tod.mask, Tod._convert_function_outputs', D),
        ('Tod.reshape, Tod.ravel, Tod.median', D),
        ('Map.__getitem__, Map.reshape, Map.ravel, Map.astype', D),
    ],
)
RULE = (
    'A case is a TOD or a map and a sequence of operations; it is non-trivial when it has '
    'a mask with masked and valid samples, a coverage or an error.'
)
ASSUMPTIONS = [
    'the operands of an arithmetic operation have the same shape, and the mask is that '
    'of the first operand: the union of masks is not specified',
    'np.ptp ignores the masks as it does for NumPy masked arrays, which the tests require',
]

UNIT = 'Jy'


@st.composite
def arrays(draw, cls):
    r = gen.rng(draw(gen.seeds()))
    shape = draw(
        st.sampled_from(
            [(1,), (4,), (6,), (2, 3), (3, 4), (1, 5), (4, 1), (2, 3, 2), (2, 1, 3)] * 3
            + [(70,), (9, 15)]
        )
    )
    p = draw(st.sampled_from([0.2, 0.5, 0.8]))
    case = {'value': r.integers(-20, 21, shape) / 4, 'attrs': {}}
    names = ['mask'] if cls == 'Tod' else ['coverage', 'error']
    for k in names:
        if draw(st.sampled_from([True, True, True, False])):
            case['attrs'][k] = (
                r.random(shape) < p if k == 'mask' else r.integers(0, 9, shape) / 4
            )
    return case


def indices(draw, shape):
    """A random index of any kind."""
    r = gen.rng(draw(gen.seeds()))
    kind = draw(
        st.sampled_from(
            [
                'basic', 'basic', 'basic', 'list', 'bool', 'rows', 'dots', 'scalar-dots',
                'permutation', 'flipped',
            ]
        )
    )
    if kind == 'bool':
        return r.random(shape) < 0.6
    if kind == 'rows':
        return r.random(shape[0]) < 0.7
    if kind == 'list':
        return [int(_) for _ in r.integers(-shape[0], shape[0], draw(st.integers(1, 3)))]
    if kind == 'permutation':
        # the samples are exchanged but the shape is not
        return [int(_) for _ in r.permutation(shape[0])]
    if kind == 'flipped':
        return tuple(slice(None, None, -1) for _ in shape)
    key = []
    for n in shape[: draw(st.integers(1, len(shape)))]:
        which = draw(st.sampled_from(['int', 'slice', 'slice', 'all', 'none']))
        if kind == 'scalar-dots':
            which = 'int'
        if which == 'int':
            key.append(int(r.integers(-n, n)))
        elif which == 'slice':
            a, b = sorted(int(_) for _ in r.integers(0, n + 1, 2))
            step = draw(st.sampled_from([1, -1, 2, -1]))
            key.append(slice(a, b, step) if step > 0 else slice(None, None, -1))
        else:
            key.append(slice(None))
    if kind in ('dots', 'scalar-dots'):
        key.insert(0 if kind == 'dots' and len(key) == len(shape) else len(key), Ellipsis)
    return tuple(key) if len(key) > 1 or draw(st.booleans()) else key[0]


STEPS = [
    'index', 'index', 'index', 'index', 'index', 'index', 'reshape', 'ravel', 'flatten', 'transpose', 'T', 'swapaxes', 'squeeze',
    'astype', 'copy', 'add', 'multiply', 'negative', 'view', 'constructor', 'np.reshape',
    'np.ravel', 'np.transpose', 'np.squeeze', 'np.swapaxes', 'np.round', 'sqrt', 'pickle',
    'deepcopy', 'split', 'tounit',
]
TOD_STEPS = [
    'np.flip', 'np.roll', 'np.repeat', 'np.tile', 'np.take', 'np.concatenate', 'np.stack',
    'np.vstack', 'np.append', 'np.copy', 'np.where', 'np.moveaxis', 'np.expand_dims',
    'set mask', 'set mask',
]


@st.composite
def histories(draw, cls):
    case = {'cls': cls, **draw(arrays(cls))}
    shape = case['value'].shape
    steps = []
    dummy = np.zeros(shape)
    r = gen.rng(draw(gen.seeds()))
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6]))):
        op = draw(st.sampled_from(STEPS + (TOD_STEPS if cls == 'Tod' else [])))
        step = {'op': op}
        ndim = dummy.ndim
        if op == 'index':
            step['arg'] = indices(draw, dummy.shape)
            dummy = dummy[step['arg']]
        elif op in ('reshape', 'np.reshape'):
            n = dummy.size
            divisors = [k for k in range(1, n + 1) if n % k == 0]
            k = draw(st.sampled_from(divisors))
            step['arg'] = draw(st.sampled_from([(n,), (k, n // k), (-1, k), (1, n), -1]))
            step['order'] = draw(st.sampled_from('CF'))
            step['star'] = draw(st.booleans())
            dummy = dummy.reshape(step['arg'], order=step['order'])
        elif op in ('ravel', 'flatten', 'np.ravel'):
            step['order'] = draw(st.sampled_from('CF'))
            dummy = dummy.ravel(step['order'])
        elif op in ('transpose', 'np.transpose'):
            step['arg'] = draw(
                st.sampled_from([None, tuple(int(_) for _ in r.permutation(ndim))])
            )
            dummy = dummy.transpose(step['arg'])
        elif op == 'T':
            dummy = dummy.T
        elif op in ('swapaxes', 'np.swapaxes', 'np.moveaxis'):
            step['arg'] = [int(_) for _ in r.integers(-ndim, ndim, 2)]
            dummy = getattr(np, op.replace('np.', ''))(dummy, *step['arg'])
        elif op in ('squeeze', 'np.squeeze'):
            dummy = dummy.squeeze()
        elif op == 'split':
            axis = int(r.integers(0, ndim))
            step['arg'] = [draw(st.integers(1, 3)), axis, 0]
            pieces = np.array_split(dummy, *step['arg'][:2])
            step['arg'][2] = int(r.integers(0, len(pieces)))
            dummy = pieces[step['arg'][2]]
        elif op in ('np.flip', 'np.expand_dims'):
            step['arg'] = int(r.integers(0, ndim))
            dummy = getattr(np, op[3:])(dummy, step['arg'])
        elif op == 'np.roll':
            step['arg'] = draw(st.sampled_from([-1, 2]))
        elif op == 'np.repeat':
            step['arg'] = [2, int(r.integers(0, ndim))]
            dummy = np.repeat(dummy, *step['arg'])
        elif op == 'np.tile':
            step['arg'] = 2
            dummy = np.tile(dummy, 2)
        elif op == 'np.take':
            step['arg'] = [[int(_) for _ in r.integers(0, dummy.shape[0], 2)], 0]
            dummy = np.take(dummy, *step['arg'])
        elif op == 'np.delete':
            step['arg'] = [0, int(r.integers(0, ndim))]
            dummy = np.delete(dummy, *step['arg'])
        elif op in ('np.concatenate', 'np.stack', 'np.vstack', 'np.append', 'np.where'):
            step['other'] = r.integers(-20, 21, dummy.shape) / 4
            step['mask'] = draw(
                st.sampled_from([None, r.random(dummy.shape) < 0.5, r.random(dummy.shape) < 0.5])
            )
            step['tod'] = draw(st.booleans())
            step['condition'] = r.random(dummy.shape) < 0.5
            step['axis'] = int(r.integers(0, ndim))
            dummy = joined(op, step)(dummy, dummy, np.where)
        elif op == 'set mask':
            step['arg'] = draw(
                st.sampled_from([None, True, False, r.random(dummy.shape) < 0.5])
            )
            step['dtype'] = draw(st.sampled_from(['bool', 'uint8', 'list']))
        elif op == 'astype':
            step['arg'] = draw(st.sampled_from(['f4', 'f8']))
        steps.append(step)
        if dummy.ndim == 0 or dummy.size == 0 or dummy.size > 300:
            break
    case['steps'] = steps
    return case


def joined(op, step):
    axis = step['axis']
    return {
        'np.concatenate': lambda a, b, where: np.concatenate([a, b], axis=axis),
        'np.stack': lambda a, b, where: np.stack([a, b], axis=axis),
        'np.vstack': lambda a, b, where: np.vstack((a, b)),
        'np.append': lambda a, b, where: np.append(a, b, axis=axis),
        'np.where': lambda a, b, where: where(step['condition'], a, b),
    }[op]


def apply(op, step, x, masks=False):
    """The operation on an array that only moves the samples."""
    arg = step.get('arg')
    if op == 'index':
        return x[arg]
    if op in ('reshape', 'np.reshape'):
        if op == 'np.reshape':
            return np.reshape(x, arg, order=step['order'])
        if step['star'] and isinstance(arg, tuple):
            return x.reshape(*arg, order=step['order'])
        return x.reshape(arg, order=step['order'])
    if op in ('ravel', 'flatten'):
        return getattr(x, op)(step['order'])
    if op == 'np.ravel':
        return np.ravel(x, order=step['order'])
    if op == 'transpose':
        return x.transpose() if arg is None else x.transpose(*arg)
    if op == 'np.transpose':
        return np.transpose(x) if arg is None else np.transpose(x, arg)
    if op == 'T':
        return x.T
    if op == 'swapaxes':
        return x.swapaxes(*arg)
    if op in ('np.swapaxes', 'np.moveaxis', 'np.repeat', 'np.delete'):
        return getattr(np, op[3:])(x, *arg)
    if op == 'np.take':
        return np.take(x, arg[0], axis=arg[1])
    if op == 'squeeze':
        return x.squeeze()
    if op == 'np.squeeze':
        return np.squeeze(x)
    if op == 'split':
        return np.array_split(x, *arg[:2])[arg[2]]
    if op in ('np.flip', 'np.expand_dims', 'np.tile', 'np.roll'):
        return getattr(np, op[3:])(x, arg)
    raise AssertionError(op)


MOVES = {
    'index', 'reshape', 'np.reshape', 'ravel', 'flatten', 'np.ravel', 'transpose',
    'np.transpose', 'T', 'swapaxes', 'np.swapaxes', 'np.moveaxis', 'np.repeat', 'np.delete',
    'np.take', 'squeeze', 'np.squeeze', 'split', 'np.flip', 'np.expand_dims', 'np.tile',
    'np.roll',
}


def build(case):
    import pysimulators

    cls = getattr(pysimulators, case['cls'])
    attrs = {k: v.copy() for k, v in case['attrs'].items()}
    return cls(case['value'].copy(), unit=UNIT, **attrs)


def verify(x, m, message, names):
    require(
        gen.close(np.asarray(x), m['value'], 1e-6), f'{message}: values', got=np.asarray(x)
    )
    for k in names:
        v, e = getattr(x, k), m[k]
        if e is None:
            # no mask is the same as nothing masked
            ok = v is None or k == 'mask' and v.shape == x.shape and not v.any()
        elif v is None:
            ok = k == 'mask' and not e.any()
        else:
            ok = v.shape == e.shape == x.shape and np.array_equal(np.asarray(v), e)
        require(ok, f'{message}: {k}', got=v, expected=e)
        if v is not None and k == 'mask':
            require(v.dtype == bool, f'{message}: type of the mask', got=v.dtype)


def history(case):
    """The attributes follow the data whatever the operations."""
    import copy
    import pickle

    import pysimulators

    cls = getattr(pysimulators, case['cls'])
    names = ['mask'] if case['cls'] == 'Tod' else ['coverage', 'error']
    x = build(case)
    m = {'value': case['value'].copy(), **{k: case['attrs'].get(k) for k in names}}
    m = {k: None if v is None else v.copy() for k, v in m.items()}
    for i, step in enumerate(case['steps']):
        op = step['op']
        where = f'step {i} ({op})'
        previous, old = x, dict(m)
        if op in MOVES:
            x = apply(op, step, x)
            if op == 'split' and case['cls'] == 'Map':
                # the coverage and error are those of the data or none
                for k in names:
                    if getattr(x, k) is None:
                        m[k] = None
            m = {k: None if v is None else apply(op, step, v) for k, v in m.items()}
            if not isinstance(x, np.ndarray):
                require(x == m['value'], f'{where}: value', got=x, expected=m['value'])
                break
        elif op == 'astype':
            x = x.astype(step['arg'])
            m['value'] = m['value'].astype(step['arg'])
        elif op == 'copy':
            x = x.copy()
        elif op == 'deepcopy':
            x = copy.deepcopy(x)
        elif op == 'pickle':
            x = pickle.loads(pickle.dumps(x))
        elif op == 'view':
            x = x.view()
        elif op == 'np.copy':
            x = np.copy(x)
        elif op == 'constructor':
            x = cls(x, dtype=x.dtype)
        elif op == 'add':
            x = x + x
            m['value'] = m['value'] * 2
        elif op == 'multiply':
            x = x * 0.5
            m['value'] = m['value'] * 0.5
        elif op == 'negative':
            x = -x
            m['value'] = -m['value']
        elif op == 'sqrt':
            x = abs(x)
            m['value'] = abs(m['value'])
        elif op == 'np.round':
            x = np.round(x)
            m['value'] = np.round(m['value'])
        elif op == 'tounit':
            x = x.tounit('mJy').tounit(UNIT)
        elif op == 'set mask':
            mask = step['arg']
            if isinstance(mask, np.ndarray):
                arg = {'bool': mask, 'uint8': mask.astype('u1'), 'list': mask.tolist()}[
                    step['dtype']
                ]
                x.mask = arg.copy()
                m['mask'] = mask.copy()
                old = dict(m)
            else:
                x = 1 * x
                x.mask = mask
                m['mask'] = None if mask is None else np.full(x.shape, mask)
        else:
            f = joined(op, step)
            if step['mask'] is not None and step['tod']:
                other = cls(step['other'], unit=UNIT, mask=step['mask'].copy())
            elif step['tod']:
                other = cls(step['other'], unit=UNIT)
            else:
                other = step['other']
            masks = [
                np.zeros(v.shape, bool) if k is None else k
                for v, k in (
                    (m['value'], m['mask']),
                    (step['other'], step['mask'] if step['tod'] else None),
                )
            ]
            x = f(x, other, np.where)
            m = {
                'value': f(m['value'], step['other'], np.where),
                'mask': f(*masks, np.where),
            }
        require(type(x) is cls, f'{where}: the type is lost', type=type(x))
        require(x.unit == UNIT, f'{where}: the unit is lost', got=x.unit)
        verify(x, m, where, names)
        verify(previous, old, f'{where}, the input', names)
        if x.ndim == 0:
            break


def both(c):
    return any(v.any() and (v == 0).any() or k != 'mask' for k, v in c['attrs'].items())


@sub(histories('Tod'), quick=900, thorough=16000, nontrivial=both)
def tods(case):
    history(case)


@sub(histories('Map'), quick=600, thorough=10000, nontrivial=both)
def maps(case):
    history(case)


FUNCTIONS = [
    'sum', 'mean', 'std', 'var', 'max', 'min', 'median', 'average', 'cumsum', 'sort', 'nansum',
    'nanmax',
]
METHODS = ['sum', 'mean', 'std', 'var', 'max', 'min', 'cumsum', 'median']


@st.composite
def reductions(draw):
    c = {'cls': 'Tod', **draw(arrays('Tod'))}
    ndim = c['value'].ndim
    method = draw(st.booleans())
    kw = {}
    name = draw(st.sampled_from(METHODS if method else FUNCTIONS))
    axis = draw(st.sampled_from(['default', None, *range(-ndim, ndim)]))
    if name == 'sort':
        axis = draw(st.integers(-ndim, ndim - 1))
    if axis != 'default':
        kw['axis'] = axis
    if name in ('std', 'var') and draw(st.booleans()):
        kw['ddof'] = 1
    if name in ('sum', 'mean', 'std', 'var', 'max', 'min') and draw(st.booleans()):
        kw['keepdims'] = draw(st.booleans())
    if name in ('sum', 'mean', 'std', 'var', 'cumsum') and draw(st.integers(0, 2)) == 0:
        kw['dtype'] = draw(st.sampled_from(['f4', 'f8']))
    return {**c, 'name': name, 'method': method, 'kw': kw, 'dtype': draw(st.sampled_from(['f8', 'f8', 'f4']))}


@sub(reductions(), quick=900, thorough=16000, nontrivial=both)
def reduced(case):
    """Oracle: the valid samples of each line, one after the other."""
    from pysimulators import Tod

    value = case['value'].astype(case['dtype'])
    mask = case['attrs'].get('mask')
    x = Tod(value.copy(), unit=UNIT, mask=None if mask is None else mask.copy())
    name, kw = case['name'], case['kw']
    if case['method']:
        result = getattr(x, name)(**kw)
    else:
        result = getattr(np, name)(x, **kw)
    valid = np.ones(value.shape, bool) if mask is None else ~mask

    axis = kw.get('axis')
    if name == 'sort':
        axis = kw['axis']
    if axis is None:
        lines = value.reshape((1, -1))
        valids = valid.reshape((1, -1))
        shape = ()
    else:
        lines = np.moveaxis(value, axis, -1)
        valids = np.moveaxis(valid, axis, -1)
        shape = lines.shape[:-1]
        lines = lines.reshape((-1, value.shape[axis]))
        valids = valids.reshape(lines.shape)
    if name in ('cumsum', 'sort'):
        expected = np.zeros(lines.shape)
        expected_mask = np.zeros(lines.shape, bool)
        for i, (line, ok) in enumerate(zip(lines, valids)):
            if name == 'cumsum':
                expected[i] = np.cumsum(np.where(ok, line, 0))
                expected_mask[i] = ~ok
            else:
                n = ok.sum()
                expected[i, :n] = np.sort(line[ok])
                expected_mask[i, n:] = True
        if axis is None:
            expected, expected_mask = expected[0], expected_mask[0]
        else:
            full = shape + (value.shape[axis],)
            expected = np.moveaxis(expected.reshape(full), -1, axis)
            expected_mask = np.moveaxis(expected_mask.reshape(full), -1, axis)
        unit = UNIT
    else:
        func = {'average': np.mean, 'nansum': np.sum, 'nanmax': np.max}.get(
            name, getattr(np, name)
        )
        ddof = kw.get('ddof', 0)
        expected, expected_mask = [], []
        for line, ok in zip(lines.astype(float), valids):
            n = ok.sum()
            expected_mask.append(n == 0 or n <= ddof)
            if expected_mask[-1]:
                expected.append(0)
            else:
                expected.append(func(line[ok], **({'ddof': ddof} if ddof else {})))
        expected = np.reshape(expected, shape)
        expected_mask = np.reshape(expected_mask, shape)
        if kw.get('keepdims'):
            full = list(value.shape)
            if axis is None:
                full = [1] * value.ndim
            else:
                full[axis] = 1
            expected, expected_mask = expected.reshape(full), expected_mask.reshape(full)
        unit = UNIT if name != 'var' else UNIT + '^2'
        if ddof and mask is None and expected_mask.any():
            discard()  # NumPy returns NaN
    require(isinstance(result, Tod), 'the type is lost', type=type(result))
    require(result.unit == unit, 'the unit is wrong', got=result.unit)
    got = np.asarray(result)
    require(got.shape == expected.shape, 'the shape is wrong', got=got.shape, expected=expected.shape)
    gotmask = result.mask
    if gotmask is not None:
        require(gotmask.shape == got.shape, 'the shape of the mask is wrong', got=gotmask.shape)
    invalid = np.zeros(got.shape, bool) if gotmask is None else gotmask
    # NaN also stands for the lack of valid sample
    require(
        np.array_equal(invalid | np.isnan(got), expected_mask),
        'the mask is wrong',
        got=gotmask,
        expected=expected_mask,
    )
    ok = ~expected_mask
    tol = 50 * gen.eps(value.dtype, np.dtype(kw.get('dtype', 'f8')))
    if mask is None and 'dtype' in kw:
        require(got.dtype == kw['dtype'], 'the type of the result is wrong', got=got.dtype)
    require(
        gen.close(got[ok], expected[ok], tol, 200.0 * value.size),
        'the values are wrong',
        got=got,
        expected=expected,
    )
    require(
        np.array_equal(np.asarray(x), value)
        and (mask is None or np.array_equal(x.mask, mask)),
        'the input is modified',
    )


@st.composite
def refused_masks(draw):
    return {
        'shape': draw(st.sampled_from([(3,), (2, 3)])),
        'mask': draw(st.sampled_from([(2,), (3, 2), (1, 3), (6,), (2, 3, 1)])),
        'dtype': draw(st.sampled_from(['bool', 'uint8', 'int64'])),
    }


@sub(refused_masks(), quick=30, thorough=60)
def refused(case):
    """A mask of another shape is refused and leaves the TOD as it was."""
    from pysimulators import Tod

    x = Tod(np.ones(case['shape']), mask=np.zeros(case['shape'], bool))
    try:
        x.mask = np.ones(case['mask'], case['dtype'])
    except ValueError:
        pass
    else:
        fail('the mask is accepted', shape=x.mask.shape)
    require(not x.mask.any() and x.mask.shape == x.shape, 'the mask is modified')

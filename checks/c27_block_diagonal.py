"""C27: the decorator that partitions operators."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import require, sub

PROPERTY = dict(
    title='Partitioned operators act on each block as the operator with its arguments',
    statement=(
        'A class decorated by block_diagonal, or one of its subclasses, whose partition '
        'arguments are sequences (positional or keyword) or that is given a partition, is a '
        'block diagonal operator: each chunk of the input along axisin, or each slice along '
        'new_axisin, is transformed by the undecorated operator with the corresponding '
        'elements of the arguments, scalars being shared, in both directions and whether '
        'or not the shape of the whole operator is specified. Sequences of different lengths '
        'or that do not match the partition are refused; without sequence nor partition, '
        'the operator is the undecorated one.'
    ),
    over=['inputs', 'configurations'],
    text='every argument mix, partition, axis, explicit or implicit shape and input',
    why=(
        'The tests only partition vectors along the first axis, with implicit shapes and '
        'values that do not depend on the position in the block.'
    ),
    files=['src/pysimulators/operators.py'],
    mechanism=[('block_diagonal', 'src/pysimulators/operators.py')],
)
RULE = (
    'A case is a decorated class, arguments, a partition and an input; it is non-trivial '
    'when there are several blocks.'
)


@st.composite
def cases(draw):
    new = draw(st.booleans())
    ndim = draw(st.integers(1, 3))
    axis = draw(st.integers(0, ndim - 1))
    n = draw(st.sampled_from([0, 1, 2, 2, 3, 4]))
    r = gen.rng(draw(gen.seeds()))
    shape = [int(_) for _ in r.integers(1, 4, ndim)]
    partition = [int(_) for _ in r.integers(1, 4, n)]
    if new:
        partition = [1] * n
    if n:
        shape[axis] = sum(partition)
    args = {}
    for name in ('value', 'key'):
        how = draw(st.sampled_from(['scalar', 'list', 'tuple', 'array']))
        if n == 0:
            how = 'scalar'
        args[name] = (how, [float(_) for _ in r.integers(1, 9, max(n, 1))])
    return {
        'new': new,
        'axis': axis,
        'negative': draw(st.booleans()),
        'shape': tuple(shape),
        'n': n,
        'partition': partition,
        'args': args,
        'how': draw(st.sampled_from(['args', 'mixed', 'keywords'])),
        'given': draw(st.booleans()),
        'shapes': draw(st.sampled_from(['', '', 'in', 'out', 'both'])),
        'subclass': draw(st.booleans()),
        'wrong': draw(st.sampled_from(['', '', '', '', 'argument', 'partition'])),
        'input': r.integers(-8, 9, shape) / 4.0,
    }


def operator_class(decorate):
    from pyoperators import Operator, flags

    @decorate
    @flags.linear
    @flags.square
    class PositionOp(Operator):
        """Not invariant by permutation: cumulated sums over all the axes, scaled."""

        def __init__(self, shared, value, key=None, **keywords):
            self.shared, self.value, self.key = shared, value, key
            Operator.__init__(self, dtype=float, **keywords)

        def direct(self, input, output):
            a = self.value * input
            for i in range(a.ndim):
                a = np.cumsum(a, axis=i)
            output[...] = self.shared[0] * (a + self.key * input)

        def transpose(self, input, output):
            a = self.value * input
            for i in range(a.ndim):
                a = np.flip(np.cumsum(np.flip(a, i), axis=i), i)
            output[...] = self.shared[0] * (a + self.key * input)

    return PositionOp


def several(case):
    return case['n'] > 1


@sub(cases, quick=500, thorough=10000, nontrivial=several)
def partitioned(case):
    """Every chunk or slice is transformed by the operator with its own arguments."""
    from pyoperators import BlockDiagonalOperator
    from pysimulators.operators import block_diagonal

    axis = case['axis'] - len(case['shape']) if case['negative'] else case['axis']
    plain = operator_class(lambda c: c)
    name = 'new_axisin' if case['new'] else 'axisin'
    if case['new'] and case['negative']:
        # the number of dimensions of the input along a new axis is not known
        axis = case['axis']
    cls = operator_class(block_diagonal('value', 'key', **{name: axis}))
    if case['subclass']:
        cls = type('Sub', (cls,), {})
    types = {'list': list, 'tuple': tuple, 'array': np.array, 'scalar': lambda v: v[0]}
    values = {k: types[how](v) for k, (how, v) in case['args'].items()}
    sequence = any(how != 'scalar' for how, _ in case['args'].values())
    shared = [3.0, 4, 5, 6, 7]
    keywords = {}
    n, partition = case['n'], case['partition']
    if n and (case['given'] or not case['new'] or not sequence):
        keywords['partitionin'] = tuple(partition)
    if case['shapes'] in ('in', 'both'):
        keywords['shapein'] = case['shape']
    if case['shapes'] in ('out', 'both'):
        keywords['shapeout'] = case['shape']
    wrong = case['wrong'] if sequence and n > 1 else ''
    if wrong == 'argument' and all(how != 'scalar' for how, _ in case['args'].values()):
        values['key'] = values['key'][1:]
    elif wrong == 'partition':
        keywords['partitionin'] = tuple(partition) + (1,)
    else:
        wrong = ''
    if case['how'] == 'args':
        args = (shared, values['value'], values['key'])
    elif case['how'] == 'mixed':
        args = (shared, values['value'])
        keywords['key'] = values['key']
    else:
        args = (shared,)
        keywords.update(values)
    try:
        op = cls(*args, **keywords)
    except ValueError:
        if wrong:
            return
        raise
    require(not wrong, f'invalid {wrong} accepted')

    def element(k, i):
        how, v = case['args'][k]
        return v[0] if how == 'scalar' else v[i]

    x = case['input']
    if n > 1:
        require(isinstance(op, BlockDiagonalOperator), f'the operator is a {type(op)}')
        if case['shapes']:
            require(
                op.shapein == x.shape and op.shapeout == x.shape,
                lambda: f'the shapes are {op.shapein} and {op.shapeout}, not {x.shape}',
            )
    elif n == 0:
        require(type(op) is cls, lambda: f'the operator is a {type(op)}')
    blocks = [plain(shared, element('value', i), element('key', i)) for i in range(max(n, 1))]
    for direction in 'direct', 'transpose':
        if n == 0:
            e = blocks[0](x) if direction == 'direct' else blocks[0].T(x)
        else:
            if n == 1 and case['new']:
                # the single block is the operator itself, along no new axis
                return
            if case['new']:
                parts = [np.take(x, i, axis=case['axis']) for i in range(n)]
            else:
                parts = np.split(x, np.cumsum(partition)[:-1], axis=case['axis'])
            parts = [
                (b if direction == 'direct' else b.T)(p) for b, p in zip(blocks, parts)
            ]
            join = np.stack if case['new'] else np.concatenate
            e = join(parts, axis=case['axis'])
        actual = op(x) if direction == 'direct' else op.T(x)
        require(
            actual.shape == e.shape and np.allclose(actual, e, rtol=1e-13, atol=1e-11),
            lambda: f'{direction}: {actual.tolist()} instead of {e.tolist()}',
        )


@sub(
    lambda: st.dictionaries(
        st.sampled_from(['axisin', 'new_axisin', 'axisout', 'axis']), st.integers(-1, 1)
    ),
    quick=30,
    thorough=100,
    nontrivial=lambda c: len(c) > 0,
)
def decorator_arguments(case):
    """The axis must be given, and no other argument is accepted."""
    from pysimulators.operators import block_diagonal

    valid = len(case) == 1 and ('axisin' in case or 'new_axisin' in case)
    if 'axisin' in case and 'new_axisin' in case:
        return
    try:
        block_diagonal('value', **case)
    except TypeError:
        require(not valid, f'{case} is refused')
    else:
        require(valid, f'{case} is accepted')

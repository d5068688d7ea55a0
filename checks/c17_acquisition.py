"""C17: acquisitions and instruments against the dense model of every measurement."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

A = 'src/pysimulators/acquisitions.py'
I = 'src/pysimulators/instruments.py'
PROPERTY = dict(
    title='An acquisition is the stack of the models of its detectors and samples',
    statement=(
        'For any instrument with removed detectors, sampling, scene, partition into blocks '
        '(explicit or induced by a memory limit) and chain of restrictions to detectors, '
        'samples or scene pixels, the acquisition operator, the inverse noise covariance and '
        'the observations are those of the selected detectors, samples and pixels, whatever '
        'the blocks, and the parent acquisition is left unchanged. Packing, unpacking, '
        'splitting and iterating the instrument act on the selected detectors, the object '
        'and image planes are related by inverse operators, and a mask policy is converted '
        'to the codes of its flags.'
    ),
    over=['inputs', 'configurations', 'histories'],
    text='every layout, partition into blocks, memory limit and chain of restrictions',
    why=(
        'The tests use a single block and never build the operator of a restricted '
        'acquisition; the combinations of blocks, restrictions and removed detectors are '
        'too many to be listed.'
    ),
    files=[A, I, 'src/pysimulators/packedtables/core.py'],
    mechanism=[
        ('Acquisition.__getitem__, get_operator, get_observation, get_noise', A),
        ('Acquisition.get_invntt_operator, get_operator_nbytes, pack, unpack', A),
        ('MaskPolicy', A),
        ('Instrument.__getitem__, split, pack, unpack; Imager', I),
    ],
)
RULE = (
    'A case is an acquisition, a partition into blocks and a chain of restrictions; it is '
    'non-trivial when there are several detectors and samples and several blocks or a '
    'restriction.'
)


def selections(draw, n):
    """A selection of at least one of the n elements and its indices."""
    what = draw(st.sampled_from(['all', 'ellipsis', 'slice', 'mask', 'index', 'int']))
    if what == 'all':
        return slice(None), list(range(n))
    if what == 'ellipsis':
        return Ellipsis, list(range(n))
    if what == 'slice':
        start = draw(st.integers(0, n - 1))
        stop = draw(st.integers(start + 1, n))
        step = draw(st.integers(1, 2))
        return slice(start, stop, step), list(range(start, stop, step))
    if what == 'mask':
        mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(mask):
            mask[draw(st.integers(0, n - 1))] = True
        return mask, [i for i, m in enumerate(mask) if m]
    if what == 'int':
        i = draw(st.integers(0, n - 1))
        return i, [i]
    index = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    return sorted(index), sorted(index)


@st.composite
def cases(draw):
    shape = draw(st.sampled_from([(1,), (3,), (2, 3), (2, 2)]))
    total = int(np.prod(shape))
    keep = draw(
        st.one_of(
            st.none(), st.lists(st.booleans(), min_size=total, max_size=total)
        )
    )
    if keep is not None and not any(keep):
        keep[0] = True
    ndet = total if keep is None else sum(keep)
    ns = draw(st.integers(1, 7))
    npix = draw(st.integers(1, 5))
    if draw(gen.rarely()):
        ns, npix = draw(st.sampled_from([(40, 5), (129, 2), (6, 70)]))
    scene, scene_keep = (npix,), None
    if npix <= 5 and draw(st.booleans()):
        # a map, maybe with removed pixels
        scene = draw(st.sampled_from([(1, 2), (2, 2), (2, 3), (2, 1, 2)]))
        n = int(np.prod(scene))
        scene_keep = draw(
            st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))
        )
        if scene_keep is not None and not any(scene_keep):
            scene_keep[n - 1] = True
        npix = n if scene_keep is None else sum(scene_keep)
    block, limit = None, None
    how = draw(st.sampled_from(['none', 'blocks', 'blocks', 'limit']))
    if how == 'blocks':
        cuts = sorted(draw(st.sets(st.integers(1, max(1, ns - 1)), max_size=3)))
        cuts = [0] + [_ for _ in cuts if _ < ns] + [ns]
        block = [slice(a, b) for a, b in zip(cuts[:-1], cuts[1:])]
        if draw(st.booleans()):
            block = tuple(block)
    elif how == 'limit':
        limit = draw(st.integers(1, 16 * ndet * ns * 2))
    chain = []
    sizes = [ndet, ns, npix]
    for _ in range(draw(st.integers(0, 2))):
        dims = draw(st.integers(1, 3))
        key, idx = [], []
        for d in range(3):
            if d < dims and draw(st.booleans()):
                k, i = selections(draw, sizes[d])
            else:
                k, i = slice(None), list(range(sizes[d]))
            key.append(k)
            idx.append(i)
        form = draw(st.sampled_from(['tuple', 'short']))
        if form == 'short':
            full = [len(i) == n for i, n in zip(idx, sizes)]
            if full[0] and full[1] and draw(st.booleans()):
                key = (Ellipsis, key[2])  # acq[..., pixels]
            elif full[2] and not (full[0] and key[0] is Ellipsis):
                key = key[:1] if full[1] else key[:2]
        chain.append((tuple(key), idx))
        sizes = [len(i) for i in idx]
    return {
        'shape': shape,
        'keep': keep,
        'ns': ns,
        'npix': npix,
        'scene': scene,
        'scene_keep': scene_keep,
        'block': block,
        'limit': limit,
        'chain': chain,
        'sigma': draw(st.sampled_from([0.5, 2.0])),
        'fknee': draw(st.sampled_from([0, 0, 0.5])),
        'varying': draw(st.booleans()),
        'seed': draw(st.integers(0, 2**31)),
        'single': draw(st.booleans()),
        'cached': draw(st.booleans()),
    }


def nontrivial(c):
    return c['ns'] > 1 and c['shape'] != (1,) and (
        bool(c['chain']) or c['limit'] is not None or len(c['block'] or ()) > 1
    )


def response(d, t, p):
    """The contribution of pixel p to the measurement at t by the detector d."""
    return (1 + d) * 0.5 + t * 16.0 + p * 256.0 + ((3 * d + 5 * t) % 7)


def make(case):
    from pyoperators import DiagonalOperator

    from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import FSRMatrix

    class MyInstrument(Instrument):
        def get_operator(self, sampling, scene):
            d = self.detector.index[:, None, None]
            t = sampling.index[None, :, None]
            # every sample sees every pixel of the restricted scene
            nd, nt, n = len(self), len(sampling), len(scene)
            dtype = [('index', np.int32), ('value', float)]
            data = np.recarray((nd, nt, n), dtype=dtype)
            data.index = np.arange(n)
            data.value = response(d, t, scene.index[None, None, :])
            matrix = FSRMatrix((nd * nt, n), data=data.reshape((-1, n)))
            return ProjectionOperator(matrix, dtype=float, shapeout=(nd, nt))

        def get_invntt_operator(self, sampling):
            sigma = case['sigma'] * (1 + self.detector.index)
            if case['varying']:
                # the noise depends on the sample
                sigma = sigma[:, None] * (1 + sampling.index % 3)
                return DiagonalOperator(1 / sigma**2)
            if case['fknee']:
                return Instrument.get_invntt_operator(
                    self, sampling, sigma=sigma, fknee=0.5, ncorr=0
                )
            return Instrument.get_invntt_operator(self, sampling, sigma=sigma)

        def get_noise(self, sampling, out=None, **keywords):
            return Instrument.get_noise(
                self,
                sampling,
                sigma=case['sigma'] * (1 + self.detector.index),
                fknee=case['fknee'],
                out=out,
                **keywords,
            )

    keep = case['keep']
    selection = None if keep is None else np.reshape(keep, case['shape'])
    instrument = MyInstrument('test', PackedTable(case['shape'], selection=selection))
    sampling = Sampling(case['ns'], period=0.5)
    kw = {}
    if case['block'] is not None:
        kw['block'] = case['block']
    if case['limit'] is not None:
        kw['max_nbytes'] = case['limit']
    keep = case.get('scene_keep')
    scene = Scene(case.get('scene', case['npix']))
    if keep is not None:
        scene = scene[np.array(keep)]
    return Acquisition(instrument, sampling, scene, **kw)


def model(d, t, p):
    return response(
        np.array(d)[:, None, None], np.array(t)[None, :, None], np.array(p)[None, None]
    )


def check(acq, d, t, p, case, what):
    import operator

    expected = model(d, t, p)
    shape = (len(d), len(t))
    require(len(acq.instrument) == len(d), lambda: f'{what}: {len(acq.instrument)} detectors')
    require(
        np.array_equal(acq.instrument.detector.index, d),
        lambda: f'{what}: detectors {acq.instrument.detector.index} instead of {d}',
    )
    require(
        np.array_equal(acq.sampling.index, t),
        lambda: f'{what}: samples {acq.sampling.index} instead of {t}',
    )
    require(
        np.array_equal(acq.scene.index, p),
        lambda: f'{what}: pixels {acq.scene.index} instead of {p}',
    )
    require(
        np.array_equal(acq.sampling.time, np.array(t) * 0.5),
        lambda: f'{what}: times {acq.sampling.time}',
    )
    # the blocks are a partition of the samples
    covered = [i for b in acq.block for i in range(len(t))[b]]
    require(
        covered == list(range(len(t))),
        lambda: f'{what}: the blocks {acq.block} do not cover {len(t)} samples',
    )
    H = acq.get_operator()
    require(acq.get_operator() is H, f'{what}: the operator is not cached')
    dense = H.todense().reshape(shape + (len(p),))
    require(
        np.allclose(dense, expected, rtol=1e-12, atol=0),
        lambda: f'{what}: operator {dense.tolist()} instead of {expected.tolist()}',
    )
    sky = gen.rng(case['seed']).integers(-8, 9, len(p)) / 4
    tod = expected @ sky
    scale = np.abs(expected) @ np.abs(sky)
    actual = acq.get_observation(sky, noiseless=True)

    def close(a, b, name, atol=scale):
        require(
            a.shape == b.shape and np.all(np.abs(a - b) <= 1e-11 * atol + 1e-11),
            lambda: f'{what}: {name}: {a.tolist()} instead of {b.tolist()}',
        )

    close(actual, tod, 'noiseless observation')
    out = np.full(shape, 7.0)
    res = acq.get_observation(sky, noiseless=True, out=out)
    require(res is out, f'{what}: the output buffer is not returned')
    close(out, tod, 'noiseless observation in a buffer')
    np.random.seed(case['seed'] % 2**32)
    noise = acq.get_noise()
    require(noise.shape == shape, lambda: f'{what}: noise of shape {noise.shape}')
    np.random.seed(case['seed'] % 2**32)
    by_block = np.concatenate(
        [acq.instrument.get_noise(acq.sampling[b]) for b in acq.block], axis=1
    )
    close(noise, by_block, 'noise of the blocks', atol=1)
    np.random.seed(case['seed'] % 2**32)
    close(acq.get_observation(sky), tod + noise, 'observation', atol=scale + 100)
    out = np.full(shape, 7.0)
    np.random.seed(case['seed'] % 2**32)
    acq.get_noise(out=out, operation=operator.iadd)
    close(out, noise + 7, 'noise added to a buffer', atol=100)
    out = np.full(shape, 7.0)
    acq.get_observation(sky, noiseless=True, out=out, operation=operator.iadd)
    close(out, tod + 7, 'noiseless observation added to a buffer', atol=scale + 10)
    np.random.seed(case['seed'] % 2**32)
    acq.get_observation(sky, out=out, operation=operator.iadd)
    close(out, 2 * tod + noise + 7, 'observation added to a buffer', atol=scale + 100)
    x = gen.rng(case['seed'] + 1).integers(-8, 9, shape) / 4
    op = acq.get_invntt_operator()
    parts = [acq.instrument.get_invntt_operator(acq.sampling[b]) for b in acq.block]
    ref = np.concatenate([o(x[:, b]) for o, b in zip(parts, acq.block)], axis=1)
    close(op(x), ref, 'inverse noise covariance', atol=100)
    if case['varying'] or not case['fknee']:
        sigma = case['sigma'] * (1 + np.array(d))[:, None]
        if case['varying']:
            sigma = sigma * (1 + np.array(t) % 3)
        close(op(x), x / sigma**2, 'inverse white noise covariance', atol=100)
    return H


@sub(cases, quick=150, thorough=5000, nontrivial=nontrivial)
def acquisition(case):
    """Operators, observations and noise of an acquisition and of its restrictions."""
    total = int(np.prod(case['shape']))
    keep = case['keep'] or [True] * total
    d = [i for i, k in enumerate(keep) if k]
    t = list(range(case['ns']))
    keep = case['scene_keep'] or [True] * case['npix']
    p = [i for i, k in enumerate(keep) if k]
    acq = make(case)
    if case['limit'] is not None:
        nbytes = acq.get_operator_nbytes()
        n = len(acq.block)
        require(
            n == max(1, min(case['ns'], -(-nbytes // case['limit']))),
            lambda: f'{n} blocks for {nbytes} bytes and a limit of {case["limit"]}',
        )
        sizes = {b.stop - b.start for b in acq.block}
        require(max(sizes) - min(sizes) <= 1, lambda: f'unbalanced blocks: {acq.block}')
    history = [(acq, d, t, p)]
    if case['cached']:
        acq.get_operator()
    for key, idx in case['chain']:
        child = acq[key[0] if len(key) == 1 and case['single'] else key]
        d, t, p = ([a[i] for i in j] for a, j in zip((d, t, p), idx))
        require(child is not acq, 'the restriction is not a new acquisition')
        acq = child
        history.append((acq, d, t, p))
    for i, (acq, d, t, p) in enumerate(reversed(history)):
        check(acq, d, t, p, case, f'restriction {len(history) - 1 - i}')


@st.composite
def instruments(draw):
    shape = draw(st.sampled_from([(1,), (4,), (2, 3), (2, 2, 2)]))
    total = int(np.prod(shape))
    keep = draw(
        st.one_of(
            st.none(), st.lists(st.booleans(), min_size=total, max_size=total)
        )
    )
    ndet = total if keep is None else sum(keep)
    return {
        'shape': shape,
        'keep': keep,
        'extra': draw(st.sampled_from([(), (2,), (1, 3)])),
        'n': draw(st.integers(1, 5)),
        'missing': draw(st.sampled_from([None, -5.0, 0.0])),
        'dtype': draw(st.sampled_from(['f8', 'f4', 'i4', 'c16'])),
        'kind': draw(st.sampled_from(['instrument', 'object2image', 'image2object'])),
        'old': draw(st.booleans()),
        'a': draw(st.sampled_from([0.5, 2.0, -4.0])),
        'use': draw(st.sampled_from(['plain', 'out', 'copy'])),
        'sel': selections(draw, ndet) if ndet else None,
    }


@sub(
    instruments,
    quick=200,
    thorough=6000,
    nontrivial=lambda c: c['keep'] is not None and c['shape'] != (1,),
)
def instrument(case):
    """Packing, splitting, iterating and the object and image planes."""
    from pyoperators import HomothetyOperator

    from pysimulators import Acquisition, Imager, Instrument, PackedTable, Sampling, Scene

    shape = case['shape']
    total = int(np.prod(shape))
    keep = np.reshape(case['keep'] or [True] * total, shape)
    layout = PackedTable(
        shape, selection=None if case['keep'] is None else keep, value=np.arange(total).reshape(shape) * 1.5
    )
    if case['kind'] == 'instrument':
        ins = Instrument('name', layout) if case['old'] else Instrument(layout, 'name')
    else:
        op = HomothetyOperator(case['a'])
        ins = Imager('name', layout, **{case['kind']: op})
        x = np.array([[1.0, 2], [-3, 4]])
        forward, backward = ins.object2image, ins.image2object
        if case['kind'] == 'image2object':
            forward, backward = backward, forward
        require(np.array_equal(forward(x), x * case['a']), 'the specified transform')
        require(np.allclose(backward(x), x / case['a']), 'the inverse transform')
        require(np.allclose(backward(forward(x)), x), 'the round trip')
    require(ins.name == 'name' and ins.detector is layout, 'name or layout')
    selected = np.flatnonzero(keep)
    ndet = len(selected)
    require(len(ins) == ndet, lambda: f'{len(ins)} detectors instead of {ndet}')
    acq = Acquisition(ins, Sampling(3, period=1.0), Scene(2))
    x = (np.arange(total * int(np.prod(case['extra']))) + 1).reshape(shape + case['extra'])
    x = x.astype(case['dtype'])
    expected = x.reshape((total,) + case['extra'])[selected]
    missing = case['missing']
    for obj, full in (ins, False), (acq, True):
        kw = {}
        if full and case['use'] == 'out':
            kw['out'] = np.zeros((ndet,) + case['extra'], case['dtype'])
        elif full and case['use'] == 'copy':
            kw['copy'] = True
        packed = obj.pack(x, **kw)
        require(
            packed.shape == expected.shape
            and packed.dtype == x.dtype
            and np.array_equal(packed, expected),
            lambda: f'pack: {packed} instead of {expected}',
        )
        if 'out' in kw:
            require(
                np.array_equal(kw['out'], expected),
                lambda: f'pack with a buffer: {kw["out"]} instead of {expected}',
            )
        if 'copy' in kw:
            require(not np.shares_memory(packed, x), 'pack(copy=True) is a view')
        kw = {}
        if full and case['use'] == 'out':
            kw['out'] = np.full(x.shape, 99, case['dtype'])
        elif full and case['use'] == 'copy':
            kw['copy'] = True
        if full and missing is not None:
            kw['missing_value'] = missing
        data = expected.copy()
        unpacked = obj.unpack(data, **kw)
        require(
            unpacked.shape == x.shape and unpacked.dtype == x.dtype,
            lambda: f'unpack: {unpacked.shape} {unpacked.dtype}',
        )
        require(
            np.array_equal(unpacked[keep], x[keep]),
            lambda: f'unpack: {unpacked} instead of {x}',
        )
        rest = unpacked[~keep]
        if full and missing is not None:
            require(np.all(rest == missing), lambda: f'missing values: {rest}')
        elif case['dtype'] == 'i4':
            require(np.all(rest == -1), lambda: f'missing values: {rest}')
        else:
            require(np.all(np.isnan(rest)), lambda: f'missing values: {rest}')
        if 'out' in kw:
            require(
                np.array_equal(kw['out'], unpacked, equal_nan=case['dtype'] != 'i4'),
                lambda: f'unpack with a buffer: {kw["out"]} instead of {unpacked}',
            )
        if 'copy' in kw:
            require(not np.shares_memory(unpacked, data), 'unpack(copy=True) is a view')
    # iteration and splitting
    index = [list(np.ravel(_.detector.index)) for _ in ins]
    require(index == [[i] for i in selected], lambda: f'iteration: {index}')
    parts = ins.split(case['n'])
    require(len(parts) == case['n'], lambda: f'{len(parts)} parts')
    sizes = [len(_) for _ in parts]
    require(max(sizes) - min(sizes) <= 1, lambda: f'unbalanced parts: {sizes}')
    index = np.concatenate([_.detector.index for _ in parts])
    require(np.array_equal(index, selected), lambda: f'the parts contain {index}')
    for part in parts:
        require(
            type(part) is type(ins)
            and part.name == 'name'
            and np.array_equal(part.detector.value, part.detector.index * 1.5),
            'the parts do not have the attributes of the instrument',
        )
    if case['sel'] is not None:
        key, idx = case['sel']
        child = ins[key]
        require(
            np.array_equal(np.ravel(child.detector.index), selected[idx]),
            lambda: f'selection {key}: {child.detector.index}',
        )
        require(
            np.array_equal(np.ravel(child.detector.value), selected[idx] * 1.5),
            lambda: f'selection {key}: {child.detector.value}',
        )
        require(len(ins) == ndet, 'the selection modifies the instrument')


@st.composite
def policies(draw):
    flags = draw(
        st.lists(
            st.text('abcdefgh', min_size=1, max_size=4), min_size=1, max_size=5, unique=True
        )
    )
    values = [draw(st.sampled_from(['keep', 'mask', 'remove'])) for _ in flags]

    def decorate(s):
        s = draw(st.sampled_from([s, s.upper(), s.capitalize()])) if s in values else s
        return draw(st.sampled_from(['', ' '])) + s + draw(st.sampled_from(['', ' ']))

    return {
        'flags': flags,
        'values': values,
        'dflags': [draw(st.sampled_from(['', ' '])) + f for f in flags],
        'dvalues': [decorate(v) for v in values],
        'form': draw(st.sampled_from(['list', 'tuple', 'str'])),
        'description': draw(st.sampled_from([None, 'policy'])),
        'bad': draw(st.sampled_from([None, None, 'count', 'value', 'underscore'])),
        'dtype': draw(st.sampled_from([None, 'i1', 'f8'])),
    }


@sub(policies, quick=120, thorough=3000, nontrivial=lambda c: len(c['flags']) > 1)
def mask_policy(case):
    """Conversion of mask policies and refusal of the invalid ones."""
    from pysimulators import MaskPolicy

    flags, values = list(case['dflags']), list(case['dvalues'])
    error = None
    if case['bad'] == 'count':
        values.append('keep')
        error = ValueError
    elif case['bad'] == 'value':
        values[-1] = 'discard'
        error = KeyError
    elif case['bad'] == 'underscore':
        flags[-1] = '_flag'
        error = ValueError
    if case['form'] == 'str':
        flags, values = ','.join(flags), ','.join(values)
    elif case['form'] == 'tuple':
        flags, values = tuple(flags), tuple(values)
    try:
        policy = MaskPolicy(flags, values, case['description'])
    except (KeyError, ValueError) as exc:
        require(
            error is not None and isinstance(exc, error),
            lambda: f'{flags} {values} is refused: {exc!r}',
        )
        return
    require(error is None, lambda: f'{flags} {values} is accepted')
    code = {'keep': 0, 'mask': 1, 'remove': 2}
    expected = [code[_] for _ in case['values']]
    actual = np.array(policy) if case['dtype'] is None else np.array(policy, case['dtype'])
    require(
        actual.dtype == (case['dtype'] or int) and actual.tolist() == expected,
        lambda: f'{actual!r} instead of {expected}',
    )
    for flag, value in zip(case['flags'], case['values']):
        require(
            getattr(policy, flag) == value,
            lambda: f'the policy of {flag} is {getattr(policy, flag)}',
        )
    try:
        copied = np.array(policy, copy=True)
    except TypeError as exc:
        fail(f'the policy cannot be copied to an array: {exc}')
    require(copied.tolist() == expected, 'copied policy')

"""C26: the observations in the MADMAP1 format."""

import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, require, sub

F = 'src/pysimulators/interfaces/madmap1.py'
PROPERTY = dict(
    title='The MADMAP1 observations are read as they are written',
    statement=(
        'For any MADMAP1 files (little or big endian, any number of blocks, detectors, '
        'correlations and pixels per sample, any map mask and missing value), the '
        'observation returns the TOD and filters that they contain, its projection and '
        'inverse noise operators are the block matrices that they describe and their '
        'adjoints, and its blocks and headers agree with them. Files whose size, number of '
        'pixels or filters are not compatible are refused, and no file is modified.'
    ),
    over=['inputs', 'configurations'],
    text='every content, layout, endianness, mask and name of the files',
    why=(
        'The only test compares the result of a map-making on one data set and is '
        'expected to fail; a single number of blocks and pixels per sample is used.'
    ),
    files=[F],
    mechanism=[
        ('MadMap1Observation.__init__', F),
        ('MadMap1Observation._read_tod_pmatrix', F),
        ('MadMap1Observation.get_invntt_operator, get_projection_operator', F),
        ('_read_filters', F),
    ],
)
RULE = (
    'A case is a set of MADMAP1 files; it is non-trivial when the pointing matrix has an '
    'element and there are several blocks or detectors.'
)
ASSUMPTIONS = [
    'the unset elements (index -1) of a sample come last and the correlation length is '
    'less than the number of samples of the blocks',
]


@st.composite
def files(draw):
    nblocks = draw(st.sampled_from([1, 2, 2, 3, 6]))
    ndet = draw(st.integers(1, 3))
    ns = draw(st.lists(st.sampled_from([3, 4, 5, 6, 7] * 3 + [40]), min_size=nblocks, max_size=nblocks))
    if draw(st.booleans()):
        ns = [ns[0]] * nblocks
    ncorr = draw(st.integers(0, 2))
    npps = draw(st.integers(1, 3))
    shape = draw(st.sampled_from([(4, 5), (7,), (1, 3), (2, 2, 2)] * 3 + [(40, 9)]))
    r = gen.rng(draw(gen.seeds()))
    missing = draw(st.sampled_from([None, np.nan, np.inf, -np.inf, 3.0, 0.0]))
    values = [0.0, 0.0, 1.0, -2.0, 3.0, np.nan, np.inf, -np.inf]
    mask = r.choice(values, shape)
    # at least a pixel is kept
    mask.flat[-1] = 0.0 if missing is None or missing != 0 else 1.0
    bad = masked(mask, missing)
    npix = int(np.sum(~bad))
    n = sum(ns)
    index = r.integers(0, npix, (ndet, n, npps))
    nset = r.integers(0, npps + 1, (ndet, n, 1))
    index[np.arange(npps) >= nset] = -1
    value = r.uniform(-1, 1, index.shape).astype('f4')
    value[index < 0] = draw(st.sampled_from([0, 1]))
    return {
        'ns': ns,
        'ndet': ndet,
        'first': draw(st.sampled_from([0, 0, 1, 1000])),
        'filters': r.uniform(-1, 1, (nblocks, ndet, ncorr + 1)),
        'mask': mask.astype(draw(st.sampled_from(['f8', 'f4']))),
        'missing': missing,
        'index': index,
        'value': value,
        'tod': r.uniform(-1, 1, (ndet, n)),
        'endian': draw(st.sampled_from('<>')),
        'ext': draw(st.sampled_from([None, None, 'mask', 'COVERAGE2'])),
        'dir': draw(st.sampled_from(['d', 'a+b', 'a(b)', 'x.y', 'with space', '1[a]'])),
        'base': draw(st.sampled_from(['inv', 'inv', 'inv.ntt', 'i+n', '0'])),
        'path': draw(st.booleans()),
    }


def masked(mask, missing):
    if missing is None:
        return mask != 0
    if np.isnan(missing):
        return np.isnan(mask)
    if np.isinf(missing):
        return np.isinf(mask)
    return mask == missing


def write(case, d):
    """Write the files and return the arguments of the observation."""
    from astropy.io import fits

    d = os.path.join(d, case['dir'])
    os.mkdir(d)
    e = case['endian']
    npix = int(np.sum(~masked(case['mask'], case['missing'])))
    first = case['first']
    k = 0
    for n, filters in zip(case['ns'], case['filters']):
        for f in filters:
            with open(os.path.join(d, f'{case["base"]}.{k}'), 'wb') as h:
                h.write(np.array([first, first + n - 1, f.size - 1], e + 'i8').tobytes())
                h.write(f.astype(e + 'f8').tobytes())
            k += 1
        first += n
    # other files of the folder are not filters
    for name in '{}.0.bak', '{}_.0', '{}.x', 'x{}.0', '{}':
        with open(os.path.join(d, name.format(case['base'])), 'wb') as h:
            h.write(b'0')

    maskfile = os.path.join(d, 'mask.fits')
    if case['ext'] is None:
        hdus = [fits.PrimaryHDU(case['mask'])]
    else:
        hdus = [
            fits.PrimaryHDU(),
            fits.ImageHDU(np.ones((2, 2)), name='other'),
            fits.ImageHDU(case['mask'], name=case['ext']),
        ]
    fits.HDUList(hdus).writeto(maskfile)
    if case['ext'] is not None:
        maskfile += f'[{case["ext"]}]'

    npps = case['index'].shape[-1]
    n = sum(case['ns'])
    todfile = os.path.join(d, 'tod')
    dtype = [('t', e + 'f8'), ('m', [('v', e + 'f4'), ('i', e + 'i4')], (npps,))]
    with open(todfile, 'wb') as h:
        header = [case['first'], case['first'] + n - 1, npps, npix]
        h.write(np.array(header, e + 'i8').tobytes())
        stop = np.cumsum(case['ns'])
        for s in (slice(b - m, b) for m, b in zip(case['ns'], stop)):
            data = np.zeros((case['ndet'], s.stop - s.start), dtype)
            data['t'] = case['tod'][:, s]
            data['m']['v'] = case['value'][:, s]
            data['m']['i'] = case['index'][:, s]
            h.write(data.tobytes())
    base = os.path.join(d, case['base'])
    if case['path']:
        base = pathlib.Path(base)
        todfile = pathlib.Path(todfile)
    return todfile, base, maskfile


def observe(case, args):
    from pysimulators.interfaces.madmap1 import MadMap1Observation

    return MadMap1Observation(
        'instrument',
        case['ndet'],
        *args,
        bigendian=case['endian'] == '>',
        missing_value=case['missing'],
    )


def content(d):
    return {str(p): p.read_bytes() for p in pathlib.Path(d).rglob('*') if p.is_file()}


def dense(case):
    npix = int(np.sum(~masked(case['mask'], case['missing'])))
    P = np.zeros(case['index'].shape[:2] + (npix,))
    A = np.zeros(P.shape)
    for i in np.ndindex(case['index'].shape):
        if case['index'][i] >= 0:
            P[i[:2] + (case['index'][i],)] += case['value'][i]
            A[i[:2] + (case['index'][i],)] += abs(case['value'][i])
    return P, A


def nontrivial(case):
    return bool(np.any(case['index'] >= 0)) and (case['ndet'] > 1 or len(case['ns']) > 1)


def close(actual, e, bound, what):
    actual = np.asarray(actual)
    require(actual.shape == e.shape, f'{what}: shape {actual.shape} instead of {e.shape}')
    require(
        np.all(abs(actual - e) <= 1e-13 * bound + 1e-300),
        lambda: f'{what}: {actual.tolist()} instead of {e.tolist()}',
    )


@sub(files, quick=400, thorough=8000, nontrivial=nontrivial)
def observations(case):
    """TOD, projection, filters and information against the contents of the files."""
    from pysimulators import Map, Tod

    r = gen.rng(0)
    with tempfile.TemporaryDirectory() as d:
        args = write(case, d)
        before = content(d)
        obs = observe(case, args)
        bad = masked(case['mask'], case['missing'])
        npix = int(np.sum(~bad))
        n = sum(case['ns'])
        require(np.array_equal(obs.info.mapmask, bad), 'map mask')
        require(obs.info.npixels_in_map == npix, 'number of pixels')
        require(obs.info.npixels_per_sample == case['index'].shape[-1], 'elements per sample')
        require(len(obs.instrument) == case['ndet'], 'number of detectors')
        require(list(obs.block.n) == case['ns'], 'number of samples of the blocks')
        stop = np.cumsum(case['ns'])
        require(list(obs.block.stop) == list(stop), 'end of the blocks')
        require(list(obs.block.start) == list(stop - case['ns']), 'start of the blocks')
        require(len(obs.pointing) == n and not np.any(obs.pointing.removed), 'pointing')
        for unit in None, 'Jy':
            tod = obs.get_tod() if unit is None else obs.get_tod(unit)
            require(type(tod) is Tod, 'type of the TOD')
            require(np.array_equal(tod, case['tod']), 'values of the TOD')
            require(tod.unit == (unit or ''), lambda: f'unit {tod.unit!r}')
        require(
            np.array_equal(obs.get_filter_uncorrelated(), case['filters']), 'filters'
        )
        header = obs.get_map_header()
        require(header['NAXIS'] == 1 and header['NAXIS1'] == npix, 'map header')

        M, A = dense(case)
        P = obs.get_projection_operator()
        for op in P, obs.get_operator(), obs.get_operator(aslist=True)[0]:
            x = r.uniform(-1, 1, npix)
            y = op(x)
            require(type(y) is Tod, lambda: f'projection on a {type(y).__name__}')
            close(y, M @ x, A.sum(axis=-1), 'projection')
            t = r.uniform(-1, 1, (case['ndet'], n))
            m = op.T(t)
            require(type(m) is Map, lambda: f'back projection on a {type(m).__name__}')
            close(m, np.tensordot(t, M, 2), A.sum(axis=(0, 1)), 'back projection')
        require(content(d) == before, 'the files are modified')


@sub(files, quick=300, thorough=6000, nontrivial=nontrivial)
def noise(case):
    """Inverse noise operator against the block matrix of the filters."""
    with tempfile.TemporaryDirectory() as d:
        obs = observe(case, write(case, d))
        N = obs.get_invntt_operator(fftw_flag='FFTW_ESTIMATE', nthreads=1)
        n = sum(case['ns'])
        x = gen.rng(1).uniform(-1, 1, (case['ndet'], n))
        expected = np.zeros(x.shape)
        start = 0
        for m, filters in zip(case['ns'], case['filters']):
            s = slice(start, start + m)
            i = abs(np.arange(m)[:, None] - np.arange(m))
            for j, f in enumerate(filters):
                row = np.zeros(m)
                row[: f.size] = f
                expected[j, s] = row[i] @ x[j, s]
            start += m
        bound = 100 * np.abs(case['filters']).max()
        close(N(x), expected, bound, 'inverse noise')
        close(N.T(x), expected, bound, 'transposed inverse noise')


@st.composite
def wrong_cases(draw):
    case = draw(files())
    case['fault'] = draw(
        st.sampled_from(
            ['short', 'long', 'byte', 'pixels', 'length', 'missing', 'nofilter', 'nodata']
        )
    )
    case['pick'] = draw(st.integers(0, 100))
    return case


@sub(wrong_cases, quick=200, thorough=3000, nontrivial=nontrivial)
def refused(case):
    """Incompatible files are refused."""
    from astropy.io import fits

    with tempfile.TemporaryDirectory() as d:
        tod, base, mask = args = write(case, d)
        fault = case['fault']
        nfilters = case['filters'].shape[0] * case['ndet']
        ncorr = case['filters'].shape[-1] - 1
        chosen = f'{base}.{case["pick"] % nfilters}'
        size = os.stat(tod).st_size
        error = ValueError
        if fault == 'short':
            os.truncate(tod, size - 8)
        elif fault == 'byte':
            os.truncate(tod, size - 1 - case['pick'] % 7)
        elif fault == 'long':
            with open(tod, 'ab') as f:
                f.write(b'\0' * (8 + case['pick']))
        elif fault == 'pixels':
            with open(tod, 'r+b') as f:
                header = np.frombuffer(f.read(32), case['endian'] + 'i8').copy()
                header[3] += 1 if case['pick'] % 2 else -1
                f.seek(0)
                f.write(header.tobytes())
        elif fault == 'length':
            if nfilters == 1:
                discard()
            with open(chosen, 'r+b') as f:
                header = np.frombuffer(f.read(24), case['endian'] + 'i8').copy()
                header[2] = ncorr + 1
                f.seek(0)
                f.write(header.tobytes())
            with open(chosen, 'ab') as f:
                f.write(np.ones(1, case['endian'] + 'f8').tobytes())
        elif fault == 'missing':
            if case['ndet'] == 1:
                discard()
            os.remove(chosen)
        elif fault == 'nofilter':
            for k in range(nfilters):
                os.remove(f'{base}.{k}')
            error = OSError
        elif fault == 'nodata':
            mask = os.path.join(d, 'empty.fits')
            fits.HDUList([fits.PrimaryHDU()]).writeto(mask)
            args = tod, base, mask
            error = OSError
        try:
            obs = observe(case, args)
            obs.get_tod()
        except error:
            pass
        else:
            require(False, f'the files are accepted ({fault})')
        if fault in ('short', 'byte', 'long'):
            try:
                observe(case, args).get_projection_operator()
            except error:
                pass
            else:
                require(False, f'the projection is returned ({fault})')

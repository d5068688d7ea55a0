"""C16: noise realisations and inverse noise covariances against their power spectra."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import fail, require, sub

N = 'src/pysimulators/noises.py'
I = 'src/pysimulators/instruments.py'
PROPERTY = dict(
    title='Noise realisations and inverse noise covariances have the specified spectrum',
    statement=(
        'For any number of detectors and samples, sampling period and noise model (white '
        'noise level or NEP, 1/f knee and slope, or a tabulated one- or two-sided spectrum), '
        'the realisations of Instrument.get_noise are independent from one detector to the '
        'next and their mean periodogram is the specified spectrum, without mean for '
        'correlated noise. The operator of get_invntt_operator is the inverse noise '
        'covariance: the weights 1/sigma**2 for white noise and otherwise the band Toeplitz '
        'matrix of the inverse Fourier transform of the inverse spectrum. One- and two-sided '
        'spectra describe the same power.'
    ),
    over=['inputs', 'configurations'],
    text='every noise model, number of detectors and samples, and sampling period',
    why=(
        'The tests only check the standard deviation of a few long realisations, which does '
        'not depend on the shape of the spectrum, and no test builds the inverse covariance.'
    ),
    files=[N, I],
    mechanism=[
        ('_fold_psd, _unfold_psd, _gaussian_psd_1f, _gaussian_sample', N),
        ('_psd2invntt, _logloginterp_psd, _interp, _sampling2psd', N),
        ('Instrument.get_noise, Instrument.get_invntt_operator', I),
    ],
    technique=(
        'property-based testing: mean periodogram of generated noise models within 7 '
        'standard errors, seeded metamorphic scalings and dense reference covariances'
    ),
)
RULE = (
    'A case is a noise model, a number of detectors and of samples; it is non-trivial when '
    'there are at least 3 samples and the spectrum is not flat (or, for white noise, when '
    'the detectors have different levels).'
)


def dft(x):
    """The discrete Fourier transform along the last dimension, by definition."""
    n = x.shape[-1]
    k = np.arange(n)
    return x @ np.exp(-2j * np.pi * np.outer(k, k) / n)


def two_sided(p):
    return np.concatenate(
        [p[..., :1], p[..., 1:-1] / 2, p[..., -1:], p[..., -2:0:-1] / 2], axis=-1
    )


def one_sided(p):
    m = p.shape[-1] // 2
    return np.concatenate([p[..., :1], 2 * p[..., 1:m], p[..., m : m + 1]], axis=-1)


@st.composite
def models(draw, maxlen=24):
    n = draw(st.integers(1, maxlen))
    if draw(gen.rarely()):
        n = draw(st.sampled_from([50, 65]))
    kind = draw(st.sampled_from(['white', 'white', '1/f', '1/f', 'psd1', 'psd2']))
    r = gen.rng(draw(gen.seeds()))
    ndet = draw(st.integers(1, 4))
    model = {}
    if kind in ('white', '1/f'):
        name = draw(st.sampled_from(['sigma', 'sigma', 'nep']))
        per_detector = draw(st.booleans())
        level = r.integers(1, 9, ndet if per_detector else 1) / 4
        model[name] = level if per_detector else float(level[0])
        if kind == '1/f':
            model['fknee'] = draw(st.sampled_from([0.03, 0.2, 1.0, 3.0]))
            model['fslope'] = draw(st.sampled_from([1, 1, 0.5, 2]))
            if draw(st.integers(0, 3)) == 0:
                del model['fslope']
        elif draw(st.integers(0, 2)) == 0:
            model['fknee'] = 0
    else:
        m = draw(st.integers(4, 9))
        model['psd'] = r.integers(1, 20, m) / 4
        if draw(st.booleans()):
            # even power law, which must be interpolated and extrapolated without error
            model['psd'][1:] = np.arange(1.0, m) ** -draw(st.sampled_from([0.5, 1, 2]))
            model['psd'][-1] /= 2
            model['power_law'] = True
        elif draw(st.booleans()):
            # a spectrum for each detector
            model['psd'] = r.integers(1, 20, (ndet, m)) / 4
        if kind == 'psd2':
            model['psd'] = two_sided(model['psd'])
            model['twosided'] = True
        model['bandwidth'] = draw(st.sampled_from([0.05, 0.3, 1.0]))
    return {
        'n': n,
        'ndet': ndet,
        'kind': kind,
        'model': model,
        'period': draw(st.sampled_from([0.25, 1.0, 2.5])),
        'seed': draw(st.integers(0, 2**31)),
        'ncorr': draw(st.integers(0, n - 1)),
        'fftw_flag': draw(st.sampled_from(['FFTW_MEASURE', 'FFTW_ESTIMATE'])),
    }


def nontrivial(c):
    if c['n'] < 3:
        return False
    if c['kind'] == 'white':
        return any(np.ndim(v) and len(set(v)) > 1 for v in c['model'].values())
    return True


def level(case):
    model = case['model']
    if 'nep' in model:
        return np.asarray(model['nep']) / np.sqrt(2 * case['period'])
    return np.asarray(model['sigma'], float)


def interp_loglog(f, bandwidth, p):
    """Two-sided power at the frequencies f of the one-sided tabulated spectrum p."""
    x = np.log(np.arange(1, len(p) - 1) * bandwidth)
    y = np.log(np.asarray(p, float)[1:-1] / 2)
    out = np.empty(len(f))
    for i, v in enumerate(np.log(f)):
        k = int(np.clip(np.searchsorted(x, v), 1, len(x) - 1))
        out[i] = y[k - 1] + (y[k] - y[k - 1]) * (v - x[k - 1]) / (x[k] - x[k - 1])
    return np.exp(out)


def spectrum(case, n):
    """Two-sided power spectrum density of the model, for n samples: shape (ndet, n)."""
    model = case['model']
    fs = 1 / case['period']
    k = np.arange(n)
    f = np.minimum(k, n - k) * fs / n
    if 'psd' not in model:
        sigma = np.broadcast_to(level(case), (case['ndet'],))[:, None]
        p = np.ones(n)
        if n > 1:
            p[1:] += (model.get('fknee', 0) / f[1:]) ** model.get('fslope', 1)
        return sigma**2 * p / fs
    psd = model['psd']
    if model.get('twosided'):
        psd = one_sided(psd)
    out = np.empty((case['ndet'], n))
    for p, tabulated in zip(out, np.broadcast_to(psd, (case['ndet'], psd.shape[-1]))):
        p[0] = tabulated[0]
        p[1:] = interp_loglog(f[1:], model['bandwidth'], tabulated)
    return out


def keywords(case):
    return {
        k: v.copy() if isinstance(v, np.ndarray) else v
        for k, v in case['model'].items()
        if k != 'power_law'
    }


def close(actual, expected, what, rtol=1e-9, scale=None):
    actual, expected = np.asarray(actual), np.asarray(expected)
    require(
        actual.shape == expected.shape,
        lambda: f'{what}: shape {actual.shape} instead of {expected.shape}',
    )
    if scale is None:
        scale = np.max(np.abs(expected), initial=0.0)
    require(
        np.allclose(actual, expected, rtol=rtol, atol=rtol * scale),
        lambda: f'{what}: {actual!r} instead of {expected!r}',
    )


@sub(models, quick=250, thorough=8000, nontrivial=nontrivial)
def inverse_covariance(case):
    """get_invntt_operator against the dense matrix of the inverse spectrum."""
    from pysimulators import Instrument, PackedTable, Sampling

    n, ndet = case['n'], case['ndet']
    instrument = Instrument('test', PackedTable(ndet))
    sampling = Sampling(n, period=case['period'])
    kw = keywords(case)
    before = keywords(case)
    white = case['kind'] == 'white'
    if not white:
        kw.update(ncorr=case['ncorr'], fftw_flag=case['fftw_flag'])
    op = instrument.get_invntt_operator(sampling, **kw)
    for key, value in before.items():
        require(
            np.array_equal(kw[key], value), lambda: f'the argument {key} is modified'
        )
    require(
        op.shapein == (ndet, n) and op.shapeout == (ndet, n),
        lambda: f'shapes {op.shapein} {op.shapeout}',
    )
    expected = np.zeros((ndet, n, n))
    if white:
        sigma = np.broadcast_to(level(case), (ndet,))
        for i in range(ndet):
            expected[i] = np.eye(n) / sigma[i] ** 2
    else:
        size = 2
        while size < n:
            size *= 2
        p = np.array(spectrum(case, size))
        p[:, 0] = p[:, 1]
        row = dft(case['period'] / p).real / size
        lag = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
        for i in range(ndet):
            expected[i] = np.where(lag <= case['ncorr'], row[i][lag], 0)
    x = gen.rng(case['seed']).integers(-8, 9, (ndet, n)) / 4
    scale = np.max(np.abs(expected)) * max(1, np.max(np.abs(x))) * n
    close(
        op(x), np.einsum('dij,dj->di', expected, x), 'invntt', rtol=1e-9, scale=scale
    )
    close(
        op.T(x),
        np.einsum('dij,dj->di', expected, x),
        'transpose of invntt',
        rtol=1e-9,
        scale=scale,
    )


@sub(models, quick=200, thorough=6000, nontrivial=nontrivial)
def scaling(case):
    """Seeded metamorphic relations of get_noise: scaling, output buffer, zero mean."""
    import operator

    from pysimulators import Instrument, PackedTable, Sampling

    n, ndet = case['n'], case['ndet']
    instrument = Instrument('test', PackedTable(ndet))
    sampling = Sampling(n, period=case['period'])

    def noise(factor=1, **more):
        kw = keywords(case)
        for key in ('sigma', 'nep'):
            if key in kw:
                kw[key] = kw[key] * factor
        if 'psd' in kw:
            kw['psd'] = kw['psd'] * factor**2
        kw.update(more)
        np.random.seed(case['seed'] % 2**32)
        return instrument.get_noise(sampling, **kw)

    ref = noise()
    require(ref.shape == (ndet, n), lambda: f'noise of shape {ref.shape}')
    require(np.all(np.isfinite(ref)), lambda: f'noise is not finite: {ref}')
    rms = np.sqrt(np.max(np.sum(spectrum(case, n), axis=-1)) / n / case['period'])
    close(noise(2), 2 * ref, 'noise of doubled level', scale=rms)
    if case['kind'] != 'white':
        close(
            np.mean(ref, axis=-1), np.zeros(ndet), 'mean of correlated noise', scale=rms
        )
    out = np.full((ndet, n), 5.0)
    res = noise(out=out)
    require(res is out, 'the output buffer is not returned')
    close(out, ref, 'noise in the output buffer', scale=rms)
    out = np.full((ndet, n), 5.0)
    noise(out=out, operation=operator.iadd)
    close(out - 5, ref, 'noise added to the output buffer', scale=rms + 5)
    if 'sigma' in case['model']:
        nep = np.asarray(case['model']['sigma']) * np.sqrt(2 * case['period'])
        close(noise(sigma=None, nep=nep), ref, 'noise of the equivalent NEP', scale=rms)
    if case['kind'].startswith('psd'):
        # the same power, specified on the other side(s)
        p = keywords(case)['psd']
        if case['kind'] == 'psd2':
            res = noise(psd=one_sided(p), twosided=False)
        else:
            res = noise(psd=two_sided(p), twosided=True)
        close(res, ref, 'noise of the spectrum with the other number of sides', scale=rms)


@st.composite
def ensembles(draw):
    case = draw(models(maxlen=12))
    for k in ('sigma', 'nep'):
        if k in case['model']:
            case['model'][k] = float(np.ravel(case['model'][k])[0])
    if np.ndim(case['model'].get('psd')) == 2:
        case['model']['psd'] = case['model']['psd'][0]
    case['ndet'] = 1
    case['spread'] = draw(st.sampled_from([None, 2.0]))
    return case


@sub(
    ensembles,
    quick=60,
    thorough=1500,
    nontrivial=lambda c: c['n'] > 2 and c['kind'] != 'white',
)
def mean_periodogram(case):
    """The mean periodogram and cross-spectrum of many realisations."""
    from pysimulators import Instrument, PackedTable, Sampling

    n, ndet = case['n'], 2000
    instrument = Instrument('test', PackedTable(ndet))
    sampling = Sampling(n, period=case['period'])
    kw = keywords(case)
    weight = np.ones(ndet)
    if case['spread'] and 'psd' not in kw:
        # half of the detectors have another level
        weight[ndet // 2 :] = case['spread']
        for key in ('sigma', 'nep'):
            if key in kw:
                kw[key] = kw[key] * weight
    np.random.seed(case['seed'] % 2**32)
    x = instrument.get_noise(sampling, **kw) / weight[:, None]
    expected = np.array(spectrum(case, n)[0])
    if case['kind'] != 'white':
        expected[0] = 0
    ft = dft(x)
    power = np.abs(ft) ** 2 * case['period'] / n
    actual = np.mean(power, axis=0)
    for half in (slice(0, ndet // 2), slice(ndet // 2, ndet)):
        part = np.mean(power[half], axis=0)
        # the standard error of the mean of a chi square of one degree of freedom
        error = np.sqrt(2 / (ndet / 2)) * expected + 1e-9 * np.max(expected)
        require(
            np.all(np.abs(part - expected) <= 7 * error),
            lambda: f'mean periodogram {part} instead of {expected}',
        )
    # different frequencies and consecutive detectors are independent
    norm = ft / np.sqrt(np.where(expected > 0, expected, 1) * n / case['period'])
    norm = norm[:, expected > 0]
    cross = np.mean(norm[1:] * norm[:-1].conj(), axis=0)
    require(
        np.all(np.abs(cross) <= 8 / np.sqrt(ndet)),
        lambda: f'consecutive detectors are correlated: {cross}',
    )
    half = norm[:, : norm.shape[1] // 2]
    corr = half.T @ half.conj() / ndet
    corr[np.diag_indices_from(corr)] = 0
    require(
        np.all(np.abs(corr) <= 8 / np.sqrt(ndet)),
        lambda: f'the frequencies are correlated: {corr}',
    )


@st.composite
def spectra(draw):
    m = draw(st.sampled_from([*range(2, 13), 65]))
    r = gen.rng(draw(gen.seeds()))
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2)]))
    return {
        'p': r.integers(0, 40, shape + (m,)) / 4,
        'x': r.integers(-40, 40, 2 * (m - 1)) / 4,
        'fs': draw(st.sampled_from([0.5, 1.0, 7.0])),
        'as_list': draw(st.booleans()),
    }


@sub(spectra, quick=250, thorough=5000, nontrivial=lambda c: c['p'].shape[-1] > 2)
def sides(case):
    """Folding and unfolding are inverse of each other and preserve the power."""
    from pysimulators import noises
    from pysimulators.noises import _fold_psd, _unfold_psd

    p = case['p']
    m = p.shape[-1]
    two = _unfold_psd(p.tolist() if case['as_list'] else p)
    require(
        two.shape == p.shape[:-1] + (2 * (m - 1),), lambda: f'unfolded: {two.shape}'
    )
    close(np.sum(two, axis=-1), np.sum(p, axis=-1), 'power of the two-sided spectrum')
    index = np.arange(2 * (m - 1))
    folded_index = np.minimum(index, 2 * (m - 1) - index)
    weight = np.where((folded_index == 0) | (folded_index == m - 1), 1, 0.5)
    close(two, p[..., folded_index] * weight, 'two-sided spectrum')
    close(_fold_psd(two.tolist() if case['as_list'] else two), p, 'refolded spectrum')
    # the folding does not rely on the negative frequencies
    x, fs = case['x'], case['fs']
    n = len(x)
    if not hasattr(noises, '_sampling2psd'):
        return
    freq, psd = noises._sampling2psd(x, fs)
    power = np.abs(dft(x)) ** 2 / n / fs
    expected = np.array(_fold_psd(power))
    expected[0] = 0
    close(freq, np.arange(n // 2 + 1) * fs / n, 'frequencies')
    if n > 2:
        # for 2 samples, the Nyquist term is the only one
        close(psd, expected, 'periodogram')
        close(
            np.sum(psd) * fs / n, np.var(x), 'integral of the periodogram', scale=1e3
        )


@st.composite
def grids(draw):
    r = gen.rng(draw(gen.seeds()))
    nx = draw(st.integers(2, 7))
    nz = draw(st.integers(1, 12))
    return {
        'x': np.cumsum(r.integers(1, 5, nx)) / 2.0,
        'y': r.integers(-9, 9, draw(st.sampled_from([(), (3,)])) + (nx,)) / 1.0,
        'z': np.sort(r.integers(-4, 40, nz)) / 4.0,
        'out': draw(st.booleans()),
    }


@sub(grids, quick=200, thorough=4000, nontrivial=lambda c: len(c['x']) > 2)
def interpolation(case):
    """Piecewise linear interpolation and linear extrapolation."""
    from pysimulators import noises

    # a private helper: it may be renamed or inlined
    _interp = getattr(noises, '_interp', None)
    if _interp is None:
        return
    x, y, z = case['x'], case['y'], case['z']
    out = np.full(y.shape[:-1] + z.shape, np.nan) if case['out'] else None
    actual = _interp(z, x, y, out=out)
    if out is not None:
        require(actual is out, 'the output buffer is not returned')
    expected = np.empty(y.shape[:-1] + z.shape)
    for i, v in enumerate(z):
        k = int(np.clip(np.searchsorted(x, v), 1, len(x) - 1))
        slope = (y[..., k] - y[..., k - 1]) / (x[k] - x[k - 1])
        expected[..., i] = y[..., k - 1] + slope * (v - x[k - 1])
    close(actual, expected, 'interpolation')


@st.composite
def refusals(draw):
    return {
        'what': draw(
            st.sampled_from(['nothing', 'psd only', 'bandwidth only', 'operation'])
        ),
        'n': draw(st.integers(1, 5)),
        'ndet': draw(st.integers(1, 3)),
    }


@sub(refusals, quick=15, thorough=100)
def refused(case):
    """Incomplete noise models are refused."""
    import operator

    from pysimulators import Instrument, PackedTable, Sampling

    instrument = Instrument('test', PackedTable(case['ndet']))
    sampling = Sampling(case['n'], period=1.0)
    kw = {
        'nothing': {},
        'psd only': dict(psd=[1.0, 2, 2, 1]),
        'bandwidth only': dict(bandwidth=1.0, sigma=1.0),
        'operation': dict(sigma=1.0, operation=operator.iadd),
    }[case['what']]
    methods = [instrument.get_noise]
    if case['what'] != 'operation':
        methods.append(instrument.get_invntt_operator)
    for method in methods:
        try:
            method(sampling, **kw)
        except ValueError:
            continue
        fail(f'{method.__name__} accepts {kw}')

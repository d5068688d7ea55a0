"""Generators and the dense reference model of the fixed-sparse formats."""

import numpy as np
from hypothesis import strategies as st

from . import gen

FIELDS = {
    'plain': ['value'],
    'block': ['value'],
    'rot2d': ['r11', 'r21'],
    'rot3d': ['r11', 'r22', 'r32'],
}
FAST_I = ['i4', 'i8']
FAST_R = ['f4', 'f8']


@st.composite
def matrices(
    draw,
    formats=('fsr', 'fsc'),
    kinds=('plain', 'block', 'rot2d', 'rot3d'),
    itypes=('i4', 'i8', 'i4', 'i8', 'i4', 'i1', 'i2', 'u1', 'u2', 'u4', 'u8', '>i4'),
    rtypes=('f4', 'f8', 'f4', 'f8', 'f2', 'g', 'c16', '>f8'),
    max_n=5,
    max_ncol=3,
    min_n=1,
):
    kind = draw(st.sampled_from(kinds))
    fmt = draw(st.sampled_from(formats))
    itype = draw(st.sampled_from(itypes))
    rtype = draw(st.sampled_from(rtypes))
    if kind in ('rot2d', 'rot3d') and rtype == 'c16':
        rtype = 'f8'
    if kind == 'block' and rtype == '>f8':
        rtype = 'f8'  # refused
    if kind == 'plain':
        bs = (1, 1)
    elif kind == 'rot2d':
        bs = (2, 2)
    elif kind == 'rot3d':
        bs = (3, 3)
    else:
        bs = draw(
            st.sampled_from(
                [(a, b) for a in (1, 2, 3) for b in (1, 2, 3) if (a, b) != (1, 1)]
            )
        )
    nout = draw(st.integers(min_n, max_n))
    nin = draw(st.integers(min_n, max_n))
    nmax = draw(st.integers(0, max_ncol))
    nfix, nvar = (nout, nin) if fmt == 'fsr' else (nin, nout)
    lo = 0 if itype[0] == 'u' else -1
    large = max_n > 4 and draw(gen.rarely())
    r = gen.rng(draw(gen.seeds()))
    if large:
        nfix, nvar = draw(st.sampled_from([(70, 5), (5, 70), (65, 33), (31, 128)]))
        nout, nin = (nfix, nvar) if fmt == 'fsr' else (nvar, nfix)
        nmax = draw(st.sampled_from([1, 2, 3, 9]))
        index = r.integers(lo, nvar, (nfix, nmax))
    else:
        index = draw(
            st.lists(
                st.lists(st.integers(lo, nvar - 1), min_size=nmax, max_size=nmax),
                min_size=nfix,
                max_size=nfix,
            )
        )
    exact = draw(st.booleans())
    shapes = {
        'plain': (1, nfix, nmax),
        'block': (1, nfix, nmax) + (bs if fmt == 'fsr' else bs[::-1]),
        'rot2d': (2, nfix, nmax),
        'rot3d': (3, nfix, nmax),
    }
    if exact and large:
        values = r.integers(-12, 13, shapes[kind]) / 4
    elif exact:
        values = gen.quarter(draw, shapes[kind])
    else:
        values = r.uniform(-1, 1, shapes[kind])
        if rtype == 'c16':
            values = values + 1j * r.uniform(-1, 1, shapes[kind])
    lead = draw(st.booleans()) and kind == 'plain' and nfix % 2 == 0
    return {
        'kind': kind,
        'fmt': fmt,
        'bs': bs,
        'nout': nout,
        'nin': nin,
        'nmax': nmax,
        'itype': itype,
        'rtype': rtype,
        'index': np.array(index, int).reshape(nfix, nmax),
        'values': values,
        'lead': bool(lead),
        'exact': exact,
    }


def data_of(c):
    """The structured entry table of a case."""
    kind = c['kind']
    vals = np.asarray(c['values'])
    if c['rtype'] != 'c16':
        vals = vals.real
    dtype = [('index', np.dtype(c['itype']))]
    for name in FIELDS[kind]:
        if kind == 'block':
            dtype.append((name, np.dtype(c['rtype']), vals.shape[3:]))
        else:
            dtype.append((name, np.dtype(c['rtype'])))
    nfix = c['index'].shape[0]
    data = np.zeros((nfix, c['nmax']), dtype)
    data['index'] = c['index']
    for name, v in zip(FIELDS[kind], vals):
        data[name] = v
    if c['lead']:
        data = data.reshape((2, nfix // 2, c['nmax']))
    return data.view(np.recarray)


def classes():
    from pysimulators import sparse as m

    return {
        ('plain', 'fsr'): m.FSRMatrix,
        ('plain', 'fsc'): m.FSCMatrix,
        ('block', 'fsr'): m.FSRBlockMatrix,
        ('block', 'fsc'): m.FSCBlockMatrix,
        ('rot2d', 'fsr'): m.FSRRotation2dMatrix,
        ('rot2d', 'fsc'): m.FSCRotation2dMatrix,
        ('rot3d', 'fsr'): m.FSRRotation3dMatrix,
        ('rot3d', 'fsc'): m.FSCRotation3dMatrix,
    }


def shape_of(c):
    return c['nout'] * c['bs'][0], c['nin'] * c['bs'][1]


def build(c):
    return classes()[c['kind'], c['fmt']](shape_of(c), data=data_of(c))


def dense(c, data=None, absolute=False):
    """The dense matrix defined by the entries, in the widest precision.

    An entry k of block-row i of a FSR matrix adds its block at block position
    (i, index); the FSC matrix with the same entries is the transpose. With `absolute`,
    the magnitudes are summed: it bounds the rounding errors.
    """
    if data is None:
        data = data_of(c)
    data = np.asarray(data)
    data = data.reshape(int(np.prod(data.shape[:-1])), c['nmax'])
    wide = np.clongdouble if c['rtype'] == 'c16' else np.longdouble
    m, n = c['bs']
    if c['fmt'] == 'fsc':
        nfix, nvar, bf, bv = c['nin'], c['nout'], n, m
    else:
        nfix, nvar, bf, bv = c['nout'], c['nin'], m, n
    out = np.zeros((nfix, bf, nvar, bv), wide)
    for i in range(nfix):
        for k in range(c['nmax']):
            e = data[i, k]
            j = int(e['index'])
            if j < 0:
                continue
            if c['kind'] == 'plain':
                b = np.array([[e['value']]], wide)
            elif c['kind'] == 'block':
                b = np.array(e['value'], wide)
            elif c['kind'] == 'rot2d':
                x, y = wide(e['r11']), wide(e['r21'])
                b = np.array([[x, -y], [y, x]])
            else:
                x, y, z = wide(e['r11']), wide(e['r22']), wide(e['r32'])
                o = wide(0)
                b = np.array([[x, o, o], [o, y, -z], [o, z, y]])
            out[i, :, j, :] += abs(b) if absolute else b
    out = out.reshape(nfix * bf, nvar * bv)
    return out.T.copy() if c['fmt'] == 'fsc' else out


def tol(c, *dtypes):
    """Rounding bound for one product, relative to |M|.|v|."""
    e = gen.eps(c['rtype'], *dtypes)
    e = max(e, float(np.finfo(float).eps))
    return 4 * (c['nmax'] * max(c['bs']) * max(c['nin'], c['nout']) + 4) * e


def same(actual, expected, bound, tol, what):
    from .core import require

    actual = np.asarray(actual)
    require(
        actual.shape == np.shape(expected),
        lambda: f'{what}: shape {actual.shape} instead of {np.shape(expected)}',
    )
    d = np.abs(actual.astype(np.asarray(expected).dtype) - expected)
    ok = d <= tol * bound + np.finfo(float).tiny
    require(
        bool(np.all(ok)),
        lambda: f'{what}: got {actual.tolist()}, expected '
        f'{np.asarray(expected).astype(complex if np.iscomplexobj(expected) else float).tolist()}',
    )


def nontrivial(case):
    c = case['m']
    set_ = (c['index'] >= 0).astype(bool)
    v = np.abs(np.asarray(c['values']))
    if not set_.size:
        return False
    v = v.reshape(v.shape[0], *set_.shape, -1).max(axis=(0, 3))
    return bool(np.any(set_ & (v > 0)))


def vector(draw, size, exact, vtype, shape=None):
    kind = np.dtype(vtype).kind
    if exact or kind in 'iu':
        v = gen.quarter(draw, size)
        if kind in 'iu':
            v = v * 4
        if kind == 'c':
            v = v + 1j * gen.quarter(draw, size)
    else:
        r = gen.rng(draw(gen.seeds()))
        v = r.uniform(-1, 1, size)
        if kind == 'c':
            v = v + 1j * r.uniform(-1, 1, size)
    return np.asarray(v).astype(vtype)

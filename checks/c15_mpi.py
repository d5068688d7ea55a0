"""C15: tables, samplings, acquisitions and FITS files distributed over MPI processes."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import c09_packed_table as c09
from harness import gen, mpi
from harness.core import require, sub

F = 'src/pysimulators/mpiutils.py'
T = 'src/pysimulators/packedtables/core.py'
A = 'src/pysimulators/acquisitions.py'
PROPERTY = dict(
    title='Distributed tables, samplings, acquisitions and FITS files equal the serial ones',
    statement=(
        'Over any number of MPI processes, scattering a packed table or sampling gives each '
        'process its contiguous share of the components, whose unpacking, center and gathering '
        'are those of the global table, also when some processes hold fewer components or none. '
        'A distributed acquisition observes, back projects and weights as the serial one for any '
        'process grid, and detectors and observations are shared without overlap or omission. '
        'FITS headers and files written or read by several processes hold the same data and '
        'header as with a single one.'
    ),
    over=['inputs', 'configurations'],
    text='every table, sampling, acquisition, array, header and number of processes (1 to 4)',
    why=(
        'The tests run on one or two processes with sizes that divide evenly; shares of '
        'unequal or null size, orderings and files of arbitrary length are not covered.'
    ),
    files=[F, T, A, 'src/pysimulators/datatypes.py', 'src/pysimulators/packedtables/samplings.py'],
    mechanism=[
        ('PackedTable.scatter, gather, unpack', T),
        ('gather_fitsheader, scatter_fitsheader, distribute_observation', F),
        ('read_fits, write_fits', F),
        ('Acquisition.__init__, __getitem__, get_operator', A),
    ],
)
RULE = (
    'A case is an object and a number of MPI processes; it is non-trivial when it is '
    'distributed over several processes.'
)
ASSUMPTIONS = ['the Open MPI library of the sandbox, at most 4 processes']
WORKERS = 3
QUICK_BUDGET = 25
SHARDS = 2
THIS = __name__


def parallel(case):
    return case['size'] > 1


def share(n, size, rank):
    start = n // size * rank + min(rank, n % size)
    return slice(start, start + n // size + (n % size > rank))


def check(name, case):
    return mpi.run(THIS, 'rank_' + name, case, case['size'])


SIZES = st.sampled_from([2, 3, 4, 4, 3, 2, 1])


@st.composite
def table_cases(draw):
    t = draw(c09.tables().filter(lambda t: all(a[0] != 'O' for a in t['attrs'])))
    return {
        'size': draw(SIZES),
        't': t,
        'sub': draw(c09.slices(4)) if draw(st.booleans()) else None,
        'copy': draw(st.booleans()),
        'tail': draw(st.sampled_from([(), (2,), (1, 2)])),
        'missing': draw(st.sampled_from([None, -7, 0])),
        'noncontiguous': draw(st.booleans()),
    }


@sub(table_cases, quick=250, thorough=5000, nontrivial=parallel)
def table(case):
    """Scattering, unpacking and gathering a table on every process."""
    check('table', case)


def rank_table(case, comm):
    t = case['t']
    m = c09.Model(t)
    table = m.table(t)
    local = table.scatter(comm)
    s = share(len(m.index), comm.size, comm.rank)

    def same(t, index, attrs, what):
        require(
            np.array_equal(t.index, index),
            lambda: f'{what}: index {t.index.tolist()} instead of {index.tolist()}',
        )
        require(len(t) == len(index), lambda: f'{what}: length {len(t)}')
        for k, v in attrs.items():
            a = getattr(t, k)
            require(c09.equal(a, v), lambda: f'{what}: {k} is {a!r} instead of {v!r}')

    def unpacked(t, index, attrs, what):
        # the model of the whole table
        g = c09.Model(case['t'])
        g.index, g.attrs = index, attrs
        for k, v in attrs.items():
            u, e = getattr(t.all, k), g.unpacked(v, c09.missing(v.dtype))
            require(c09.equal(u, e), lambda: f'{what}: all.{k} is {u!r} instead of {e!r}')
        removed = np.ones(int(np.prod(m.shape)), bool)
        removed[index] = False
        require(
            np.array_equal(t.all.removed, removed.reshape(m.shape)),
            lambda: f'{what}: removed is {t.all.removed!r}',
        )

    lattrs = {k: v[s] for k, v in m.attrs.items()}
    lindex = m.index[s]
    same(local, lindex, lattrs, 'scattered')
    unpacked(local, m.index, m.attrs, 'scattered')
    m.same(table, 'the initial table')
    if comm.size > 1:
        # the components of the process are its own
        for k, v in lattrs.items():
            a = getattr(local, k)
            if isinstance(a, np.ndarray) and a.ndim > 0 and a.size > 0:
                saved = a.copy()
                a[...] = a.flat[0] if a.size == 1 else np.zeros((), a.dtype)
                a[...] = np.ones((), a.dtype)
                m.same(table, 'the initial table after a modification of the scattered one')
                a[...] = saved
    if case['copy']:
        local = local.copy()
        same(local, lindex, lattrs, 'copied')
    gattrs, gindex = m.attrs, m.index
    if case['sub'] is not None:
        # every process restricts its own components
        local = local[case['sub']]
        lindex = lindex[case['sub']]
        lattrs = {k: v[case['sub']] for k, v in lattrs.items()}
        shares = [
            np.arange(len(m.index))[share(len(m.index), comm.size, r)][case['sub']]
            for r in range(comm.size)
        ]
        whole = np.concatenate(shares)
        gindex = m.index[whole]
        gattrs = {k: v[whole] for k, v in m.attrs.items()}
        same(local, lindex, lattrs, 'restricted')
        unpacked(local, gindex, gattrs, 'restricted')
    # an array of the components
    n = int(np.prod(m.shape))
    x = c09.values((n,) + case['tail'], 'f8')[gindex]
    lx = c09.values((n,) + case['tail'], 'f8')[lindex]
    if case['noncontiguous']:
        lx = np.repeat(lx, 2, axis=0)[::2]
    got = local.gather(lx)
    require(c09.equal(got, x), lambda: f'gathered array {got!r} instead of {x!r}')
    g = c09.Model(t)
    g.index = gindex
    e = g.unpacked(x, np.nan if case['missing'] is None else case['missing'])
    keywords = {} if case['missing'] is None else {'missing_value': case['missing']}
    u = local.unpack(lx, **keywords)
    require(c09.equal(u, e), lambda: f'unpacked {u!r} instead of {e!r}')
    out = np.full(e.shape, 5.0)
    local.unpack(lx, out=out, **keywords)
    require(c09.equal(out, e), lambda: f'unpacked out {out!r} instead of {e!r}')
    p = local.pack(e)
    require(c09.equal(p, lx), 'packing the unpacked array')
    glob = local.gather()
    same(glob, gindex, gattrs, 'gathered')
    same(local, lindex, lattrs, 'after the gathering')
    if case['sub'] is None:
        m.same(glob, 'gathered')
    again = glob.scatter(comm)
    same(
        again,
        gindex[share(len(gindex), comm.size, comm.rank)],
        {k: v[share(len(gindex), comm.size, comm.rank)] for k, v in gattrs.items()},
        'scattered again',
    )


@st.composite
def sampling_cases(draw):
    n = draw(st.sampled_from([*range(1, 10), 50]))
    return {
        'size': draw(SIZES),
        'n': n,
        'cls': draw(st.sampled_from(['equatorial', 'horizontal'])),
        'masked': draw(st.sampled_from([None, 'array', 'array'])),
        'period': draw(st.sampled_from([None, 0.5, 2.0])),
        'seed': draw(gen.seeds()),
    }


@sub(sampling_cases, quick=100, thorough=2000, nontrivial=parallel)
def sampling(case):
    """Times, angles and center of scattered samplings."""
    check('sampling', case)


def rank_sampling(case, comm):
    from pysimulators import SamplingEquatorial, SamplingHorizontal

    r = gen.rng(case['seed'])
    n = case['n']
    keywords = {'masked': False}
    masked = np.zeros(n, bool)
    if case['masked']:
        masked = r.random(n) < 0.4
        masked[r.integers(n)] = False
        keywords['masked'] = masked
    if case['period'] is not None:
        keywords['period'] = case['period']
    lon, lat = r.uniform(0, 60, n), r.uniform(-40, 40, n)
    if case['cls'] == 'equatorial':
        ptg = SamplingEquatorial(ra=lon, dec=lat, pa=lon + lat, **keywords)
        names = 'ra', 'dec', 'pa'
    else:
        ptg = SamplingHorizontal(
            azimuth=lon, elevation=lat, pitch=lon + lat, latitude=20, longitude=10, **keywords
        )
        names = 'azimuth', 'elevation', 'pitch'
    time, center, cartesian = np.array(ptg.time), ptg.get_center(), ptg.cartesian
    s = share(n, comm.size, comm.rank)
    local = ptg.scatter(comm)
    require(len(local) == s.stop - s.start, 'invalid share')
    require(np.array_equal(local.time, time[s]), lambda: f'time {local.time} instead of {time[s]}')
    require(np.array_equal(local.time, time[s]), 'time')
    for k, v in zip(names, (lon, lat, lon + lat)):
        require(np.array_equal(getattr(local, k), v[s]), lambda: f'attribute {k}')
    require(np.all(np.asarray(local.masked) == (masked[s] if case['masked'] else False)), 'masked')
    c = local.cartesian
    require(gen.close(c, cartesian[s], 1e-14, 1), 'directions')
    got = local.get_center()
    require(
        gen.close(got, center, 1e-10, 100),
        lambda: f'center {np.asarray(got)} instead of {np.asarray(center)}',
    )
    glob = local.gather()
    require(np.array_equal(glob.time, time), 'gathered time')
    for k, v in zip(names, (lon, lat, lon + lat)):
        require(np.array_equal(getattr(glob, k), v), lambda: f'gathered {k}')
    require(gen.close(glob.get_center(), center, 1e-10, 100), 'center of the gathered')


DIFFER = ['CTYPE1', 'CTYPE2', 'CRVAL1', 'CRVAL2', 'CDELT1', 'CDELT2', 'CRPIX', 'NAXIS']


@st.composite
def header_cases(draw):
    shape = tuple(draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)))
    return {
        'size': draw(SIZES),
        'shape': shape,
        'wcs': len(shape) >= 2 and draw(st.booleans()),
        'crpix': draw(st.lists(st.integers(-20, 20), min_size=3, max_size=3)),
        'differ': draw(st.sampled_from(DIFFER)),
        'odd': draw(st.integers(0, 3)),
    }


@sub(header_cases, quick=100, thorough=1500, nontrivial=parallel)
def headers(case):
    """Local and global FITS headers are converted into each other."""
    check('headers', case)


def make_header(case):
    from astropy.io import fits

    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    naxis = case['shape'][::-1]
    h['NAXIS'] = len(naxis)
    for i, n in enumerate(naxis):
        h[f'NAXIS{i + 1}'] = n
    if case['wcs']:
        h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
        if len(naxis) == 3:
            h['CTYPE3'] = 'WAVE'
        for i in range(len(naxis)):
            h[f'CRPIX{i + 1}'] = case['crpix'][i] / 2
            h[f'CRVAL{i + 1}'] = 10.0 + i
            h[f'CDELT{i + 1}'] = 0.5
    return h


def rank_headers(case, comm):
    from pysimulators.mpiutils import (
        gather_fitsheader,
        gather_fitsheader_if_needed,
        scatter_fitsheader,
    )

    h = make_header(case)
    for key in 'NAXIS', 'NAXIS1':
        bad = h.copy()
        del bad[key]
        for func in gather_fitsheader, gather_fitsheader_if_needed, scatter_fitsheader:
            try:
                func(bad, comm)
            except KeyError:
                pass
            else:
                require(False, f'{func.__name__}: a header without {key} is accepted')
    ref = h.copy()
    n = case['shape'][0]
    s = share(n, comm.size, comm.rank)
    local = scatter_fitsheader(h, comm)
    last = len(case['shape'])
    e = ref.copy()
    e[f'NAXIS{last}'] = s.stop - s.start
    if case['wcs']:
        e[f'CRPIX{last}'] = ref[f'CRPIX{last}'] - s.start
    require(dict(local) == dict(e), lambda: f'local header {local!r} instead of {e!r}')
    require(dict(h) == dict(ref), 'the global header has been modified')
    g = gather_fitsheader(local, comm)
    require(dict(g) == dict(ref), lambda: f'gathered header {g!r} instead of {ref!r}')
    require(dict(local) == dict(e), 'the local header has been modified')
    if case['wcs']:
        g = gather_fitsheader_if_needed(local, comm)
        require(dict(g) == dict(ref), lambda: f'gathered {g!r} instead of {ref!r}')
        g = gather_fitsheader_if_needed(ref, comm)
        require(dict(g) == dict(ref), lambda: f'global header modified: {g!r}')
        if comm.size == 1:
            return
        # a process has a header that the others cannot be combined with
        key = case['differ']
        if not key[-1].isdigit():
            key += '1'
        other = local.copy()
        if comm.rank == case['odd'] % comm.size:
            value = other[key]
            other[key] = 'GLON-TAN' if isinstance(value, str) else value + 1
        try:
            g = gather_fitsheader_if_needed(other, comm)
        except ValueError:
            pass
        else:
            require(False, f'headers whose {key} differ are combined into {g!r}')


DTYPES = ['f8', 'f4', 'i4', 'i2', 'i8', 'u1', '>f8', '>i4', 'u2', 'u4', 'i1']


@st.composite
def file_cases(draw):
    shape = tuple(draw(st.lists(st.integers(1, 7), min_size=1, max_size=3)))
    if draw(st.booleans()):
        # sizes close to the blocks of 2880 bytes
        shape = (draw(st.sampled_from([359, 360, 361, 720, 90, 45, 1440])),) + shape[1:2]
    return {
        'size': draw(SIZES),
        'shape': shape,
        'dtype': draw(st.sampled_from(DTYPES)),
        'wcs': len(shape) >= 2 and draw(st.booleans()),
        'crpix': draw(st.lists(st.integers(-20, 20), min_size=3, max_size=3)),
        'header': draw(st.booleans()),
        'cls': draw(st.sampled_from(['raw', 'FitsArray', 'Map', 'Tod'])),
        'extra': draw(st.booleans()),
        'stale': draw(st.sampled_from([None, None, 'BITPIX', 'BZERO'])),
        'empty': draw(st.integers(0, 3)),
        'path': draw(st.booleans()),
        'noncontiguous': draw(st.booleans()),
    }


@sub(file_cases, quick=150, thorough=2500, nontrivial=parallel)
def files(case):
    """A file written collectively is the one a single process writes; so is its reading."""
    with tempfile.TemporaryDirectory() as d:
        check('files', dict(case, dir=d))


def rank_files(case, comm):
    from pathlib import Path

    from astropy.io import fits

    from pysimulators import FitsArray, Map, Tod
    from pysimulators.mpiutils import read_fits, write_fits

    shape, dtype = case['shape'], np.dtype(case['dtype'])
    x = (np.arange(np.prod(shape)) % 117).reshape(shape).astype(dtype)
    if dtype.kind == 'u':
        # large unsigned values, that are not those of a signed integer
        x = (np.iinfo(dtype).max - x).astype(dtype)
    s = share(shape[0], comm.size, comm.rank)
    name = os.path.join(case['dir'], 'a.fits')
    arg = Path(name) if case['path'] else name
    local = x[s]
    if case['noncontiguous']:
        local = np.repeat(local, 2, axis=0)[::2]
    cls = case['cls']
    header = None
    if case['header'] and cls == 'raw':
        header = make_header(case)
        header['BITPIX'] = {'f': -8}.get(dtype.kind, 8) * dtype.itemsize
        header['FOO'] = 'bar'
        if case['stale']:
            # the header is that of an array of another type
            header['BITPIX'] = -64 if dtype.itemsize < 8 else 16
        if case['stale'] == 'BZERO':
            header['BSCALE'], header['BZERO'] = 2.0, 32768
        header[f'NAXIS{len(shape)}'] = s.stop - s.start
    aux = None
    if cls == 'raw':
        write_fits(arg, local, header, False, None, comm)
        if case['extra']:
            write_fits(arg, local + local, None, True, 'Second', comm)
    else:
        keywords = {'dtype': dtype.newbyteorder('=')}
        if case['extra'] and cls == 'Map':
            aux = 'coverage'
            keywords[aux] = local.astype(float) * 2
        elif case['extra'] and cls == 'Tod':
            aux = 'mask'
            keywords[aux] = (local.astype(int) % 2).astype(bool)
        obj = {'FitsArray': FitsArray, 'Map': Map, 'Tod': Tod}[cls](local, **keywords)
        before = np.array(obj)
        obj.save(arg, comm=comm)
        require(np.array_equal(obj, before) and obj.dtype == before.dtype, 'saved data modified')
    comm.Barrier()
    with fits.open(name) as hdus:
        hdus.verify('exception')
        h, d = hdus[0].header, hdus[0].data
        require(d.shape == shape, lambda: f'shape {d.shape} in the file instead of {shape}')
        native = np.dtype(dtype).newbyteorder('=')
        require(
            d.dtype.newbyteorder('=') == native, lambda: f'type {d.dtype} in the file, not {native}'
        )
        require(np.array_equal(d, x), lambda: f'the file contains {d.tolist()}')
        if header is not None:
            require(h['FOO'] == 'bar', 'header keyword lost')
        if cls == 'raw' and case['extra']:
            require(np.array_equal(hdus['Second'].data, x + x), 'invalid extension')
        require(os.path.getsize(name) % 2880 == 0, 'invalid file size')
    with open(name, 'rb') as f:
        magic = f.read(10)
    require(magic == b'SIMPLE  = ', lambda: f'the file starts with {magic}')
    comm.Barrier()
    if case['empty']:
        # the first HDU with data is not the first one, or there isn't any
        other = os.path.join(case['dir'], 'b.fits')
        if comm.rank == 0:
            hdus = [fits.PrimaryHDU()] + [fits.ImageHDU() for _ in range(case['empty'] - 1)]
            fits.HDUList(hdus).writeto(other)
        comm.Barrier()
        try:
            read_fits(other, None, comm)
        except OSError:
            pass
        else:
            require(False, 'a file without data is read')
        comm.Barrier()
        if comm.rank == 0:
            hdus += [fits.ImageHDU(x, name='first'), fits.ImageHDU(1 - x, name='second')]
            fits.HDUList(hdus).writeto(other, overwrite=True)
        comm.Barrier()
        for extname, e in (None, x), ('first', x), ('second', 1 - x):
            y, h = read_fits(other, extname, comm)
            require(
                np.array_equal(y, e[s]), lambda: f'read {y!r} from {extname}, not {e[s]!r}'
            )
    y, h = read_fits(arg, None, comm)
    require(y.dtype.isnative, 'not native')
    require(
        y.shape == x[s].shape and np.array_equal(y, x[s]), lambda: f'read {y!r}, not {x[s]!r}'
    )
    require(h[f'NAXIS{len(shape)}'] == s.stop - s.start, 'invalid local header')
    if header is not None and case['wcs']:
        e = header[f'CRPIX{len(shape)}'] - s.start
        require(h[f'CRPIX{len(shape)}'] == e, 'invalid reference pixel of the local header')
        for i in range(1, len(shape)):
            require(h[f'CRPIX{i}'] == header[f'CRPIX{i}'], 'reference pixel of other axes')
    if cls != 'raw':
        c = {'FitsArray': FitsArray, 'Map': Map, 'Tod': Tod}[cls]
        obj = c(name, comm=comm)
        require(type(obj) is c and np.array_equal(obj, x[s]), lambda: f'object read: {obj!r}')
        if aux == 'coverage':
            require(np.array_equal(obj.coverage, x[s].astype(float) * 2), 'invalid coverage')
        elif aux == 'mask':
            e = (x[s].astype(int) % 2).astype(bool)
            require(np.array_equal(np.asarray(obj.mask, bool), e), 'invalid mask')


@st.composite
def acquisition_cases(draw):
    size = draw(SIZES)
    shape = draw(st.sampled_from([(1,), (2,), (5,), (2, 2), (3, 2), (4,)]))
    ndet = int(np.prod(shape))
    return {
        'size': size,
        'shape': shape,
        'removed': draw(st.lists(st.booleans(), min_size=ndet, max_size=ndet)),
        'n': draw(st.sampled_from([*range(1, 12), 60])),
        'npixel': draw(st.sampled_from([*range(1, 7), 40])),
        'nprocs': draw(st.sampled_from([_ for _ in range(1, size + 1) if size % _ == 0])),
        'how': draw(st.sampled_from(['instrument', 'sampling', 'both'])),
        'det': draw(st.sampled_from([None, None, 0, slice(None, 1)])),
        'seed': draw(gen.seeds()),
    }


@sub(acquisition_cases, quick=120, thorough=2500, nontrivial=parallel)
def acquisition(case):
    """Observation, transpose and weights of a distributed acquisition."""
    check('acquisition', case)


def rank_acquisition(case, comm):
    from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import FSRMatrix
    from pyoperators import MPI

    r = gen.rng(case['seed'])
    shape, n, npix = case['shape'], case['n'], case['npixel']
    ndet = int(np.prod(shape))
    index = r.integers(0, npix, (ndet, n))
    value = r.uniform(0.5, 2, (ndet, n))
    sigma = r.uniform(0.5, 2, ndet)

    class MyInstrument(Instrument):
        def get_operator(self, sampling, scene):
            data = np.recarray(
                (len(self), len(sampling), 1), dtype=[('index', int), ('value', float)]
            )
            for i, d in enumerate(self.detector.index):
                for j, t in enumerate(sampling.index):
                    data[i, j, 0] = index[d, t], value[d, t]
            matrix = FSRMatrix((len(self) * len(sampling), npix), data=data.reshape((-1, 1)))
            return ProjectionOperator(
                matrix, dtype=float, shapein=(npix,), shapeout=(len(self), len(sampling))
            )

        def get_invntt_operator(self, sampling):
            from pyoperators import DiagonalOperator

            return DiagonalOperator(
                1 / self.detector.sigma**2, broadcast='rightward',
                shapein=(len(self), len(sampling)),
            )

    selection = ~np.array(case['removed']).reshape(shape)
    kept = np.arange(ndet)[selection.ravel()]
    instrument = MyInstrument(
        'i', PackedTable(shape, selection=selection, sigma=sigma.reshape(shape))
    )
    size = comm.size
    if case['how'] == 'instrument':
        keywords = {'nprocs_instrument': case['nprocs']}
    elif case['how'] == 'sampling':
        keywords = {'nprocs_sampling': size // case['nprocs']}
    else:
        keywords = {
            'nprocs_instrument': case['nprocs'],
            'nprocs_sampling': size // case['nprocs'],
        }
    ni, ns = case['nprocs'], size // case['nprocs']
    if len(kept) < ni or n < ns:
        # operators of no detector or sample are not supported by pyoperators
        return
    acq = Acquisition(instrument, Sampling(n, period=1.0), Scene(npix), comm=comm, **keywords)
    require(acq.comm.size == size, 'invalid communicator')
    require(acq.instrument.comm.size == ni and acq.sampling.comm.size == ns, 'invalid grid')
    irank, srank = acq.instrument.comm.rank, acq.sampling.comm.rank
    dets = kept[share(len(kept), ni, irank)]
    times = np.arange(n)[share(n, ns, srank)]
    require(np.array_equal(acq.instrument.detector.index, dets), 'invalid detectors')
    require(np.array_equal(acq.sampling.index, times), 'invalid samples')
    pairs = comm.allgather([(int(d), int(t)) for d in dets for t in times])
    allpairs = sorted(p for _ in pairs for p in _)
    require(
        allpairs == [(int(d), t) for d in kept for t in range(n)],
        lambda: f'the process grid covers {allpairs}',
    )
    sky = r.uniform(-1, 1, npix)
    H = acq.get_operator()
    tod = H(sky)
    e = value[np.ix_(dets, times)] * sky[index[np.ix_(dets, times)]]
    require(gen.close(tod, e, 1e-14, 2), lambda: f'observation {tod} instead of {e}')
    y = r.uniform(-1, 1, (ndet, n))
    back = H.T(y[np.ix_(dets, times)])
    e = np.zeros(npix)
    w = np.zeros(npix)
    for d in kept:
        np.add.at(e, index[d], value[d] * y[d])
        np.add.at(w, index[d], value[d] ** 2 / sigma[d] ** 2)
    require(gen.close(back, e, 1e-13, 20), lambda: f'back projection {back} instead of {e}')
    N = acq.get_invntt_operator()
    hit = H.T(N(H(np.ones(npix))))
    require(gen.close(hit, w, 1e-13, 100), lambda: f'weights {hit} instead of {w}')
    if len(kept) // ni > 1 and npix > 1:
        # pyoperators moves the scalar operators across those that are distributed,
        # which is invalid when the scalars depend on the process
        hit = (H.T * N * H)(np.ones(npix))
    require(gen.close(hit, w, 1e-13, 100), lambda: f'weights {hit} instead of {w}')
    # gathering of the observation
    whole = acq.instrument.detector.gather(tod)
    require(
        gen.close(
            whole,
            value[np.ix_(kept, times)] * sky[index[np.ix_(kept, times)]],
            1e-14,
            2,
        ),
        'gathered observation',
    )
    u = acq.unpack(tod)
    require(u.shape == shape + (len(times),), 'shape of the unpacked observation')
    require(
        gen.close(u[selection], whole, 0, 1), 'unpacked observation'
    )
    if case['det'] is not None:
        sub_ = acq[case['det']]
        require(sub_.instrument.comm.size == 1, 'communicator of the restricted instrument')
        require(sub_.comm.size == ns, 'communicator of the restricted acquisition')
        out = sub_.get_operator()(sky)
        d = dets[:1]
        e = value[np.ix_(d, times)] * sky[index[np.ix_(d, times)]]
        require(gen.close(out, e, 1e-14, 2), 'restricted observation')
        require(
            acq.instrument.comm.size == ni and acq.sampling.comm.size == ns,
            'the restriction changes the communicators of the acquisition',
        )
        require(gen.close(acq.get_operator()(sky), tod, 1e-14, 2), 'after the restriction')


@st.composite
def share_cases(draw):
    ndim = draw(st.integers(1, 2))
    shape = tuple(draw(st.lists(st.integers(1, 7), min_size=ndim, max_size=ndim)))
    n = int(np.prod(shape))
    return {
        'size': draw(st.integers(1, 40)),
        'detectors': np.array(draw(st.lists(st.booleans(), min_size=n, max_size=n))).reshape(shape),
        'observations': draw(st.integers(1, 7)),
        'nthreads': draw(st.sampled_from([1, 2, 3, 8])),
        'fortran': draw(st.booleans()),
    }


@sub(
    share_cases, quick=300, thorough=20000,
    nontrivial=lambda c: c['size'] > 1 and (~c['detectors']).sum() > 1,
)
def distribution(case):
    """Detectors and observations are shared without overlap or omission."""
    import pysimulators.mpiutils as mu

    det = case['detectors'].copy(order='F' if case['fortran'] else 'C')
    if det.all():
        return
    obs = [f'obs{i}' for i in range(case['observations'])]

    class Comm:
        size = case['size']

    hits = np.zeros(det.shape + (len(obs),), int)
    old = mu.omp_num_threads
    mu.omp_num_threads = lambda: case['nthreads']
    try:
        for rank in range(case['size']):
            before = det.copy()
            d, o = mu.distribute_observation(det, obs, rank=rank, comm=Comm())
            require(np.array_equal(det, before), 'the detector mask has been modified')
            require(d.shape == det.shape and d.dtype == bool, 'invalid detector mask')
            for name in o:
                hits[..., obs.index(name)] += ~d
    finally:
        mu.omp_num_threads = old
    e = np.broadcast_to((~det)[..., None], hits.shape)
    require(np.array_equal(hits, e), lambda: f'times each pair is processed: {hits.tolist()}')

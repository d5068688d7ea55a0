"""C12: samplings against a model made of lists of samples."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import discard, fail, require, sub
from checks.c06_coordinates import from_cartesian, to_cartesian
from checks.c09_packed_table import decode, select, selections

F = 'src/pysimulators/packedtables/samplings.py'
PROPERTY = dict(
    title='Samplings keep the time, direction and sky position of every sample',
    statement=(
        'For any number of samples, period, date, angles (arrays or scalars), masked samples '
        'and chain of selections, the time of a sample is its rank in the whole sampling '
        'times the period unless it is given, and its cartesian, equatorial and galactic '
        'coordinates are those of its own angles at its own time. The center of the sampling '
        'is the direction of the mean of the unmasked directions, and angles that are '
        'missing or of incompatible shapes are refused.'
    ),
    over=['inputs', 'configurations', 'histories'],
    text='every sampling, reference frame, mask and chain of selections',
    why=(
        'The tests check the constructor and a few centers; they never look at the '
        'coordinates of a selection, whose time depends on the history.'
    ),
    files=[F, 'src/pysimulators/packedtables/core.py', 'src/pysimulators/operators.py'],
    mechanism=[
        ('Sampling, SamplingSpherical, SamplingEquatorial, SamplingHorizontal', F),
        ('PackedTable.__getitem__', 'src/pysimulators/packedtables/core.py'),
    ],
)
RULE = (
    'A case is a sampling and a chain of selections; it is non-trivial when it has several '
    'samples and is selected or masked.'
)


@st.composite
def cases(draw):
    n = draw(st.one_of(*[st.integers(1, 7)] * 9, st.sampled_from([40, 130])))
    kind = draw(st.sampled_from(['equatorial', 'horizontal', 'spherical']))
    r = gen.rng(draw(gen.seeds()))

    def angle(lo, hi):
        if draw(st.integers(0, 3)) == 0:
            return float(r.integers(lo, hi))
        return r.integers(lo * 8, hi * 8, n) / 8

    first, second = angle(0, 360), angle(-88, 88)
    k, subs = n, []
    for _ in range(draw(st.integers(0, 2))):
        sel = draw(selections((k,)))
        if sel[0] == 'tuple':
            continue
        subs.append(sel)
        k = len(select(np.arange(k), sel, (k,)))
    return {
        'kind': kind,
        'n': n,
        'first': first,
        'second': second,
        'third': draw(st.sampled_from([None, 5.0, 'array'])),
        'how': draw(st.sampled_from(['positional', 'keywords', 'both'])),
        'period': draw(st.sampled_from([None, 0.5, 2, 600.0])),
        'time': draw(st.sampled_from([None, None, 'array', 'irregular'])),
        'date': draw(
            st.sampled_from([None, '2013-06-01 12:00:00', 'Time', 'ArrayTime', 'mjd'])
        ),
        'masked': draw(
            st.one_of(
                st.none(),
                st.booleans(),
                st.lists(st.booleans(), min_size=n, max_size=n)
                if n < 30
                else gen.seeds().map(lambda s: (gen.rng(s).integers(0, 3, n) == 0).tolist()),
            )
        ),
        'lat': float(r.integers(-80, 80)),
        'lon': float(r.integers(-180, 180)),
        'subs': subs,
        'as_list': draw(st.booleans()),
        'site': draw(st.sampled_from(['keywords', 'default', 'both', 'mixed'])),
    }


def nontrivial(c):
    return c['n'] > 1 and (bool(c['subs']) or c['masked'] is not None)


@sub(cases, quick=250, thorough=8000, nontrivial=nontrivial)
def sampling(case):
    """Times, coordinates and centers of samplings and of their selections."""
    from astropy.time import Time, TimeDelta

    from pysimulators import SamplingEquatorial, SamplingHorizontal
    from pysimulators.operators import (
        SphericalEquatorial2GalacticOperator,
        SphericalHorizontal2EquatorialOperator,
    )
    from pysimulators.packedtables import SamplingSpherical

    n, kind = case['n'], case['kind']
    names = {
        'equatorial': ('ra', 'dec', 'pa'),
        'horizontal': ('azimuth', 'elevation', 'pitch'),
        'spherical': ('precession', 'nutation', 'intrinsic_rotation'),
    }[kind]
    angles = [case['first'], case['second']]
    third = case['third']
    if isinstance(third, str):
        third = np.arange(n) * 3.0
    if third is not None:
        angles.append(third)
    keywords = {}
    args = ()
    if case['how'] == 'positional':
        args = tuple(angles)
    else:
        keywords.update(zip(names, angles))
        if case['how'] == 'both':
            args = (n,)
    if case['period'] is not None:
        keywords['period'] = case['period']
    time = None
    if case['time'] is not None:
        time = np.arange(n) * 3.0 + 10
        if case['time'] == 'irregular':
            time = np.cumsum(np.resize([3, 1, 4, 1, 5, 9, 2], n)).astype(float)
        keywords['time'] = time.copy()
    date = '2000-01-01'
    if case['date'] is not None:
        date = '2013-06-01 12:00:00'
        keywords['date_obs'] = {
            'Time': Time(date, scale='utc'),
            'ArrayTime': Time([date], scale='utc'),
            'mjd': Time(56444.5123, format='mjd', scale='utc'),
        }.get(case['date'], date)
    masked = case['masked']
    if masked is not None:
        keywords['masked'] = masked
    if kind == 'horizontal':
        site = case['site']
        cls = SamplingHorizontal
        if site != 'keywords':
            other = 0 if site == 'default' else 17

            class cls(SamplingHorizontal):
                DEFAULT_LATITUDE = case['lat'] + other
                DEFAULT_LONGITUDE = case['lon'] if site == 'mixed' else case['lon'] - other
        if site != 'default':
            keywords['latitude'] = case['lat']
        if site in ('keywords', 'both'):
            keywords['longitude'] = case['lon']
    elif kind == 'equatorial':
        cls = SamplingEquatorial
    else:
        cls = SamplingSpherical
        keywords['degrees'] = True
    # the number of samples is that of the arrays
    if case['how'] == 'both' or any(np.ndim(_) for _ in angles + [time]):
        size = n
    else:
        size = 1
    discard(size != n and isinstance(masked, list))
    s = cls(*args, **keywords)
    require(len(s) == size, f'{len(s)} samples instead of {size}')
    if case['period'] is not None:
        period = case['period']
    elif time is not None and n > 1:
        period = np.median(np.diff(time))
    else:
        period = 1
    require(s.period == period, lambda: f'period {s.period} instead of {period}')
    full = np.stack(np.broadcast_arrays(*angles[:2], np.empty(size))[:2], -1)
    kept = np.arange(size)
    t0 = Time([date], scale='utc')
    if case['date'] == 'mjd':
        t0 = Time([56444.5123], format='mjd', scale='utc')
    for sel in [None] + case['subs']:
        if sel is not None:
            if len(kept) != len(s):
                return
            try:
                sel_ = decode(sel, (len(kept),), case['as_list'])
                new_kept = select(kept, sel, (len(kept),))
            except Exception:
                return
            s, kept = s[sel_], new_kept
        what = f'{kind}, {kept.tolist()}'
        e = full[kept]
        require(len(s) == len(kept), f'{what}: {len(s)} samples')
        times = kept * period if time is None else time[kept]
        require(np.array_equal(s.time, times), lambda: f'{what}: time {s.time}')
        require(s.period == period, f'{what}: period {s.period}')
        require(abs((s.date_obs - t0).sec[0]) < 1e-6, f'{what}: date {s.date_obs}')
        for i in range(2):
            a = getattr(s, names[i])
            require(
                np.array_equal(np.broadcast_to(a, len(kept)), e[:, i]),
                lambda: f'{what}: {names[i]} is {a} instead of {e[:, i]}',
            )
        p = getattr(s, names[2])
        q = 0 if third is None else np.broadcast_to(third, size)[kept]
        require(np.all(np.asarray(p) == q), f'{what}: {names[2]} is {p}')
        require(
            np.shape(s.spherical) == e.shape and np.array_equal(s.spherical, e),
            lambda: f'{what}: spherical {s.spherical} instead of {e}',
        )
        if kind == 'spherical' or not len(kept):
            continue
        cart = to_cartesian(e, 'azimuth,elevation', True)
        require(gen.close(s.cartesian, cart, 1e-14), lambda: f'{what}: {s.cartesian}')
        there = s.spherical2cartesian(e)
        require(gen.close(there, cart, 1e-14), lambda: f'{what}: {e} is transformed to {there}')
        back = s.cartesian2spherical(cart)
        require(
            gen.close(to_cartesian(np.asarray(back), 'azimuth,elevation', True), cart, 1e-12),
            lambda: f'{what}: {cart} is transformed to {back} instead of {e}',
        )
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
        some = np.arange(len(e))
        if len(e) > 10:
            some = np.unique(np.linspace(0, len(e) - 1, 8).astype(int))
        equ = e[some]
        if kind == 'horizontal':
            equatorial = np.asarray(s.equatorial)
            require(equatorial.shape == e.shape, f'{what}: equatorial {equatorial.shape}')
            # each sample at its own time
            equ = np.array([
                SphericalHorizontal2EquatorialOperator(
                    'NE', t0 + TimeDelta([t], format='sec'), case['lat'], case['lon'],
                    degrees=True,
                )(x[None])[0] for t, x in zip(times[some], e[some])
            ])
            require(
                gen.close(
                    to_cartesian(equatorial[some], 'azimuth,elevation', True),
                    to_cartesian(equ, 'azimuth,elevation', True), 1e-9),
                lambda: f'{what}: equatorial {s.equatorial} instead of {equ}',
            )
        gal = np.array([e2g(x) for x in equ])
        require(np.shape(s.galactic) == e.shape, f'{what}: galactic {np.shape(s.galactic)}')
        require(
            gen.close(
                to_cartesian(np.asarray(s.galactic)[some], 'azimuth,elevation', True),
                to_cartesian(gal, 'azimuth,elevation', True), 1e-9),
            lambda: f'{what}: galactic {s.galactic} instead of {gal}',
        )
        require(np.array_equal(s.spherical, e), f'{what}: the angles are modified')
        # center
        m = np.zeros(size, bool)
        m[...] = False if masked is None else masked
        require(
            np.array_equal(np.broadcast_to(s.masked, len(kept)), m[kept]), f'{what}: masked'
        )
        valid = cart[~m[kept]]
        if not len(valid):
            try:
                s.get_center()
            except ValueError:
                continue
            fail('a center is given to masked samples')
        c = np.mean(valid, 0)
        if np.linalg.norm(c) < 0.05:
            continue
        a = np.asarray(s.get_center())
        require(a.shape == (2,), f'{what}: center {a}')
        b = to_cartesian(a, 'azimuth,elevation', True)
        require(
            gen.close(b, c / np.linalg.norm(c), 1e-12),
            lambda: f'{what}: center {a} instead of '
            f'{from_cartesian(c, "azimuth,elevation", True)}',
        )
        # the center of given coordinates does not modify them
        given = s.cartesian.copy()
        s.cartesian = given
        for _ in range(2):
            require(np.array_equal(s.get_center(), a), f'{what}: center of given coordinates')
            require(
                gen.close(s.cartesian, cart, 1e-14) and gen.close(given, cart, 1e-14),
                f'{what}: the given coordinates are modified',
            )


@st.composite
def bad_cases(draw):
    return draw(st.sampled_from(range(11))), draw(st.sampled_from(['eq', 'ho']))


@sub(bad_cases, quick=40, thorough=60)
def refused(case):
    """Samplings whose angles are missing or of incompatible shapes are refused."""
    from pysimulators import SamplingEquatorial, SamplingHorizontal

    i, kind = case
    if kind == 'eq':
        cls, a, b, c, kw = SamplingEquatorial, 'ra', 'dec', 'pa', {}
    else:
        cls, a, b, c = SamplingHorizontal, 'azimuth', 'elevation', 'pitch'
        kw = {'latitude': 10, 'longitude': 20}
    x = np.arange(3.0)
    f = [
        lambda: cls(**{a: x}, **kw),
        lambda: cls(**{b: x}, **kw),
        lambda: cls(x, np.arange(4.0), **kw),
        lambda: cls(x, x, np.arange(4.0), **kw),
        lambda: cls(x, x, x, x, **kw),
        lambda: cls(np.ones((2, 2)), np.ones((2, 2)), **kw),
        lambda: cls(x, **kw),
        lambda: cls(x, x, date_obs=3, **kw),
        lambda: cls(4, **{a: x, b: x}, **kw),
        lambda: SamplingHorizontal(x, x, latitude=10),
        lambda: SamplingHorizontal(x, x, longitude=10),
    ][i]
    try:
        f()
    except (ValueError, TypeError):
        return
    fail('an invalid sampling is accepted')

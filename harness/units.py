"""An independent model of the units: exponents by symbol, and SI factors."""

from math import pi

from hypothesis import strategies as st

BASE = ['A', 'cd', 'K', 'kg', 'm', 'mol', 's']
# symbol: (SI factor, SI unit)
TABLE = {
    'uJy': (1e-32, {'kg': 1, 's': -2}),
    'mJy': (1e-29, {'kg': 1, 's': -2}),
    'Jy': (1e-26, {'kg': 1, 's': -2}),
    'MJy': (1e-20, {'kg': 1, 's': -2}),
    'N': (1.0, {'kg': 1, 'm': 1, 's': -2}),
    'Hz': (1.0, {'s': -1}),
    'J': (1.0, {'kg': 1, 'm': 2, 's': -2}),
    'AU': (149597870700.0, {'m': 1}),
    'km': (1e3, {'m': 1}),
    'mm': (1e-3, {'m': 1}),
    'um': (1e-6, {'m': 1}),
    'pc': (3.0857e16, {'m': 1}),
    'W': (1.0, {'kg': 1, 'm': 2, 's': -3}),
    'atm': (101325.0, {'kg': 1, 'm': -1, 's': -2}),
    'bar': (1e5, {'kg': 1, 'm': -1, 's': -2}),
    'mmHg': (101325 / 760, {'kg': 1, 'm': -1, 's': -2}),
    'cmHg': (101325 / 76, {'kg': 1, 'm': -1, 's': -2}),
    'Torr': (101325 / 760, {'kg': 1, 'm': -1, 's': -2}),
    'Pa': (1.0, {'kg': 1, 'm': -1, 's': -2}),
    'Ohm': (1.0, {'kg': 1, 'm': 2, 's': -3, 'A': -2}),
    'V': (1.0, {'kg': 1, 'm': 2, 's': -3, 'A': -1}),
    'C': (1.0, {'A': 1, 's': 1}),
    'ms': (1e-3, {'s': 1}),
    'us': (1e-6, {'s': 1}),
}
TABLE.update({_: (1.0, {_: 1}) for _ in BASE})
ANGLES = {
    'rad': 1.0,
    'deg': pi / 180,
    'arcmin': pi / 180 / 60,
    'arcsec': pi / 180 / 3600,
    "'": pi / 180 / 60,
    '"': pi / 180 / 3600,
}
UNKNOWN = ['?', 'detector', 'foo_bar', 'bru', '??', 'Kelvin']
# classes of symbols of the same dimension
FAMILIES = {
    'length': ['m', 'km', 'mm', 'um', 'pc', 'AU'],
    'time': ['s', 'ms', 'us'],
    'flux': ['Jy', 'mJy', 'uJy', 'MJy'],
    'pressure': ['Pa', 'bar', 'atm', 'mmHg', 'cmHg', 'Torr'],
}


def normalized(unit):
    return {k: float(v) for k, v in unit.items() if v != 0}


def multiply(a, b, sign=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
    return normalized(out)


def power(a, p):
    return normalized({k: v * p for k, v in a.items()})


def same(a, b, tol=1e-9):
    a, b = normalized(a), normalized(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def parse(text):
    """Read what a Quantity prints: 'kg m^2 / s^0.5'."""
    out, sign = {}, 1
    for token in text.split():
        if token == '/':
            sign = -1
            continue
        symbol, _, exponent = token.partition('^')
        out = multiply(out, {symbol: sign * (float(exponent) if exponent else 1)})
        sign = 1
    return out


def si(unit):
    """The SI factor and unit; an angle symbol to the power +-2 is a solid angle."""
    factor, dims = 1.0, {}
    for k, v in unit.items():
        if k in ANGLES:
            factor *= ANGLES[k] ** v
            if abs(v) == 2:
                dims = multiply(dims, {'sr': v / 2})
            else:
                dims = multiply(dims, {'rad': v})
        elif k in TABLE:
            f, d = TABLE[k]
            factor *= f**v
            dims = multiply(dims, power(d, v))
        else:
            dims = multiply(dims, {k: v})
    if abs(dims.get('rad', 0)) == 2:
        dims = multiply(dims, {'sr': dims['rad'] / 2})
        del dims['rad']
    return factor, dims


EXPONENTS = [1, 1, 1, 2, -1, -2, 3, -3, 0.5, -0.5, 1.5, 0.25, -2.5]


@st.composite
def units(draw, symbols=None, maximum=3, exponents=EXPONENTS):
    if symbols is None:
        symbols = list(TABLE) + UNKNOWN
    n = draw(st.integers(1, maximum))
    chosen = draw(
        st.lists(st.sampled_from(symbols), min_size=n, max_size=n, unique=True)
    )
    return {_: float(draw(st.sampled_from(exponents))) for _ in chosen}


def number(x, style=0):
    if x == int(x):
        return [str(int(x)), f'{int(x)}.', f'{int(x)}.0'][style % 3]
    return str(x)


def text(unit):
    """The unit in a form that the constructor reads."""
    return ' '.join(k if v == 1 else f'{k}^{number(v)}' for k, v in unit.items())

"""An independent model of units: SI values and Gaussian correspondences.

Every number here is physics (CODATA-style definitions) or one of the rounded
constants that the package documents (elementary charge, nucleon mass, solar
radius); nothing is read from the package.
"""

import fractions
import math
import re

C = 2.99792458e10 # cm/s
E = 1.6022e-19 # C
NUC = 1.6605e-27 # kg
AU = 1.495978707e11 # m
RS = 6.96e8 # m

PREFIXES = {
    'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12, 'G': 1e9, 'M': 1e6,
    'k': 1e3, 'h': 1e2, 'da': 1e1, '': 1.0, 'd': 1e-1, 'c': 1e-2, 'm': 1e-3,
    'μ': 1e-6, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15, 'a': 1e-18,
    'z': 1e-21, 'y': 1e-24,
}

PREFIX_NAMES = {
    'Y': 'yotta', 'Z': 'zetta', 'E': 'exa', 'P': 'peta', 'T': 'tera',
    'G': 'giga', 'M': 'mega', 'k': 'kilo', 'h': 'hecto', 'da': 'deca', '': '',
    'd': 'deci', 'c': 'centi', 'm': 'milli', 'μ': 'micro', 'n': 'nano',
    'u': 'micro', 'p': 'pico', 'f': 'femto', 'a': 'atto', 'z': 'zepto', 'y': 'yocto',
}

#: symbol -> (name, quantity, SI value, dimension over m, kg, s, A, K, mol, cd)
#: Gaussian electromagnetic units carry the dimension of the SI quantity that
#: they measure; `system` marks units that belong to only one system.
_D = {
    'length': (1, 0, 0, 0, 0, 0, 0),
    'mass': (0, 1, 0, 0, 0, 0, 0),
    'mass number': (0, 0, 0, 0, 0, 0, 0),
    'time': (0, 0, 1, 0, 0, 0, 0),
    'current': (0, 0, 0, 1, 0, 0, 0),
    'temperature': (0, 0, 0, 0, 1, 0, 0),
    'amount': (0, 0, 0, 0, 0, 1, 0),
    'number': (0, 0, 0, 0, 0, 0, 0),
    'luminous intensity': (0, 0, 0, 0, 0, 0, 1),
    'plane angle': (0, 0, 0, 0, 0, 0, 0),
    'solid angle': (0, 0, 0, 0, 0, 0, 0),
    'frequency': (0, 0, -1, 0, 0, 0, 0),
    'energy': (2, 1, -2, 0, 0, 0, 0),
    'force': (1, 1, -2, 0, 0, 0, 0),
    'pressure': (-1, 1, -2, 0, 0, 0, 0),
    'power': (2, 1, -3, 0, 0, 0, 0),
    'charge': (0, 0, 1, 1, 0, 0, 0),
    'potential': (2, 1, -3, -1, 0, 0, 0),
    'resistance': (2, 1, -3, -2, 0, 0, 0),
    'conductance': (-2, -1, 3, 2, 0, 0, 0),
    'capacitance': (-2, -1, 4, 2, 0, 0, 0),
    'magnetic flux': (2, 1, -2, -1, 0, 0, 0),
    'magnetic intensity': (-1, 0, 0, 1, 0, 0, 0),
    'inductance': (2, 1, -2, -2, 0, 0, 0),
    'magnetic induction': (0, 1, -2, -1, 0, 0, 0),
    'radioactivity': (0, 0, -1, 0, 0, 0, 0),
    'dosage': (2, 0, -2, 0, 0, 0, 0),
    'viscosity': (-1, 1, -1, 0, 0, 0, 0),
}

UNITS = {
    'm': ('meter', 'length', 1.0),
    'au': ('astronomical unit', 'length', AU),
    'Rs': ('solar radius', 'length', RS),
    'g': ('gram', 'mass', 1e-3),
    'nuc': ('nucleon', 'mass number', 1.0),
    'amu': ('atomic mass unit', 'mass number', 1.0),
    's': ('second', 'time', 1.0),
    'min': ('minute', 'time', 60.0),
    'h': ('hour', 'time', 3600.0),
    'd': ('day', 'time', 86400.0),
    'A': ('ampere', 'current', 1.0),
    'statA': ('statampere', 'current', 10.0 / C),
    'K': ('kelvin', 'temperature', 1.0),
    'mol': ('mole', 'amount', 1.0),
    '#': ('count', 'number', 1.0),
    'cd': ('candela', 'luminous intensity', 1.0),
    'rad': ('radian', 'plane angle', 1.0),
    'deg': ('degree', 'plane angle', math.pi / 180.0),
    'sr': ('steradian', 'solid angle', 1.0),
    'Hz': ('hertz', 'frequency', 1.0),
    'J': ('joule', 'energy', 1.0),
    'erg': ('erg', 'energy', 1e-7),
    'eV': ('electronvolt', 'energy', E),
    'N': ('newton', 'force', 1.0),
    'dyn': ('dyne', 'force', 1e-5),
    'Pa': ('pascal', 'pressure', 1.0),
    'W': ('watt', 'power', 1.0),
    'C': ('coulomb', 'charge', 1.0),
    'statC': ('statcoulomb', 'charge', 10.0 / C),
    'e': ('fundamental charge', 'charge', E),
    'V': ('volt', 'potential', 1.0),
    'statV': ('statvolt', 'potential', C * 1e-8),
    'Ω': ('ohm', 'resistance', 1.0),
    'S': ('seimens', 'conductance', 1.0),
    'F': ('farad', 'capacitance', 1.0),
    'Wb': ('weber', 'magnetic flux', 1.0),
    'Mx': ('maxwell', 'magnetic flux', 1e-8),
    'Oe': ('Oersted', 'magnetic intensity', 1e3 / (4.0 * math.pi)),
    'H': ('henry', 'inductance', 1.0),
    'T': ('tesla', 'magnetic induction', 1.0),
    'G': ('gauss', 'magnetic induction', 1e-4),
    'Bq': ('becquerel', 'radioactivity', 1.0),
    'Ci': ('Curie', 'radioactivity', 3.7e10),
    'Gy': ('gray', 'dosage', 1.0),
    'P': ('poise', 'viscosity', 0.1),
}

GAUSSIAN = {'statA', 'statC', 'statV', 'Mx', 'Oe', 'G'}
"""Electromagnetic units whose Gaussian dimension differs from SI's."""

ELECTRIC = {
    'A', 'C', 'V', 'Ω', 'S', 'F', 'Wb', 'H', 'T', 'e', *GAUSSIAN,
}

BY_QUANTITY = {}
for _s, (_n, _q, _v) in UNITS.items():
    BY_QUANTITY.setdefault(_q, []).append(_s)

AMBIGUOUS = {'cd'}
"""The symbol 'cd' means candela, so centi-day has no symbol."""


def prefixed(symbol: str, prefix: str) -> str:
    """The symbol of a scaled unit, or None if there is no such symbol."""
    string = f'{prefix}{symbol}'
    if prefix and string in UNITS:
        return None
    return string


def _lookup(token: str):
    """Resolve a (possibly prefixed) unit symbol."""
    if token in UNITS:
        _, q, v = UNITS[token]
        return v, _D[q]
    for p in sorted(PREFIXES, key=len, reverse=True):
        if p and token.startswith(p) and token[len(p):] in UNITS:
            _, q, v = UNITS[token[len(p):]]
            return PREFIXES[p] * v, _D[q]
    raise KeyError(token)


_TOKEN = re.compile(r'^(?P<b>[^\^]+?)(?:\^(?P<e>-?\d+(?:/\d+)?(?:\.\d+)?))?$')


def evaluate(string: str):
    """Value and dimension of a canonical unit string (e.g. 'kg m^2 s^-1')."""
    value = 1.0
    dims = [fractions.Fraction(0)] * 7
    for token in string.split():
        if token == '1':
            continue
        m = _TOKEN.match(token)
        e = fractions.Fraction(m['e'] or 1)
        v, d = _lookup(m['b'])
        value *= v ** float(e)
        dims = [x + e * y for x, y in zip(dims, d)]
    return value, tuple(dims)


def term(symbol: str, exponent) -> str:
    """Format one unit term."""
    return symbol if exponent == 1 else f'{symbol}^{exponent}'


def product(terms) -> str:
    """Format [(symbol, exponent), ...] as a canonical product."""
    return ' '.join(term(s, e) for s, e in terms)


def spelled(py, terms) -> str:
    """One of the equivalent spellings of a product of powers."""
    terms = list(terms)
    py.shuffle(terms)
    style = py.choice(['product', 'star', 'ratio', 'ratio'])
    if style == 'product':
        return product(terms)
    if style == 'star':
        return ' * '.join(term(s, e) for s, e in terms)
    num = [(s, e) for s, e in terms if e > 0]
    den = [(s, -e) for s, e in terms if e < 0]
    if not den:
        return product(num)
    top = product(num) if num else '1'
    bottom = product(den)
    if len(den) > 1:
        bottom = f'({bottom})'
    return f'{top} / {bottom}'


def value(terms) -> float:
    """SI value of a product of powers."""
    v = 1.0
    for s, e in terms:
        try:
            v *= _lookup(s)[0] ** float(e)
        except OverflowError:
            return math.inf
    return v


def dimension(terms):
    """Dimension of a product of powers."""
    dims = [fractions.Fraction(0)] * 7
    for s, e in terms:
        d = _lookup(s)[1]
        dims = [x + fractions.Fraction(e) * y for x, y in zip(dims, d)]
    return tuple(dims)

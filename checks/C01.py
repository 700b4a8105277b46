"""C01: unit conversion factors are physically right, or the request is refused."""
import itertools
import math
import sys
from fractions import Fraction as F

from vlib import harness, si
from eprempy import metric

RULE = (
    'random and exhaustive unit pairs (every named unit, every metric prefix, '
    'names and symbols, products/ratios/powers of up to five units, whole '
    'metric systems with and without a quantity) against an independent table '
    'of SI values; distinct = distinct (source, target) texts; a case is '
    'non-trivial when source and target differ'
)

PX = ['', '', '', 'k', 'M', 'm', 'c', 'n', 'μ', 'G', 'da', 'd', 'h', 'p', 'T']
EXPS = [1, 1, 1, 2, 3, -1, -1, -2, -3, -4, F(1, 2), F(3, 2), F(-1, 2), 6, -6]
# Quantities whose units convert between systems without electromagnetism.
MECH = [
    'length', 'mass', 'time', 'energy', 'force', 'pressure', 'power',
    'temperature', 'amount', 'plane angle', 'solid angle',
    'luminous intensity', 'radioactivity', 'dosage', 'viscosity', 'frequency',
]
COUNT = ['number', 'mass number']
EM = ['charge', 'current', 'potential', 'magnetic induction', 'magnetic flux',
      'capacitance', 'inductance']
EXPAND = {
    'N': [('kg', 1), ('m', 1), ('s', -2)],
    'J': [('kg', 1), ('m', 2), ('s', -2)],
    'W': [('kg', 1), ('m', 2), ('s', -3)],
    'Pa': [('kg', 1), ('m', -1), ('s', -2)],
    'dyn': [('g', 1), ('cm', 1), ('s', -2)],
    'erg': [('g', 1), ('cm', 2), ('s', -2)],
    'Hz': [('s', -1)],
    'Gy': [('m', 2), ('s', -2)],
    'P': [('g', 1), ('cm', -1), ('s', -1)],
    'C': [('A', 1), ('s', 1)],
    'V': [('kg', 1), ('m', 2), ('s', -3), ('A', -1)],
    'Wb': [('kg', 1), ('m', 2), ('s', -2), ('A', -1)],
    'T': [('kg', 1), ('s', -2), ('A', -1)],
    'H': [('kg', 1), ('m', 2), ('s', -2), ('A', -2)],
    'F': [('s', 4), ('A', 2), ('kg', -1), ('m', -2)],
    'S': [('s', 3), ('A', 2), ('kg', -1), ('m', -2)],
}
# What each quantity measures, as (mks, cgs) coherent values of its canonical
# units; `None` for cgs means: the coherent power of cm, g, s.
QUANTITIES = {
    'acceleration': [('m', 1), ('s', -2)],
    'amount': [('mol', 1)],
    'area': [('m', 2)],
    'energy': [('J', 1)],
    'energy density': [('J', 1), ('m', -3)],
    'fluence': [('J', -1), ('sr', -1), ('m', -2)],
    'flux': [('J', -1), ('s', -1), ('sr', -1), ('m', -2)],
    'particle flux': [('J', -1), ('s', -1), ('sr', -1), ('m', -2)],
    'particle fluence': [('J', -1), ('sr', -1), ('m', -2)],
    'integral flux': [('s', -1), ('sr', -1), ('m', -2)],
    'force': [('N', 1)],
    'frequency': [('Hz', 1)],
    'length': [('m', 1)],
    'mass': [('kg', 1)],
    'mass density': [('kg', 1), ('m', -3)],
    'momentum': [('kg', 1), ('m', 1), ('s', -1)],
    'momentum density': [('kg', 1), ('m', -2), ('s', -1)],
    'number density': [('m', -3)],
    'particle distribution': [('s', 3), ('m', -6)],
    'power': [('W', 1)],
    'power density': [('W', 1), ('m', -3)],
    'pressure': [('Pa', 1)],
    'speed': [('m', 1), ('s', -1)],
    'velocity': [('m', 1), ('s', -1)],
    'temperature': [('K', 1)],
    'thermal conductivity': [('W', 1), ('m', -1), ('K', -1)],
    'time': [('s', 1)],
    'viscosity': [('kg', 1), ('m', -1), ('s', -1)],
    'volume': [('m', 3)],
    'vorticity': [('Hz', 1)],
    'rate': [('Hz', 1)],
    'wavenumber': [('m', -1)],
    'work': [('J', 1)],
    'dosage': [('Gy', 1)],
    'luminous intensity': [('cd', 1)],
    'luminous flux': [('cd', 1), ('sr', 1)],
    'illuminance': [('cd', 1), ('sr', 1), ('m', -2)],
    'plane angle': [('rad', 1)],
    'solid angle': [('sr', 1)],
}
# Gaussian quantities: the factor from the canonical mks to the canonical cgs
# unit (NRL Plasma Formulary; c in cm/s).
CC = si.C
GAUSS = {
    'capacitance': CC**2 * 1e-9,
    'charge': CC / 10, 'electric charge': CC / 10,
    'charge density': CC * 1e-7,
    'current': CC / 10, 'magnetomotance': CC / 10,
    'current density': CC * 1e-5,
    'polarization': CC * 1e-5,
    'electric field': 1e6 / CC,
    'electromotance': 1e8 / CC, 'potential': 1e8 / CC,
    'impedance': 1e9 / CC**2, 'resistance': 1e9 / CC**2,
    'inductance': 1e9 / CC**2,
    'induction': 1e4, 'magnetic field': 1e4, 'magnetic induction': 1e4,
    'magnetic flux': 1e8,
    'magnetic intensity': 4 * math.pi * 1e-3,
    'vector potential': 1e6,
    'conductance': CC**2 * 1e-9,
    'reluctance': 4 * math.pi * 1e-9,
    'permittivity': 4 * math.pi * CC**2 * 1e-11,
    'permeability': 1e7 / (4 * math.pi),
}
CGS = {'m': 1e-2, 'kg': 1e-3}


def same(a, b):
    return abs(a / b - 1.0) < 1e-9


def judge(ck, key, a, b, expected, mandatory=True, **kw):
    """Convert a to b: must equal `expected`, or be refused if optional."""
    case = (a, b, *kw.items())
    try:
        c = metric.conversion(a, b, **kw)
    except metric.UnitConversionError as err:
        if mandatory:
            ck.check(False, key, case, f'refused: {err}')
        else:
            ck.saw('refused', case)
        return None
    except Exception as err:
        ck.check(False, key, case, f'{type(err).__name__}: {err}')
        return None
    ck.check(same(float(c), expected), key, case,
             f'factor {float(c)!r}, expected {expected!r}')
    return c


def rnd(py, q, gaussian=True):
    while True:
        u = py.choice(si.BY_QUANTITY[q])
        if not gaussian and u in si.GAUSSIAN:
            continue
        if x := si.prefixed(u, py.choice(PX)):
            return x


def long_name(symbol, prefix):
    return si.PREFIX_NAMES[prefix] + si.UNITS[symbol][0]


def body(ck):
    py = ck.py
    # A: every pair of named units of one quantity, with prefixes.
    for q, units in si.BY_QUANTITY.items():
        for a, b in itertools.product(units, units):
            for pa, pb in itertools.product(si.PREFIXES, si.PREFIXES):
                if pa and pb and py.random() > ck.scale(0.12, 1.0):
                    continue
                x, y = si.prefixed(a, pa), si.prefixed(b, pb)
                if not x or not y:
                    continue
                e = (si.PREFIXES[pa] * si.UNITS[a][2]
                     / (si.PREFIXES[pb] * si.UNITS[b][2]))
                crossing = a != b and q in EM
                judge(ck, 'single', x, y, e, not (crossing and pa and pb))
                if py.random() < 0.1 and ' ' not in (
                    si.UNITS[a][0] + si.UNITS[b][0]):
                    n, m = long_name(a, pa), long_name(b, pb)
                    judge(ck, 'single-by-name', n, y, e,
                          not (crossing and pa and pb))
                    judge(ck, 'single-by-name', x, m, e,
                          not (crossing and pa and pb))
                if a == b:
                    with ck.guard('ratio', (x, y)):
                        ck.check(same(float(metric.ratio(x, y)), e), 'ratio',
                                 (x, y), 'metric.ratio disagrees')
    # B: compounds, term by term.
    for i in range(ck.scale(1300, 60000)):
        k = py.randint(1, 5)
        mode = py.choice(['mech', 'mech', 'em', 'count'])
        pool = {'mech': MECH, 'em': MECH + EM, 'count': MECH + COUNT}[mode]
        qs = py.sample(pool, k)
        es = [py.choice(EXPS) for _ in qs]
        A = [(rnd(py, q), e) for q, e in zip(qs, es)]
        B = [(rnd(py, q), e) for q, e in zip(qs, es)]
        a, b = si.spelled(py, A), si.spelled(py, B)
        if not (1e-150 < si.value(A) < 1e150 and 1e-150 < si.value(B) < 1e150):
            continue
        e = si.value(A) / si.value(B)
        if not 1e-250 < e < 1e250:
            continue
        c = judge(ck, f'compound-{mode}', a, b, e, mode == 'mech')
        if c is None:
            continue
        if py.random() < 0.25:
            with ck.guard('operators', (a, b)):
                u, v = metric.unit(a), metric.unit(b)
                got = [u >> v, v << u, u >> b, a >> v, v << a, b << u,
                       float(1 / c) ** -1]
                ck.check(all(same(g, e) for g in got), 'operators', (a, b),
                         lambda: f'{got} expected {e}')
    # C: expansions into base units and back, alone and inside a product.
    for i in range(ck.scale(600, 20000)):
        u = py.choice(list(EXPAND))
        p = py.choice(PX)
        s = si.prefixed(u, p)
        e = py.choice([1, 1, 2, -1, -2, 3])
        target = [(x, n * e) for x, n in EXPAND[u]]
        extra = []
        if py.random() < 0.6:
            q = py.choice(['temperature', 'amount', 'luminous intensity'])
            n = py.choice([1, -1, 2, -2])
            extra = [((rnd(py, q), n), (rnd(py, q), n))]
        # rescale the base units of the target
        B = []
        for x, n in target:
            q = si.UNITS[x][1] if x in si.UNITS else si.UNITS[x[-1]][1]
            B.append((py.choice([x, x, rnd(py, q, False)]), n))
        A = [(s, e)] + [t[0] for t in extra]
        B += [t[1] for t in extra]
        a, b = si.spelled(py, A), si.spelled(py, B)
        if py.random() < 0.5:
            judge(ck, 'expansion', a, b, si.value(A) / si.value(B), u != 'Hz')
        else:
            judge(ck, 'contraction', b, a, si.value(B) / si.value(A), u != 'Hz')
    # D: units of a quantity into the canonical unit of a metric system.
    for i in range(ck.scale(600, 20000)):
        q = py.choice(list(QUANTITIES))
        terms = QUANTITIES[q]
        system = py.choice(['mks', 'cgs'])
        A = []
        for s, e in terms:
            kind = si.UNITS[s][1] if s in si.UNITS else 'mass'
            A.append((rnd(py, kind, False), e))
        a = si.spelled(py, A)
        expected = si.value(A)
        if system == 'cgs' and q not in ('radioactivity',):
            dims = si.dimension(terms)
            expected /= 1e-2 ** float(dims[0]) * 1e-3 ** float(dims[1])
        name = py.choice([q, q, q.replace(' ', ' ')])
        c = judge(ck, 'to-system', a, system, expected, True, quantity=name)
        if c is not None:
            with ck.guard('to-system-unit', (a, system, q)):
                v, d = si.evaluate(str(metric.unit(c.u1)))
                ck.check(d == si.dimension(terms)
                         and same(v * expected, si.value(A)),
                         'to-system-unit', (a, system, q),
                         f'converted to {c.u1}')
    for q, f in GAUSS.items():
        m, g = (str(metric.system(s)[q].unit) for s in ('mks', 'cgs'))
        if q != 'conductance':
            judge(ck, 'gaussian', m, 'cgs', f, True, quantity=q)
            if g != '1':
                judge(ck, 'gaussian', g, 'mks', 1 / f, True, quantity=q)
        else:
            ck.probe(
                'gaussian-conductance', m,
                lambda: float(metric.conversion(m, 'cgs', quantity=q)),
                lambda r: same(r, f), lambda r: same(r, f * 1e4))
    # D': a named unit into a system without naming its quantity.
    for u, s, b in [('G', 'mks', 'T'), ('T', 'cgs', 'G'), ('C', 'cgs', 'statC'),
                    ('statC', 'mks', 'C'), ('J', 'cgs', 'erg'),
                    ('eV', 'mks', 'J'), ('dyn', 'mks', 'N'), ('au', 'cgs', 'cm'),
                    ('Rs', 'mks', 'm'), ('h', 'mks', 's'), ('d', 'cgs', 's'),
                    ('Wb', 'cgs', 'Mx'), ('statV', 'mks', 'V'),
                    ('A', 'cgs', 'statA'), ('P', 'mks', 'Pa s'),
                    ('MeV', 'mks', 'J'), ('km', 'cgs', 'cm'),
                    ('GeV', 'cgs', 'erg'), ('nT', 'cgs', 'G'),
                    ('km', 'mks', 'm'), ('mg', 'mks', 'kg')]:
        if b == 'Pa s':
            e = 0.1
        else:
            e = si._lookup(u)[0] / si._lookup(b)[0]
        judge(ck, 'to-system-bare', u, s, e, True)
    # E: incompatible dimensions are refused.
    for i in range(ck.scale(700, 20000)):
        pool = [q for q in MECH] + ['charge', 'current']
        k = py.randint(1, 3)
        A = [(rnd(py, q, False), py.choice(EXPS)) for q in py.sample(pool, k)]
        k = py.randint(1, 3)
        B = [(rnd(py, q, False), py.choice(EXPS)) for q in py.sample(pool, k)]
        if py.random() < 0.5:
            # a near miss: the same units, one exponent off
            B = [(s, e) for s, e in A]
            j = py.randrange(len(B))
            B[j] = (B[j][0], B[j][1] + py.choice([1, -1, 2]))
            if not B[j][1]:
                continue
        if si.dimension(A) == si.dimension(B):
            continue
        a, b = si.spelled(py, A), si.spelled(py, B)
        ck.rejects('incompatible', (a, b), lambda: metric.conversion(a, b),
                   (metric.UnitConversionError,))
        with ck.guard('incompatible-none', (a, b)):
            r = metric.conversion(a, b, error=False)
            ck.check(r is None, 'incompatible-none', (a, b), repr(r))
    # F: unknown units are refused.
    for u in ['foo', 'kfoo', 'xm', 'mm2', 'Jule', 'm / quux', 'kgg']:
        for v in ['m', 'kg', 'J']:
            ck.rejects('unknown-unit', (u, v), lambda: metric.conversion(u, v),
                       (metric.UnitConversionError, metric.UnitParsingError,
                        ValueError))
    # Listed defects, probed by their specific inputs.
    ck.probe('seimens-to-cgs', ('S', 'cm / s'),
             lambda: float(metric.conversion('S', 'cm / s')),
             lambda r: same(r, CC**2 * 1e-9), lambda r: same(r, CC**2 * 1e-5))
    ck.probe('ohm-decomposition', ('V / A', 'Ω'),
             lambda: float(metric.conversion('V / A', 'Ω')),
             lambda r: same(r, 1.0),
             lambda r: isinstance(r, metric.UnitConversionError))
    ck.require('single', 4000)
    ck.require('compound-mech', 500)
    ck.require('to-system', 300)
    ck.require('incompatible', 300)


if __name__ == '__main__':
    sys.exit(harness.main('C01', RULE, body, [
        'the table of unit values in vlib/si.py (SI definitions plus the '
        'rounded constants e=1.6022e-19 C, nucleon=1.6605e-27 kg, '
        'Rs=6.96e8 m that the package documents)',
        'refusing a conversion between two prefixed electromagnetic units of '
        'different systems is allowed; a wrong factor is not',
    ]))

"""C25: constants, quantities, metric systems, and elements agree with physics."""
import math
import re
import sys
from fractions import Fraction as F

from checks import C01
from vlib import harness, si
from eprempy.metric._exceptions import QuantityError
from eprempy import atomic, measured, metric, physical, universal

np = harness.numpy
RULE = (
    'every quantity in every system, every constant in every system, random '
    'units, dimensions, and quantity names asked of the metric systems, and '
    'random lists of species; distinct = distinct questions'
)
LETTERS = 'LMTIHNJ'
#: SI dimension (m, kg, s, A, K, mol, cd) of quantities with no unit of theirs
D = si._D
MKS = {
    **{k: si.dimension([(s, e) for s, e in v])
       for k, v in C01.QUANTITIES.items()},
    'charge': D['charge'], 'electric charge': D['charge'],
    'current': D['current'], 'magnetomotance': D['current'],
    'potential': D['potential'], 'electromotance': D['potential'],
    'capacitance': D['capacitance'], 'conductance': D['conductance'],
    'inductance': D['inductance'], 'magnetic flux': D['magnetic flux'],
    'induction': D['magnetic induction'],
    'magnetic field': D['magnetic induction'],
    'magnetic induction': D['magnetic induction'],
    'charge density': (-3, 0, 1, 1, 0, 0, 0),
    'current density': (-2, 0, 0, 1, 0, 0, 0),
    'displacement': (-2, 0, 1, 1, 0, 0, 0),
    'polarization': (-2, 0, 1, 1, 0, 0, 0),
    'electric field': (1, 1, -3, -1, 0, 0, 0),
    'magnetic intensity': (-1, 0, 0, 1, 0, 0, 0),
    'magnetization': (-1, 0, 0, 1, 0, 0, 0),
    'magnetic moment': (2, 0, 0, 1, 0, 0, 0),
    'vector potential': (1, 1, -2, -1, 0, 0, 0),
    'conductivity': (-3, -1, 3, 2, 0, 0, 0),
    'permittivity': (-3, -1, 4, 2, 0, 0, 0),
    'permeability': (1, 1, -2, -2, 0, 0, 0),
    'reluctance': (-2, -1, 2, 2, 0, 0, 0),
    'impedance': D['resistance'], 'resistance': D['resistance'],
    'resistivity': (3, 1, -3, -2, 0, 0, 0),
    'radioactivity': (0, 0, -1, 0, 0, 0, 0),
    **{k: (0,) * 7 for k in ('identity', 'number', 'ratio', 'mass number')},
}
#: Gaussian dimension in powers of length, mass, and time
h = F(1, 2)
GAUSS = {
    'charge': (3 * h, h, -1), 'electric charge': (3 * h, h, -1),
    'current': (3 * h, h, -2), 'magnetomotance': (3 * h, h, -2),
    'potential': (h, h, -1), 'electromotance': (h, h, -1),
    'vector potential': (h, h, -1), 'magnetic flux': (3 * h, h, -1),
    'electric field': (-h, h, -1), 'induction': (-h, h, -1),
    'magnetic field': (-h, h, -1), 'magnetic induction': (-h, h, -1),
    'displacement': (-h, h, -1), 'polarization': (-h, h, -1),
    'magnetic intensity': (-h, h, -1), 'magnetization': (-h, h, -1),
    'magnetic moment': (5 * h, h, -1), 'charge density': (-3 * h, h, -1),
    'current density': (-h, h, -2), 'capacitance': (1, 0, 0),
    'inductance': (-1, 0, 2), 'impedance': (-1, 0, 1),
    'resistance': (-1, 0, 1), 'resistivity': (0, 0, 1),
    'conductance': (1, 0, -1), 'conductivity': (0, 0, -1),
    'permittivity': (0, 0, 0), 'permeability': (0, 0, 0),
    'reluctance': (-1, 0, 0),
}
OHMIC = {'impedance', 'resistance', 'resistivity'}
#: constant -> (mks value, dimension, Gaussian value or None if coherent)
CONSTANTS = {
    'pi': (math.pi, (0,) * 7, None),
    'k': (1.380649e-23, (2, 1, -2, 0, -1, 0, 0), None),
    'e': (1.602176634e-19, D['charge'], 4.80320471e-10),
    'me': (9.1093837e-31, D['mass'], None),
    'mp': (1.67262192e-27, D['mass'], None),
    'G': (6.6743e-11, (3, -1, -2, 0, 0, 0, 0), None),
    'g': (9.80665, (1, 0, -2, 0, 0, 0, 0), None),
    'h': (6.62607015e-34, (2, 1, -1, 0, 0, 0, 0), None),
    'c': (299792458.0, (1, 0, -1, 0, 0, 0, 0), None),
    'epsilon0': (8.8541878e-12, MKS['permittivity'], 1.0),
    'mu0': (1.25663706e-6, MKS['permeability'], 1.0),
    'Rinfinity': (10973731.57, (-1, 0, 0, 0, 0, 0, 0), None),
    'a0': (5.29177211e-11, D['length'], None),
    're': (2.8179403e-15, D['length'], None),
    'alpha': (7.2973525693e-3, (0,) * 7, None),
    'c1': (3.741771852e-16, (4, 1, -3, 0, 0, 0, 0), None),
    'c2': (1.438776877e-2, (1, 0, 0, 0, 1, 0, 0), None),
    'sigma': (5.670374419e-8, (0, 1, -3, 0, -4, 0, 0), None),
    'eV': (1.602176634e-19, D['energy'], None),
    'MeV': (1.602176634e-13, D['energy'], None),
    'H+': (13.6 * 1.602176634e-19, D['energy'], None),
    'amu': (1.66053907e-27, D['mass'], None),
    'au': (1.495978707e11, D['length'], None),
}
#: standard atomic weights, rounded, of elements whose mass number is theirs
WEIGHTS = dict(zip(
    'H He Li Be B C N O F Ne Na Mg Al Si P S Cl K Ar Ca Sc Ti V Cr Mn Fe Ni '
    'Co Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb '
    'I Te Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re '
    'Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Pa Th Np U'.split(),
    [1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998,
     20.180, 22.990, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.098,
     39.95, 40.078, 44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.693,
     58.933, 63.546, 65.38, 69.723, 72.630, 74.922, 78.971, 79.904, 83.798,
     85.468, 87.62, 88.906, 91.224, 92.906, 95.95, 98, 101.07, 102.91,
     106.42, 107.87, 112.41, 114.82, 118.71, 121.76, 126.90, 127.60, 131.29,
     132.91, 137.33, 138.91, 140.12, 140.91, 144.24, 145, 150.36, 151.96,
     157.25, 158.93, 162.50, 164.93, 167.26, 168.93, 173.05, 174.97, 178.49,
     180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59, 204.38,
     207.2, 208.98, 209, 210, 222, 223, 226, 227, 231.04, 232.04, 237,
     238.03]))
NAMES = {
    'H': 'Hydrogen', 'He': 'Helium', 'C': 'Carbon', 'N': 'Nitrogen',
    'O': 'Oxygen', 'Ne': 'Neon', 'Mg': 'Magnesium', 'Si': 'Silicon',
    'S': 'Sulfur', 'Ar': 'Argon', 'Ca': 'Calcium', 'Fe': 'Iron',
    'Na': 'Sodium', 'Al': 'Aluminum', 'K': 'Potassium', 'Ni': 'Nickel'}


class _Powers:
    """Powers of base quantities, so that Python can do their algebra."""

    def __init__(self, *powers):
        self.powers = powers

    def __mul__(self, other):
        return _Powers(*(x + y for x, y in zip(self.powers, other.powers)))

    def __truediv__(self, other):
        return _Powers(*(x - y for x, y in zip(self.powers, other.powers)))

    def __pow__(self, exp):
        return _Powers(*(x * exp for x in self.powers))


BASES = {k: _Powers(*(F(i == j) for j in range(7)))
         for i, k in enumerate(LETTERS)}
ONE = _Powers(*[F(0)] * 7)


def powers(text):
    """The powers of base quantities in a dimension expression."""
    text = re.sub(r'\^(-?\d+)(?![/\d])', r'^(\1/1)', str(text))
    text = re.sub(r'\^(-?\d+/\d+)', r'^(\1)', text)
    text = re.sub(r'\^\((-?\d+)/(\d+)\)', r'**F(\1,\2)', text)
    text = re.sub(r'(?<![\d,*(-])\b1\b(?![,\d])', 'ONE', text)
    text = re.sub(r'(?<=[A-Z)]) +(?=[A-Z(])', ' * ', text)
    return eval(text, {'F': F, 'ONE': ONE, **BASES}).powers


def expected(name, system):
    if system == 'cgs' and name in GAUSS:
        return (*map(F, GAUSS[name]), 0, 0, 0, 0)
    m, kg, s, a, k, mol, cd = map(F, MKS[name])
    return (m, kg, s, a, k, mol, cd)


def value(unit, system):
    """SI value of a canonical unit; electromagnetic units by their name."""
    return si.evaluate(str(unit))[0]


def quantities(ck):
    """Every quantity has the right unit and dimension everywhere."""
    py = ck.py
    for name in metric.SYSTEMS:
        system = metric.system(py.choice([name, name.upper()]))
        names = list(system)
        ck.check(set(names) >= set(MKS) and len(system) == len(names),
                 'quantities', name, set(MKS) ^ set(names))
        py.shuffle(names)
        for q in names:
            if q not in MKS:
                ck.saw('unknown quantity', q)
                continue
            case = (name, q)
            want = expected(q, name)
            with ck.guard('quantity', case):
                p = system[py.choice([q, q.upper(), metric.quantity(q)])]
                if q in OHMIC and name == 'mks':
                    for label, call in (
                            ('stated', lambda: system.dimensions[q]),
                            ('unit', lambda: p.dimension)):
                        wrong = list(want)
                        wrong[3] = F(-1)
                        ck.probe('ohm-dimension', (*case, label),
                                 lambda: powers(call()),
                                 lambda d: d == want,
                                 lambda d: d == tuple(wrong))
                    continue
                ck.check(powers(p.dimension) == want, 'dimension', case,
                         lambda: f'{p.dimension}, not {want}')
                for label, d in (
                        ('system', system.dimensions[q]),
                        ('quantity', metric.quantity(q).dimensions[name]),
                        ('unit', system.get_dimension(p.unit))):
                    ck.check(powers(d) == want, f'dimension-{label}', case,
                             lambda: f'{d}, not {want}')
                for label, u in (
                        ('system', system.units[q]),
                        ('quantity', metric.quantity(q).units[name]),
                        ('get_unit', system.get_unit(quantity=q)),
                        ('normal', system.get_unit(unit=p.unit,
                                                   quantity='time'))):
                    ck.check(metric.unit(u) == p.unit, f'unit-{label}', case,
                             lambda: f'{u}, not {p.unit}')
                # the canonical unit of a system is coherent
                if not (name == 'cgs' and q in GAUSS) and q not in (
                        'radioactivity', 'reluctance'):
                    got = value(p.unit, name)
                    coherent = 1.0
                    if name == 'cgs':
                        coherent = (1e-2 ** float(want[0])
                                    * 1e-3 ** float(want[1]))
                    ck.check(C01.same(got, coherent), 'coherent', case,
                             lambda: f'{p.unit} is {got}, not {coherent}')
                u = system.get_unit(dimension=py.choice(
                    [p.dimension, str(p.dimension)]))
                ck.check(powers(system.get_dimension(u)) == want,
                         'unit-of-dimension', case, str(u))
        for _ in range(40):
            # units of several terms, with any powers
            terms = [(py.choice(list(system)), py.choice(
                [F(1), F(-1), F(2), F(-2), F(3), F(1, 2), F(-3, 2)]))
                for _ in range(py.randint(1, 3))]
            case = (name, [(q, str(e)) for q, e in terms])
            with ck.guard('compound-dimension', case):
                u = metric.unit('1')
                want = [F(0)] * 7
                for q, e in terms:
                    v = metric.unit(system.units[q])
                    u = u * v ** (int(e) if e.denominator == 1 else e)
                    want = [w + e * x for w, x in zip(
                        want, powers(system[q].dimension))]
                for form in (u, str(u)):
                    d = system.get_dimension(form)
                    ck.check(powers(d) == tuple(want) if isinstance(
                        powers(d), tuple) else powers(d) == want,
                        'compound-dimension', case,
                        lambda: f'{form} has {d}, not {want}')
        for bad in ('vigor', '', 'lengths', 'energy * vigor', '1 / vigor'):
            for call in (lambda: system[bad],
                         lambda: system.get_unit(quantity=bad)):
                ck.rejects('no quantity', (name, bad), call,
                           (KeyError, ValueError,
                            QuantityError))
        for _ in range(40):
            # the unit counts first, then the dimension, then the quantity
            a, b, c = py.sample(list(system), 3)
            with ck.guard('get_unit-order', (name, a, b, c)):
                u, d = system[a].unit, system[b].dimension
                if '1' in (str(u), str(d)):
                    continue
                first = system.get_unit(unit=u)
                second = system.get_unit(dimension=d)
                ck.check(str(system.get_unit(unit=u, dimension=d, quantity=c))
                         == str(system.get_unit(quantity=c, unit=u))
                         == str(first)
                         and str(system.get_unit(quantity=c, dimension=d))
                         == str(second)
                         and str(system.get_unit(dimension='L^99', quantity=c))
                         == str(system.get_unit(quantity=c)), 'get_unit-order',
                         (name, a, b, c))
        ck.rejects('no unit', name, lambda: system.get_unit(), (KeyError,))
        ck.rejects('no unit', (name, 'L^99'),
                   lambda: system.get_unit(dimension='L^99'), (KeyError,))
    names = [q for q in MKS if q not in OHMIC]
    for _ in range(ck.scale(400, 4000)):
        a, b = py.choice(names), py.choice(names)
        if py.random() < 0.3:
            near = [q for q in names if expected(q, 'mks') == expected(
                a, 'mks')]
            b = py.choice(near)
        case = (a, b)
        with ck.guard('alike', case):
            qa, qb = metric.quantity(a), metric.quantity(b.upper())
            alike = all(expected(a, s) == expected(b, s)
                        for s in metric.SYSTEMS)
            ck.check(bool(qa | qb) == alike, 'alike', case)
            ck.check((qa == qb) == (a == b) and qa == a.upper()
                     and (qa == b) == (a == b) and str(qa) == a
                     and metric.quantity(a) is qa
                     and metric.quantity(qa) is qa, 'same', case)


def units(ck):
    """Random units asked of the systems."""
    py = ck.py
    for _ in range(ck.scale(600, 8000)):
        A = [(C01.rnd(py, q), py.choice([1, 1, 2, 3, -1, -1, -2]))
             for q in py.sample([k for k in C01.MECH if k != 'dosage'],
                                py.choice([1, 2, 2, 3]))]
        text = si.spelled(py, A)
        dims = tuple(map(F, si.dimension(A)))
        for name in metric.SYSTEMS:
            case = (text, name)
            system = metric.system(name)
            known = {'J', 'N', 'Pa', 'W', 'Gy', 'erg', 'dyn', 'P', 'eV'}
            with ck.guard('get_dimension', case):
                try:
                    d = system.get_dimension(py.choice(
                        [text, metric.unit(text)]))
                except ValueError:
                    # no member of this unit belongs to this system
                    ck.saw('foreign', case)
                    del known
                    continue
                ck.check(powers(d) == dims, 'get_dimension', case,
                         lambda: f'{d}, not {dims}')
            with ck.guard('get_unit', case):
                u = system.get_unit(unit=py.choice(
                    [text, metric.unit(text)]))
                v, got = si.evaluate(str(u))
                ck.check(tuple(got) == dims, 'get_unit', case, str(u))


def compounds(ck):
    """Products of named quantities."""
    py = ck.py
    names = [q for q in MKS if q not in OHMIC]
    blank = [q for q in names if ' ' in q]
    for _ in range(ck.scale(400, 6000)):
        pool = py.sample(names, 3) + py.sample(blank, 2)
        parts = [(py.choice(pool), py.choice([1, 1, 1, 2, -1, -1, -2]))
                 for _ in range(py.choice([2, 2, 3, 4]))]
        text = ''
        for q, e in parts:
            power = '' if abs(e) == 1 else f'^{abs(e)}'
            if not text:
                text = f'{q}{power}' if e > 0 else f'1 / {q}{power}'
            else:
                text += f" {'*' if e > 0 else '/'} {q}{power}"
        name = py.choice(list(metric.SYSTEMS))
        case = (text, name)
        want = tuple(sum(col) for col in zip(*[
            [e * x for x in expected(q, name)] for q, e in parts]))
        with ck.guard('compound', case):
            system = metric.system(name)
            u = system.get_unit(quantity=py.choice(
                [text, text, text.upper(), text.title()]))
            try:
                d = powers(system.get_dimension(u))
            except ValueError:
                # a bare number belongs to no system
                ck.saw('dimensionless', case)
                continue
            ck.check(d == want, 'compound', case,
                     lambda: f'{u} has {d}, not {want}')
            ck.saw('compound', case)


def constants(ck):
    """Every constant in every system, as a measured value."""
    py = ck.py
    ck.check(set(universal.MKS) == set(CONSTANTS) == set(universal.CGS)
             and len(universal.MKS) == len(CONSTANTS), 'constants', 'names')
    for name, (v, dims, gauss) in CONSTANTS.items():
        for sysname, given in (('mks', universal.MKS), ('cgs', universal.CGS),
                               ('mks', universal.Constants('MKS')),
                               ('cgs', universal.Constants('cgs'))):
            case = (name, sysname)
            with ck.guard('constant', case):
                x = given[name]
                want = v
                if sysname == 'cgs':
                    want = gauss if gauss is not None else (
                        v * 100.0 ** dims[0] * 1000.0 ** dims[1])
                ck.check(abs(float(x) / want - 1) < 4e-4, 'value', case,
                         lambda: f'{float(x)} {x.unit}, not {want}')
                # the unit is that system's coherent unit of that dimension
                scale, got = si.evaluate(str(x.unit))
                if sysname == 'mks':
                    ck.check(C01.same(scale, 1.0) and tuple(got) == tuple(
                        map(F, dims)), 'unit', case, str(x.unit))
                elif gauss is None:
                    ck.check(C01.same(
                        scale, 0.01 ** dims[0] * 0.001 ** dims[1])
                        and tuple(got) == tuple(map(F, dims)), 'unit', case,
                        str(x.unit))
                else:
                    ck.check(x.unit == ('statC' if name == 'e' else '1'),
                             'unit', case, str(x.unit))
                ck.check(isinstance(x.info, str) and x.info.endswith('.')
                         and isinstance(x.quantity, str), 'about', case)
                s = x.asscalar
                ck.check(isinstance(s, physical.Scalar)
                         and float(s) == float(x) and s.unit == x.unit,
                         'asscalar', case, repr(s))
                if gauss is None and name not in ('pi', 'alpha'):
                    other = universal.CGS if sysname == 'mks' else (
                        universal.MKS)
                    y = other[name]
                    z = measured.value(float(x), x.unit).withunit(y.unit)
                    ck.check(abs(float(z) / float(y) - 1) < 1e-9,
                             'both systems', case, f'{z!r} and {y!r}')
    for bad in ('x', '', 'Pi', 'hbar'):
        ck.rejects('no constant', bad, lambda: universal.MKS[bad],
                   (KeyError,))
    # using a constant never changes it
    for _ in range(ck.scale(40, 400)):
        name = py.choice(list(CONSTANTS))
        given = py.choice([universal.MKS, universal.CGS])
        x = given[name]
        before = float(x), str(x.unit)
        with ck.guard('kept', name):
            s = x.asscalar
            s * 2
            s / given['c'].asscalar
            x.withunit(x.unit)
            y = given[name]
            ck.check((float(y), str(y.unit)) == before and (
                float(x), str(x.unit)) == before, 'kept', name)


def species(ck):
    """Symbols, masses, and charges determine one another."""
    py = ck.py
    first = {}
    for symbol, w in WEIGHTS.items():
        first.setdefault(round(
            atomic.ELEMENTS.find(symbol, unique=True)['mass']), symbol)
        with ck.guard('weight', symbol):
            element = atomic.ELEMENTS.find(symbol, unique=True)
            ck.check(abs(element['mass'] / w - 1) < 2e-3, 'weight', symbol,
                     f"{element['mass']}, not {w}")
            ck.check(element['name'] == NAMES.get(symbol, element['name']),
                     'name', symbol, element['name'])
    owned = set(first.values())
    ck.check({'Fe', 'Ni', 'Ar', 'O', 'He'} <= owned, 'owned', 'first')
    for _ in range(ck.scale(300, 6000)):
        n = py.choice([1, 1, 2, 3, 6])
        chosen = [(py.choice(sorted(owned)), py.randint(-3, 26))
                  for _ in range(n)]
        symbols = [s + ('+' if q > 0 else '-') * abs(q) for s, q in chosen]
        masses = [round(atomic.ELEMENTS.find(s, unique=True)['mass'])
                  for s, _ in chosen]
        charges = [q for _, q in chosen]
        # the numbers arrive exactly or after a conversion of their unit
        how = py.choice(['int', 'float', 'rounded', 'array', 'single',
                         'weights'])
        m, q = list(masses), list(charges)
        if how == 'float':
            m, q = [float(x) for x in m], [float(x) for x in q]
        elif how == 'rounded':
            m = [float(np.nextafter(x, py.choice([0, 99]))) for x in m]
            q = [float(np.nextafter(x, py.choice([-99, 99]))) for x in q]
        elif how == 'array':
            m = np.array(m, dtype=py.choice(['f4', 'f8', 'i4']))
            q = np.array(q, dtype=py.choice(['f4', 'f8', 'i4']))
        elif how == 'single' and n == 1:
            m, q = m[0], q[0]
        elif how == 'weights':
            m = [atomic.ELEMENTS.find(s, unique=True)['mass']
                 for s, _ in chosen]
        case = (how, tuple(symbols))
        with ck.guard('elements', case):
            got = atomic.elements(mass=m, charge=q)
            ck.check(got == symbols, 'elements', case, got)
        for s, (base, charge), mass in zip(symbols, chosen, masses):
            with ck.guard('species', s):
                a = atomic.species(s)
                b = atomic.species(mass=mass, charge=charge)
                w = atomic.ELEMENTS.find(base, unique=True)['mass']
                for x in (a, b):
                    ck.check(x.symbol == s and x.q == charge and x.m == w
                             and float(x.charge) == charge
                             and x.charge.unit == 'e'
                             and float(x.mass) == w and x.mass.unit == 'nuc',
                             'species', s, repr(x))
        ck.rejects('lengths', case, lambda: atomic.elements(
            mass=[*masses, 1], charge=charges), (TypeError,))
        gap = next(x for x in range(2, 400) if x not in first
                   and x > 245 or x in (2, 3, 5, 8))
        ck.rejects('no element', gap, lambda: atomic.elements(
            mass=[*masses, gap], charge=[*charges, 1]),
            (atomic.MassValueError,))
    for call in (lambda: atomic.species(), lambda: atomic.species('H', 'He'),
                 lambda: atomic.species('H', mass=1, charge=1),
                 lambda: atomic.species(mass=1, charge=1, spin=0)):
        ck.rejects('species arguments', repr(call), call, (TypeError,))


def body(ck):
    for _ in range(ck.scale(2, 6)):
        quantities(ck)
        constants(ck)
    units(ck)
    compounds(ck)
    species(ck)
    for event in ('dimension', 'coherent', 'value', 'unit', 'elements',
                  'species', 'get_dimension', 'get_unit', 'alike',
                  'compound'):
        ck.require(event, 40)


if __name__ == '__main__':
    sys.exit(harness.main('C25', RULE, body, [
        'plane and solid angles are dimensionless, as the package documents',
        'constants are given to about five digits, as the package documents']))

"""C03: units obey algebra, and equality/consistency mean what they say."""
import math
import sys
from fractions import Fraction as F

from vlib import harness, si
from checks.C01 import EM, EXPAND, MECH, QUANTITIES, PX, rnd, same
from eprempy import metric, symbolic
from eprempy.metric import _exceptions

RULE = (
    'random units (1-4 named units, prefixes, integer and rational powers, '
    'many spellings) multiplied, divided, raised, compared, normalized and '
    'dimensioned; the oracle evaluates the printed result against SI tables; '
    'distinct = distinct operand texts'
)
EXPS = [1, 1, 1, 2, 3, -1, -1, -2, -3, F(1, 2), F(-3, 2), F(2, 3), 10, -12]
DIM = ['L', 'M', 'T', 'I', 'H', 'N', 'J']
POOL = [q for q in MECH if q not in ('plane angle', 'solid angle')]
SIEM = ['charge', 'current', 'potential', 'magnetic induction',
        'magnetic flux', 'capacitance', 'inductance', 'conductance']


def dims_of(expression):
    """Exponents of a printed dimension expression."""
    out = [F(0)] * 7
    for token in str(expression).split():
        if token == '1':
            continue
        base, _, e = token.partition('^')
        out[DIM.index(base)] += F(e or 1)
    return tuple(out)


def pick(py, pool, k):
    A = []
    for q in py.sample(pool, k):
        A.append((rnd(py, q, False), py.choice(EXPS)))
    return A


def scaled(terms, p):
    return [(s, F(e) * p) for s, e in terms]


def matches(unit, terms):
    """The printed unit means the given product."""
    v, d = si.evaluate(str(unit))
    w = si.value(terms)
    return d == si.dimension(terms) and same(v, w)


def tiny(terms):
    return not 1e-150 < si.value(terms) < 1e150


def reductions(ck, py, x, n):
    """A named unit written in base units has the same value."""
    v, d = si._lookup(x)
    for system in ('mks', 'cgs', None):
        case = (x, system)
        try:
            r = n.reduce(system)
        except _exceptions.SystemAmbiguityError:
            if system is None and n.base.symbol in si.ELECTRIC:
                ck.saw('ambiguous', case)
                continue
            raise
        if n.base.symbol in si.GAUSSIAN | {'Ω'} or r is None:
            ck.saw('irreducible', case)
            continue
        if r.system == 'cgs' and n.base.symbol in si.ELECTRIC:
            continue
        k = py.choice([2, 0.5, 3, 4])
        e = py.choice([2, 3, -1, 1])
        for label, q, want, power in (
            ('reduce', r, v, 1), ('reduce-times', r * k, v * k, 1),
            ('reduce-times', k * r, v * k, 1), ('reduce-over', r / k, v / k, 1),
            ('reduce-power', r ** e, v ** e, e),
            ('reduce-more', (r * k) ** e / k, (v * k) ** e / k, e),
        ):
            got, dims = si.evaluate(' '.join(str(t) for t in q.units))
            same_dims = tuple(power * y for y in d) == tuple(dims)
            ck.check(same(got * float(q.scale), want) and same_dims, label,
                     (case, k, e), lambda: f'{q!r} {q.scale} {q.units}')
            text = str(q).rsplit('[', 1)[0].split()
            value = 1.0
            if text and text[0].replace('/', '').isdigit():
                value = float(F(text.pop(0)))
            ck.check(same(got * value, want), 'reduce-text', (case, k, e),
                     lambda: str(q))
        again = n.reduce(system)
        ck.check(same(float(again.scale), float(r.scale)) and [
            str(t) for t in again.units] == [str(t) for t in r.units],
            'reduce-again', case)
    with ck.guard('decomposed', x):
        terms = n.decomposed
        if (terms is not None and n.base.symbol not in si.ELECTRIC
                and n.base.symbol not in si.GAUSSIAN | {'Ω'}):
            got, dims = si.evaluate(' '.join(str(t) for t in terms))
            ck.check(same(got, v) and tuple(dims) == tuple(d), 'decomposed',
                     x, lambda: str(terms))
        m = py.choice(['', 'k', 'm', 'M', 'n'])
        y = si.prefixed(n.base.symbol, m)
        if y is not None:
            f = v / si._lookup(y)[0]
            o = metric.NamedUnit(y)
            ck.check(all(same(float(z), f) for z in (
                n >> y, n >> o, o << n, o << x, x >> o, y << n,
                metric.ratio(x, y), metric.ratio(n, o))), 'ratio', (x, y))
            ck.check((n == o) == (x == y) and (n == y) == (x == y)
                     and (hash(n) == hash(o) or x != y), 'named-equal', (x, y))
        other = py.choice([z for z in si.UNITS if z != n.base.symbol])
        ck.rejects('ratio-other', (x, other), lambda: n >> other,
                   (ValueError,))


def body(ck):
    py = ck.py
    full = POOL + ['plane angle', 'solid angle'] + SIEM
    for _ in range(ck.scale(700, 12000)):
        A = pick(py, full, py.randint(1, 4))
        B = pick(py, full, py.randint(1, 3))
        if py.random() < 0.3:
            B = B + [(s, -e) for s, e in A[:1]]
        if tiny(A) or tiny(B) or tiny(A + B):
            continue
        a, b = si.spelled(py, A), si.spelled(py, B)
        a2 = si.spelled(py, A)
        case = (a, b)
        with ck.guard('build', case):
            u, v = metric.unit(a), metric.unit(b)
            ck.check(matches(u, A), 'meaning', a, lambda: f'printed {u}')
            ck.check(metric.unit(str(u)) == u, 'reparse', a, str(u))
            ck.check(metric.unit(u) is u, 'idempotent', a)
            e = symbolic.expression(a)
            for given in (e, e.terms, list(e), [a]):
                w = metric.unit(given)
                ck.check(matches(w, A) and w == u, 'object', (a, given),
                         lambda: str(w))
            t, p = py.choice(A)
            one = symbolic.expression(t if p == 1 else f'{t}^{p}')
            for given in (one, one.terms, [str(one)], str(one)):
                w = metric.unit(given)
                ck.check(matches(w, [(t, p)]), 'single', given,
                         lambda: str(w))
        with ck.guard('equality', (a, a2)):
            w = metric.unit(a2)
            ck.check(u == w and u == a2 and a2 == u and not u != w,
                     'equality', (a, a2), f'{u} vs {w}')
            ck.check(bool(u & w) and bool(u | w), 'equality-implies', (a, a2))
        with ck.guard('algebra', case):
            ck.check(matches(u * v, A + B), 'product', case, lambda: str(u*v))
            ck.check(matches(u / v, A + scaled(B, -1)), 'ratio', case,
                     lambda: str(u / v))
            ck.check(matches(u * b, A + B) and matches(a * v, A + B),
                     'product-string', case)
            ck.check(matches(u / b, A + scaled(B, -1))
                     and matches(a / v, A + scaled(B, -1)), 'ratio-string',
                     case)
            p = py.choice([2, 3, -1, -2, F(1, 2), F(3, 2), 1])
            if not tiny(scaled(A, p)):
                ck.check(matches(u ** p, scaled(A, p)), 'power', (a, p),
                         lambda: str(u ** p))
            ck.check(matches(1 / u, scaled(A, -1)), 'reciprocal', a)
            ck.check(metric.unit(u * v / v) & u, 'cancel', case,
                     lambda: str(u * v / v))
            ck.check(str(u / u) == '1', 'self-ratio', a, lambda: str(u / u))
        with ck.guard('number', a):
            n = py.choice([2, 0.5, -1, 0, 10])
            ck.rejects('times-number', (a, n), lambda: u * n, (ValueError,))
            ck.rejects('over-number', (a, n), lambda: u / n, (ValueError,))
            ck.check(u * 1 == u and 1 * u == u and u / 1 == u, 'times-one', a)
    # dimensions, normalization, and comparison (coherent units)
    for _ in range(ck.scale(500, 9000)):
        A = pick(py, POOL + SIEM, py.randint(1, 3))
        if tiny(A):
            continue
        a = si.spelled(py, A)
        u = metric.unit(a)
        em = any(si._lookup(s)[1][3] for s, _ in A)
        with ck.guard('dimension', a):
            d = u.dimensions['mks']
            if all(s in ('dyn', 'erg', 'Ci', 'P', 'g', 'cm') for s, _ in A):
                d = d or u.dimensions['cgs']
            if d is not None:
                ck.check(dims_of(d) == si.dimension(A), 'dimension', a,
                         lambda: f'{d}')
        if em or any('Ci' in s or 'Bq' in s for s, _ in A):
            continue
        for system in ('mks', 'cgs'):
            with ck.guard('normalize', (a, system)):
                n = u.normalize(system)
                v, dd = si.evaluate(str(n))
                dims = si.dimension(A)
                expected = 1.0
                if system == 'cgs':
                    expected = (1e-2 ** float(dims[0])
                                * 1e-3 ** float(dims[1]))
                ck.check(dd == dims and same(v, expected), 'normalize',
                         (a, system), f'{n}')
                ck.check(n.normalize(system) == n or bool(
                    n.normalize(system) & n), 'normalize-twice', (a, system))
        B = pick(py, POOL, py.randint(1, 3))
        mode = py.choice(['random', 'same-dims', 'same-value', 'off', 'more',
                          'fewer'])
        if mode == 'same-dims':
            B = []
            for s, e in A:
                base = next(x for x in sorted(si.UNITS, key=len, reverse=True)
                            if s.endswith(x)
                            and si._lookup(x)[1] == si._lookup(s)[1])
                B.append((rnd(py, si.UNITS[base][1], False), e))
        elif mode == 'same-value':
            B = []
            for s, e in A:
                if s in EXPAND and s not in ('dyn', 'erg', 'P', 'Hz'):
                    B += [(x, n * e) for x, n in EXPAND[s]]
                else:
                    B.append((s, e))
            if len({s for s, _ in B}) < len(B):
                continue
        elif mode == 'more':
            B = A + [(s, e) for s, e in B if s not in {t for t, _ in A}]
            py.shuffle(B)
        elif mode == 'fewer' and len(A) > 1:
            B = py.sample(A, len(A) - 1)
        elif mode == 'off':
            B = [(s, e) for s, e in A]
            j = py.randrange(len(B))
            B[j] = (B[j][0], B[j][1] * 2)
        if tiny(B) or any('Hz' in s for s, _ in A + B):
            continue
        b = si.spelled(py, B)
        case = (a, b)
        with ck.guard('compare', case):
            v = metric.unit(b)
            samedims = si.dimension(A) == si.dimension(B)
            ck.check(bool(u | v) == samedims, 'consistent', case,
                     lambda: f'u | v is {u | v}')
            ck.check(bool(v | u) == samedims and bool(u | b) == samedims
                     and bool(b | u) == samedims, 'consistent-symmetric', case)
            equal = samedims and same(si.value(A), si.value(B))
            if equal or not samedims or not same(si.value(A), si.value(B)):
                ck.check(bool(u & v) == equal, 'equivalent', case,
                         lambda: f'u & v is {u & v}')
                ck.check(bool(v & u) == equal, 'equivalent-symmetric', case)
            if not equal:
                ck.check(u != v, 'unequal', case)
    # units whose prefixes cancel are equivalent, however they are spread
    logs = {p: round(math.log10(f)) for p, f in si.PREFIXES.items()}
    for _ in range(ck.scale(300, 6000)):
        x, y = py.sample(['m', 's', 'J', 'Pa', 'N', 'W', 'K', 'g', 'erg',
                          'Hz'], 2)
        e, f = py.choice([1, 2, 3, -1, -2]), py.choice([1, 1, 2, -1, -3])
        spread = [py.choice(list(logs)) for _ in 'abcd']
        fitting = [p for p in logs if f * (logs[p] - logs[spread[1]])
                   == e * (logs[spread[0]] - logs[spread[2]])]
        if fitting and py.random() < .6:
            spread[3] = py.choice(fitting)
        off = (e * (logs[spread[0]] - logs[spread[2]])
               + f * (logs[spread[1]] - logs[spread[3]]))
        parts = [si.prefixed(z, p) for z, p in zip((x, y, x, y), spread)]
        if None in parts or abs(off) > 20:
            continue
        A, B = [(parts[0], e), (parts[1], f)], [(parts[2], e), (parts[3], f)]
        if not 1e-90 < si.value(A) < 1e90:
            continue
        a, b = si.spelled(py, A), si.spelled(py, B)
        with ck.guard('equivalent', (a, b)):
            ck.check(bool(metric.unit(a) & b) == (off == 0)
                     and bool(metric.unit(b) & metric.unit(a)) == (off == 0),
                     'equivalent-prefixes', (a, b), off)
            if off == 0:
                ck.saw('prefixes cancel', (a, b))
    # what a named unit is
    for s, (name, q, v) in si.UNITS.items():
        for p in si.PREFIXES:
            x = si.prefixed(s, p)
            if x is None or py.random() > ck.scale(0.5, 1.0):
                continue
            with ck.guard('named', x):
                n = metric.NamedUnit(x)
                ck.check(n.scale == harness.numpy.float64(si.PREFIXES[p])
                         or same(float(n.scale), si.PREFIXES[p]), 'named-scale',
                         x, lambda: f'{n.scale}')
                ck.check(n.quantity == q, 'named-quantity', x,
                         lambda: n.quantity)
                full_name = si.PREFIX_NAMES[p] + name
                if p != 'u':
                    ck.check(n.name == full_name and n.symbol == x,
                             'named-name', x, lambda: f'{n.name} {n.symbol}')
                m = metric.NamedUnit(full_name)
                ck.check(m is n or m == n, 'named-same', (x, full_name))
                if ' ' not in full_name:
                    ck.check(metric.unit(full_name) == metric.unit(x),
                             'unit-by-name', full_name)
                reductions(ck, py, x, n)
    ck.probe('ohm-dimension', 'Ω',
             lambda: dims_of(metric.unit('Ω').dimensions['mks']),
             lambda d: d == si._D['resistance'],
             lambda d: d == (2, 1, -3, -1, 0, 0, 0))
    ck.require('consistent', 100)
    ck.require('normalize', 200)
    ck.require('prefixes cancel', 20)


if __name__ == '__main__':
    sys.exit(harness.main('C03', RULE, body, [
        'plane and solid angles are dimensionless, as the package documents']))

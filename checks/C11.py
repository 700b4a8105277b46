"""C11: axis values resolve to the positions that hold them."""
import sys

from vlib import harness, phys
from eprempy import measured, numeric, physical, quantity

np = harness.numpy
RULE = (
    'random axes of every kind (sorted, reversed and shuffled coordinates in '
    'random units) and targets in every accepted form; distinct = distinct '
    '(axis, targets)'
)
FAMILIES = [f for f in phys.FAMILIES if 'rad' not in f and 'G' not in f]


def spread(py, n):
    """Distinct, well separated positive or signed values."""
    out = []
    while len(out) < n:
        x = py.choice([py.uniform(-50, 50), float(py.randint(-20, 20)),
                       10 ** py.uniform(-6, 6)])
        if abs(x) > 1e-7 and all(
                abs(x - y) > 1e-3 * max(abs(x), abs(y)) for y in out):
            out.append(x)
    order = py.choice(['up', 'up', 'down', 'any'])
    if order != 'any':
        out.sort(reverse=order == 'down')
    return out


def resolved(ck, got, want, key, case):
    """`got` is the index object for these positions."""
    if len(want) == 1:
        ok = isinstance(got, numeric.index.Value) and int(got) == want[0]
    else:
        ok = (isinstance(got, numeric.index.Sequence)
              and [int(i) for i in got] == want)
    ck.check(ok, key, case, lambda: f'got {got!r}; expected {want}')


def forms(py, values, unit, own):
    """(label, call arguments) for the same targets."""
    out = [('split', (*values, unit)), ('tuple', ((*values, unit),)),
           ('list', ([*values, unit],)),
           ('pair', ((list(values), unit),)),
           ('measurement', (quantity.measure(*values, unit),)),
           ('sequence', (measured.sequence(list(values), unit),)),
           ('axis', (physical.coordinates(
               measured.sequence(list(values), unit)),))]
    if len(values) == 1:
        out += [('scalar', (physical.scalar(values[0], unit),)),
                ('value', (measured.value(values[0], unit),)),
                ('text', (f'{values[0]!r} {unit}'.split(' ')[0], unit))]
    if own:
        out += [('plain', tuple(values)), ('plain-list', (list(values),)),
                ('array', (np.array(values),))]
    return out


def coordinates(ck):
    py = ck.py
    for _ in range(ck.scale(500, 8000)):
        family = py.choice(FAMILIES)
        u, w = py.choice(family), py.choice(family)
        v = spread(py, harness.length(py, 1, 7))
        f = phys.factor(u, w)
        case = (u, w, v)
        with ck.guard('coordinates', case):
            axis = physical.coordinates(measured.sequence(v, u))
            resolved(ck, axis.index(), list(range(len(v))) if len(v) > 1
                     else [0], 'index-all', case) if len(v) > 1 else None
            pick = [py.randrange(len(v))
                    for _ in range(py.choice([1, 1, 2, 3]))]
            t = [v[i] * f for i in pick]
            for label, args in forms(py, t, w, u == w):
                resolved(ck, axis.index(*args), pick, f'find-{label}',
                         (case, pick))
            resolved(ck, axis.index(*[v[i] for i in pick]), pick, 'find-own',
                     (case, pick))
            # the same positions after expressing the axis in another unit
            other = axis.withunit(w)
            ck.check(np.allclose([float(x) for x in other.data],
                                 np.array(v) * f, rtol=1e-9),
                     'withunit', case)
            resolved(ck, other.index(*[v[i] for i in pick], u), pick,
                     'find-converted', (case, pick))
            resolved(ck, axis.index(*[v[i] for i in pick]), pick,
                     'unchanged', case)
            # absent values
            x = py.uniform(-60, 60)
            if all(abs(x - y) > 2e-3 * abs(y) for y in v):
                ck.rejects('absent', (case, x), lambda: axis.index(x),
                           (ValueError,))
                ck.rejects('absent-unit', (case, x),
                           lambda: axis.index(x * f, w), (ValueError,))
                ck.rejects('absent-one-of', (case, x),
                           lambda: axis.index(v[0], x), (ValueError,))
                lo = [y for y in v if y < x]
                hi = [y for y in v if y > x]
                for args in ((x,), (x * f, w), ((x * f, w),),
                             (measured.value(x * f, w),)):
                    if lo:
                        resolved(ck, axis.index(*args, closest='lower'),
                                 [v.index(max(lo))], 'lower', (case, x))
                    if hi:
                        i = axis.index(*args, closest='upper')
                        resolved(ck, i, [v.index(min(hi))], 'upper',
                                 (case, x))
                    if lo and hi:
                        ck.saw('bracketed', case)
                if lo:
                    resolved(ck, axis.index(x, v[-1], closest='lower'),
                             [v.index(max(lo)), len(v) - 1], 'lower-mixed',
                             (case, x))
                ck.rejects('closest-unknown', (case, x),
                           lambda: axis.index(x, closest='near'),
                           (ValueError,))
            for how in ('lower', 'upper'):
                resolved(ck, axis.index(*t, w, closest=how), pick,
                         f'exact-{how}', (case, pick))
            wrong = py.choice([k for g in FAMILIES if g is not family
                               for k in g])
            if (phys.unit_value(wrong)[1] != phys.unit_value(u)[1]
                    and phys.unit_value(wrong)[1] != phys.ZERO):
                ck.rejects('wrong-unit', (case, wrong),
                           lambda: axis.index(v[0], wrong), (ValueError,))
            for bad in ('x', 'abc'):
                ck.rejects('wrong-type', case, lambda: axis.index(bad),
                           (TypeError, ValueError))


def points(ck):
    py = ck.py
    for _ in range(ck.scale(150, 2500)):
        v = py.sample(range(60), harness.length(py, 1, 7))
        if py.random() < .6:
            v.sort()
        with ck.guard('points', v):
            axis = physical.points(py.choice([list, tuple, np.array])(v))
            pick = [py.randrange(len(v))
                    for _ in range(py.choice([1, 1, 2, 3]))]
            t = [v[i] for i in pick]
            for args in (t, [t], [tuple(t)], [np.array(t)],
                         [np.int64(i) for i in t]):
                resolved(ck, axis.index(*args), pick, 'point', (v, pick))
            x = py.choice([i for i in range(-3, 70) if i not in v])
            ck.rejects('point-absent', (v, x), lambda: axis.index(x),
                       (ValueError,))
            ck.rejects('point-absent-one-of', (v, x),
                       lambda: axis.index(v[0], x), (ValueError,))
            ck.rejects('point-negative', v,
                       lambda: physical.points([*v, -1]),
                       (TypeError, ValueError))
    for _ in range(ck.scale(150, 2500)):
        n = harness.length(py, 1, 7)
        v = [f'{py.choice("abxyH+")}{i}' for i in range(n)]
        py.shuffle(v)
        with ck.guard('symbols', v):
            axis = physical.symbols(v)
            pick = [py.randrange(n) for _ in range(py.choice([1, 1, 2, 3]))]
            resolved(ck, axis.index(*[v[i] for i in pick]), pick, 'symbol',
                     (v, pick))
            ck.rejects('symbol-absent', v, lambda: axis.index('nope'),
                       (ValueError,))
            ck.rejects('symbol-absent-one-of', v,
                       lambda: axis.index(v[0], 'nope'), (ValueError,))
            ck.rejects('symbol-number', v, lambda: axis.index(0),
                       (TypeError,))


def lookup(ck):
    """Subscripting an array at looked-up positions selects those values."""
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(250, 4000)):
        m = phys.Model.random(rng, py, ndim=py.choice([1, 2, 3]), maxlen=5)
        case = m.key()
        with ck.guard('lookup', case):
            a = m.build(py)
            found, index = [], []
            for name, (kind, v, u) in zip(m.names, m.axes):
                how = py.choice(['all', 'one', 'some'])
                if how == 'all':
                    found.append(slice(None))
                    index.append(slice(None))
                    continue
                pick = [py.randrange(len(v))
                        for _ in range(1 if how == 'one'
                                       else py.choice([1, 2, 3]))]
                got = a.axes[name].index(*[v[i] for i in pick])
                found.append(got)
                index.append(pick if len(pick) > 1 else pick[0])
            sub = a[tuple(found)] if len(found) > 1 else a[found[0]]
            # a listed selection keeps the chosen values, in order
            diff = m.subscript(index).judge(sub)
            ck.check(diff is None, 'subscript-at', (case, str(index)),
                     lambda: diff)
            if isinstance(found[0], numeric.index.Value) and m.data.ndim > 1:
                diff = m.subscript([index[0]] + [slice(None)]
                                   * (m.data.ndim - 1)).judge(a[found[0]])
                ck.check(diff is None, 'subscript-bare', case, lambda: diff)


def selections(ck):
    """A part of an axis knows its values and where they were."""
    py = ck.py
    for _ in range(ck.scale(400, 6000)):
        n = harness.length(py, 1, 7)
        kind = py.choice(['points', 'symbols', 'coordinates'])
        unit = None
        if kind == 'points':
            v = list(range(n))
            axis = physical.points(v)
        elif kind == 'symbols':
            v = [f's{i}' for i in range(n)]
            axis = physical.symbols(v)
        else:
            v = spread(py, n)
            unit = py.choice(py.choice(FAMILIES))
            axis = physical.coordinates(measured.sequence(v, unit))
        case = (kind, v, unit)
        bound = lambda: py.choice([None, None, *range(-n - 2, n + 3)])
        some = slice(bound(), bound(),
                     py.choice([None, None, 1, 2, 3, -1, -2]))
        pick = [py.randrange(n) for _ in range(py.randint(1, 4))]
        for s, at in (
            (some, list(range(n)[some])),
            (slice(None), list(range(n))),
            (py.choice([list, numeric.index.sequence])(pick), pick),
            (numeric.index.value(pick[0]), pick[:1]),
            (pick[0], pick[:1]),
        ):
            with ck.guard('part', (case, str(s))):
                part = axis[s]
                got = [x if kind == 'symbols' else float(x) for x in part]
                ck.check(got == [v[i] for i in at] and len(part) == len(at)
                         and type(part) is type(axis)
                         and (unit is None or part.unit == axis.unit),
                         'part', (case, str(s)), lambda: f'{part!r}')
                ck.check([int(i) for i in part.indices] == at,
                         'part-indices', (case, str(s)),
                         lambda: f'{list(part.indices)}, not {at}')
        with ck.guard('equal', case):
            make = {'points': physical.points, 'symbols': physical.symbols,
                    'coordinates': lambda x: physical.coordinates(
                        measured.sequence(x, unit))}[kind]
            other = py.choice([v[::-1], v[:-1], [*v[:-1], v[-1] * 2],
                               list(v)])
            if not other:
                continue
            same = other == v
            b = make(other)
            ck.check((axis == b) is same and (axis != b) is not same,
                     'equal', (case, other))
            if unit:
                family = py.choice([f for f in FAMILIES if unit in f])
                w = py.choice(family)
                b = physical.coordinates(measured.sequence(v, w))
                fac = phys.factor(unit, w)
                if w != unit and abs(fac - 1) > 1e-6:
                    ck.check(not axis == b and axis != b, 'equal-unit',
                             (case, w))
                    ck.check(axis != axis.withunit(w) or any(
                        x == 0 for x in v), 'equal-unit', (case, w))


def body(ck):
    selections(ck)
    coordinates(ck)
    points(ck)
    lookup(ck)
    for e in ('find-split', 'find-scalar', 'find-array', 'lower', 'upper',
              'bracketed', 'absent', 'wrong-unit', 'point', 'symbol',
              'subscript-at', 'find-converted', 'lower-mixed',
              'subscript-bare', 'part', 'part-indices', 'equal',
              'equal-unit'):
        ck.require(e, 40)


if __name__ == '__main__':
    sys.exit(harness.main('C11', RULE, body))

"""C05: measuring keeps every number and its unit, in every accepted form."""
import sys

from vlib import harness, si
from checks.C01 import EM, MECH, rnd, same
from eprempy import measured, metric, quantity

np = harness.numpy
RULE = (
    'random numbers and units presented in every documented measurable form, '
    'measured values and sequences converted along random chains of units; '
    'distinct = distinct inputs'
)


def numbers(py, n):
    kind = py.choice(['int', 'float', 'mixed', 'numpy'])
    out = []
    for _ in range(n):
        k = py.choice(['int', 'float']) if kind == 'mixed' else kind
        if k == 'int':
            out.append(py.randint(-1000, 1000))
        elif k == 'float':
            out.append(py.choice([
                py.uniform(-10, 10), py.uniform(0, 1) * 10 ** py.randint(
                    -30, 30), 0.0, -0.0]))
        else:
            out.append(py.choice([np.float64(py.uniform(-5, 5)),
                                  np.int64(py.randint(-9, 9)),
                                  np.float32(0.5)]))
    return out


def forms(py, xs, unit):
    """(label, args) of every documented spelling of these values."""
    out = []
    u = unit
    U = metric.unit(unit)
    seq = py.choice([list, tuple])
    out.append(('flat', (*xs, u)))
    out.append(('flat-unit', (*xs, U)))
    out.append(('grouped', (seq(xs), u)))
    out.append(('grouped-unit', (seq(xs), U)))
    out.append(('array', (np.array(xs), py.choice([u, U]))))
    out.append(('array-wrapped', ([np.array(xs), u],)))
    out.append(('wrapped', ([*xs, u],)))
    out.append(('wrapped-twice', ([[seq(xs), u]],)))
    out.append(('pairs', tuple((x, u) for x in xs)))
    out.append(('pairs-list', ([[x, u] for x in xs],)))
    if len(xs) > 1:
        k = py.randint(1, len(xs) - 1)
        out.append(('chunks', ((seq(xs[:k]), u), (seq(xs[k:]), u))))
    out.append(('strings', ([*(repr(float(x)) for x in xs), u],)))
    return out


def chain(py, rnd_unit, k):
    return [rnd_unit() for _ in range(k)]


def body(ck):
    py = ck.py
    for _ in range(ck.scale(240, 8000)):
        n = py.choice([1, 1, 2, 3, 7])
        xs = numbers(py, n)
        A = [(rnd(py, q), py.choice([1, 1, 2, -1, -2]))
             for q in py.sample(MECH, py.choice([1, 1, 2, 3]))]
        u = si.spelled(py, A)
        for label, args in forms(py, xs, u):
            case = (label, args)
            before = repr(args)
            with ck.guard('measure', case):
                m = quantity.measure(*args)
                ok = (len(m) == n and m.size == n and list(map(float, m.data))
                      == list(map(float, xs)) and m.unit == u)
                ck.check(ok, f'measure-{label}', case,
                         lambda: f'{m!r}')
                ck.check(repr(args) == before, 'measure-input', case)
                ck.check(quantity.measure(m) is m, 'measure-again', case)
                ck.check(quantity.ismeasurable(args) or label == 'strings',
                         'ismeasurable', case)
            with ck.guard('parse', case):
                arg = args[0] if len(args) == 1 else args
                p = quantity.parse(arg)
                ck.check(list(map(float, p[:-1])) == list(map(float, xs))
                         and metric.unit(p[-1]) == u, 'parse', case, repr(p))
                d = quantity.parse(arg, distribute=True)
                ck.check(len(d) == n and all(
                    float(v) == float(x) and metric.unit(w) == u
                    for (v, w), x in zip(d, xs)), 'parse-distribute', case,
                    repr(d))
        with ck.guard('unitless', xs):
            m = quantity.measure(*xs)
            ck.check(list(map(float, m.data)) == list(map(float, xs))
                     and m.unit == '1' and m.isunitless, 'unitless', xs,
                     lambda: repr(m))
        # conversions of the measured objects
        xs = [float(x) for x in xs]
        objs = [('measurement', quantity.measure(*xs, u)),
                ('sequence', measured.sequence(xs, u))]
        if n == 1:
            objs.append(('value', measured.value(xs[0], u)))
            ck.check(float(objs[0][1]) == xs[0] and float(objs[2][1]) == xs[0]
                     and int(objs[0][1]) == int(xs[0])
                     and int(objs[2][1]) == int(xs[0])
                     and complex(objs[0][1]) == complex(xs[0]), 'cast', xs)
        else:
            ck.rejects('cast-many', xs, lambda: float(objs[0][1]),
                       (TypeError,))
            ck.rejects('value-many', xs, lambda: measured.value(xs, u),
                       (TypeError,))
        units = []
        for _ in range(3):
            B = []
            for s, e in A:
                base = next(x for x in sorted(si.UNITS, key=len, reverse=True)
                            if s.endswith(x)
                            and si._lookup(x)[1] == si._lookup(s)[1])
                B.append((rnd(py, si.UNITS[base][1]), e))
            units.append(B)
        if not all(1e-100 < si.value(B) < 1e100 for B in [A, *units]):
            continue
        for label, obj in objs:
            current = obj
            for B in units:
                b = si.spelled(py, B)
                case = (label, xs, u, b)
                with ck.guard('withunit', case):
                    held = (np.array(current.data, copy=True),
                            str(current.unit))
                    new = current.withunit(py.choice([b, metric.unit(b)]))
                    f = si.value(A) / si.value(B)
                    got = np.atleast_1d(np.asarray(new.data, dtype=float))
                    ck.check(harness.close(got, f * np.array(xs), 1e-9)
                             and new.unit == b and type(new) is type(obj),
                             f'withunit-{label}', case,
                             lambda: f'{new!r}, expected {f * np.array(xs)}')
                    ck.check(np.array_equal(held[0], current.data)
                             and str(current.unit) == held[1],
                             'withunit-input', case)
                    current = new
            C = [(s, e) for s, e in A]
            C.append((py.choice(['J', 'kN', 's']), 7))
            c = si.product(C)
            ck.rejects('inconsistent', (label, u, c),
                       lambda: obj.withunit(c), (ValueError,))
        # arrays of every numeric storage type convert to the same numbers
        kind = py.choice(['int8', 'int16', 'int32', 'int64', 'uint8',
                          'float32', 'float64'])
        low = 0 if kind[0] == 'u' else -100
        ys = [py.randint(low, 100) for _ in range(py.choice([1, 2, 5]))]
        case = ('stored', kind, ys, u, si.spelled(py, units[0]))
        f = si.value(A) / si.value(units[0])
        if 1e-20 < f < 1e20:
            with ck.guard('withunit', case):
                held = np.array(ys, dtype=kind)
                new = measured.sequence(held, u).withunit(
                    py.choice([case[-1], metric.unit(case[-1])]))
                rough = {'8': 1e-2, '6': 1e-5, '2': 1e-5}.get(kind[-1], 1e-9)
                if kind.endswith('64'):
                    rough = 1e-9
                if kind.endswith('int8'):
                    rough = 1e-2
                    inside = 1e-3 < f < 500
                else:
                    inside = True
                if inside:
                    ck.check(harness.close(
                        np.asarray(new.data, dtype=float), f * np.array(ys),
                        rough) and new.unit == case[-1], 'withunit-stored',
                        case, lambda: f'{new!r}, expected {f * np.array(ys)}')
                ck.check(held.dtype == kind and held.tolist() == ys,
                         'withunit-input', case)
        # subscription
        s = py.choice(objs[:2])[1]
        for k in {0, n - 1, -1, -n}:
            with ck.guard('item', (xs, k)):
                ck.check(float(s[k]) == xs[k] and s[k].unit == u, 'item',
                         (xs, k), repr(s[k]))
        with ck.guard('slice', xs):
            i, j = sorted((py.randint(0, n), py.randint(0, n)))
            if j - i > 1:
                t = s[i:j]
                ck.check(list(t.data) == xs[i:j] and t.unit == u, 'slice',
                         (xs, i, j), repr(t))
            ck.check([float(x) for x in s] == xs and all(
                x.unit == u for x in s), 'iterate', xs)
            ck.check(np.array_equal(np.asarray(s), np.array(xs)), 'as-array',
                     xs)
        ck.rejects('item-beyond', (xs, n), lambda: s[n], (IndexError,))
        with ck.guard('equality', xs):
            t = type(s).spawn(xs, unit=si.spelled(py, A)) if hasattr(
                type(s), 'spawn') else s
            ck.check(t == s, 'equality', (xs, u))
            ys = list(xs)
            ys[py.randrange(n)] += 1.5
            if ys != xs:
                ck.check(measured.sequence(ys, u) != measured.sequence(xs, u),
                         'unequal-data', (xs, ys))
            ck.check(measured.sequence(xs, u)
                     != measured.sequence(xs, si.product(C)), 'unequal-unit',
                     (xs, u))
    bad = [(), (None,), ([],), ('m',), ('x', 'y'), (1, 'm', 's'),
           ([(1, 'm'), (2, 's')],), ([(1, 'm'), (2, 'km')],),
           (metric.unit('m'), metric.unit('s')),
           (1, metric.unit('m'), metric.unit('s')),
           (1., 2., metric.unit('m'), metric.unit('m')),
           ([1, 2], metric.unit('m'), metric.unit('km')), (1 + 2j,), ({},),
           ('1 m',), (1, 'm', 2, 's'), ((1, 2), 'm', 's'), ([], 'm'),
           ((), 'm'), (np.array([]), 'm'), ([1, 2], 5, 'm'),
           ([1, 2], [3], 'm'), ([1, 2], (3, 4), 's'),
           (5, [1, 2], 'm')]
    for _ in range(60):
        # one part of several has another unit, wherever it is
        n = ck.py.randint(2, 5)
        parts = [[*(float(ck.py.randint(1, 9))
                    for _ in range(ck.py.choice([1, 1, 2]))), 'm']
                 for _ in range(n)]
        parts[ck.py.randrange(n)][-1] = ck.py.choice(['s', 'km', 'J'])
        parts = [tuple(p) for p in parts]
        bad.append(ck.py.choice([(parts,), (tuple(parts),), tuple(parts)]))
        # one value of several is no number
        values = [float(ck.py.randint(1, 9)) for _ in range(n)]
        values[ck.py.randrange(n)] = ck.py.choice([None, {}, 1j, 'x'])
        args = ck.py.choice([(values, 'm'), [*values, 'm'],
                             (tuple(values), metric.unit('m')), values])
        if args[-1] == 'x':
            args = [*args, 'm']
        bad.append((args,))
        if not any(isinstance(v, str) for v in values):
            ck.check(not quantity.ismeasurable(args), 'ismeasurable-not', args)
            ck.saw('not measurable', args)
    for _ in range(30):
        # nothing may follow an object which is already measured
        xs = [float(ck.py.randint(1, 9)) for _ in range(ck.py.choice([1, 3]))]
        objs = [quantity.measure(*xs, 'km'), measured.sequence(xs, 'km'),
                measured.value(xs[0], 'km')]
        for obj in objs:
            with ck.guard('measured-object', obj):
                ck.check(quantity.ismeasurable(obj), 'ismeasurable-object',
                         obj)
                for again in ((obj,), ([obj],), ((obj,),)):
                    m = quantity.measure(*again)
                    ck.check(list(m.data) == (
                        xs if len(m) == len(xs) and obj is not objs[2]
                        else xs[:1]) and len(m) == (
                            1 if obj is objs[2] else len(xs))
                        and m.unit == 'km', 'measured-again', again, repr(m))
            extra = ck.py.choice([('m',), (2.0,), (2.0, 'm'), (obj,), (None,),
                                  (metric.unit('s'),), ([3.0, 'm'],)])
            bad.append((obj, *extra))
    for args in bad:
        ck.rejects('unmeasurable', args, lambda: quantity.measure(*args),
                   (TypeError, ValueError))
    ck.require('measure-flat', 100)
    ck.require('withunit-measurement', 100)


if __name__ == '__main__':
    sys.exit(harness.main('C05', RULE, body))

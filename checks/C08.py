"""C08: named dimensions combine in order and arrays broadcast by name."""
import itertools
import operator
import sys

from vlib import harness, phys
from checks.C07 import merge, meshed
from eprempy import numeric, physical, real

np = harness.numpy
RULE = (
    'all pairs of dimension lists over four names (quick: sampled) for set '
    'operations; random real arrays and axes for named broadcasting; '
    'distinct = distinct operands'
)
ORDER = [('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
         ('>=', operator.ge)]
OPS = [operator.mul, operator.truediv, operator.floordiv, operator.mod]


def ordered(a, b):
    """Shared names appear in the same order in both."""
    return [n for n in a if n in b] == [n for n in b if n in a]


def dims(ck):
    py = ck.py
    names = ['x', 'time', 'y0', 'mu']
    lists = [list(p) for r in range(5)
             for p in itertools.permutations(names, r)]
    pairs = list(itertools.product(lists, lists))
    if not ck.thorough:
        pairs = py.sample(pairs, 900)
    D = numeric.dimensions
    for a, b in pairs:
        case = (a, b)
        with ck.guard('dims', case):
            A, B = D(a), D(*b) if len(b) != 1 else D(b)
            for X, Y in ((A, B), (A, list(b)), (A, tuple(b)), (list(a), B)):
                how = type(X).__name__[0] + type(Y).__name__[0]
                if ordered(a, b):
                    ck.check(list(X | Y) == merge(a, b), 'or', (case, how))
                    ck.check(list(X ^ Y) == merge(
                        [n for n in a if n not in b],
                        [n for n in b if n not in a]), 'xor', (case, how))
                else:
                    ck.rejects('or-refuse', (case, how), lambda: X | Y,
                               (ValueError,))
                ck.check(list(X & Y) == [n for n in a if n in b], 'and',
                         (case, how), lambda: repr(X & Y))
                if not isinstance(X, list):
                    ck.check(list(X - Y) == [n for n in a if n not in b],
                             'sub', (case, how))
            for Y in (B, list(b), *(b if len(b) == 1 else [])):
                s, t = set(a), set(b)
                ck.check(((A < Y), (A <= Y), (A > Y), (A >= Y)) == (
                    s < t, s <= t, s > t, s >= t), 'order', case)
            ck.check((A == B) is (a == b) and (A != B) is (a != b)
                     and (A == list(b)) is (a == b)
                     and (A == tuple(b)) is (a == b), 'eq', case)
            ck.check(a != b or hash(A) == hash(B), 'hash', case)
            ck.check(list(A) == a and len(A) == len(a)
                     and all(A[i] == n and n in A and A.index(n) == i
                             for i, n in enumerate(a)), 'sequence', case)
            # distributive and complement laws over the real objects
            ck.check(sorted([*(A & B), *(A - B)]) == sorted(a), 'split', case)
    for a in lists:
        A = D(a)
        with ck.guard('dims-edit', a):
            order = py.sample(range(len(a)), len(a))
            if a:
                want = [a[i] for i in order]
                ck.check(list(A.permute(order)) == want
                         and list(A.permute(order=order)) == want, 'permute',
                         (a, order))
                if len(a) > 1:
                    ck.check(list(A.permute(*order)) == want, 'permute', a)
                    ck.rejects('permute-refuse', a,
                               lambda: A.permute(*order[1:]), (ValueError,))
                i = py.randrange(len(a))
                ck.check(list(A.replace(a[i], 'new'))
                         == a[:i] + ['new'] + a[i + 1:], 'replace', (a, i))
            i = py.randint(0, len(a))
            ck.check(list(A.insert('new', i)) == a[:i] + ['new'] + a[i:]
                     and list(A.insert('new')) == a + ['new'], 'insert',
                     (a, i))
            if a:
                i = py.randint(-len(a), -1)
                ck.check(list(A.insert('new', i)) == a[:i] + ['new'] + a[i:],
                         'insert', (a, i))
                # names that resemble one another are different
                near = [*a, a[0] + '1', 'q' + a[0]]
                B = D(near)
                ck.check(list(B.replace(a[0], 'new')) == ['new', *near[1:]]
                         and list(B - a[0]) == near[1:]
                         and list(B & a[0]) == [a[0]]
                         and list(B | a[0]) == near
                         and list(B ^ (a[0] + '1')) == [*a, 'q' + a[0]]
                         and B > a[0] and not B <= a[0]
                         and not D(a[0]) > a[0] and D(a[0]) == a[0]
                         and list(B.replace('q', 'new')) == near, 'near', near)
            ck.check(A.copy() == A and list(A) == a, 'dims-kept', a)


def arrays(ck):
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(1000, 20000)):
        names = py.sample(phys.NAMES, 5)
        size = {n: py.choice([1, 2, 3, 4]) for n in names}
        a = [n for n in names if py.random() < .55] or names[:1]
        b = [n for n in names if py.random() < .55] or names[-1:]
        disorder = py.random() < .15
        if disorder:
            py.shuffle(b)
        sa = [1 if py.random() < .2 else size[n] for n in a]
        sb = [1 if py.random() < .2 else size[n] for n in b]
        if py.random() < .2:
            b, sb = list(a), list(sa)
        bad = [n for n in a if n in b and py.random() < .1]
        for n in bad:
            sb[b.index(n)] = sa[a.index(n)] + py.choice(
                [1, 2, -1] if sa[a.index(n)] > 2 else [1, 2])
        p = rng.integers(1, 9, sa) * py.choice([1, 0.5, -1.0])
        q = rng.integers(1, 9, sb) * py.choice([1, 0.25, -2.0])
        case = (a, sa, b, sb)
        clash = [n for n in a if n in b and 1 not in (
            sa[a.index(n)], sb[b.index(n)])
            and sa[a.index(n)] != sb[b.index(n)]]
        p0, q0 = p.copy(), q.copy()
        with ck.guard('arrays', case):
            A, B = real.array(p, *a), real.array(q, dimensions=b)
            ck.check(A.shapemap == dict(zip(a, sa)) and A.shape == p.shape
                     and A.ndim == p.ndim and A.size == p.size, 'shapemap',
                     case)
            op = py.choice(OPS)
            if not ordered(a, b):
                ck.rejects('disorder', case, lambda: op(A, B),
                           (ValueError,))
            elif clash:
                ck.rejects('clash', case, lambda: op(A, B), (ValueError,))
            else:
                names = merge(a, b)
                want = op(meshed(_M(p, a), names), meshed(_M(q, b), names))
                r = op(A, B)
                ck.check(list(r.dimensions) == names
                         and np.array_equal(np.array(r), want)
                         and tuple(r.shape) == want.shape, 'broadcast', case,
                         lambda: f'{r!r} expected {names} {want}')
                x, y = A.remesh(B)
                ck.check(np.array_equal(op(np.array(x), np.array(y)), want),
                         'remesh', case)
                y, x = A.remesh(B, invert=True)
                back = merge(b, a)
                want = op(meshed(_M(p, a), back), meshed(_M(q, b), back))
                ck.check(np.array_equal(op(np.array(x), np.array(y)), want),
                         'remesh', case)
                ck.check(np.array_equal(np.array(np.multiply(A, B)),
                                        np.array(A * B)), 'ufunc', case)
            for s, o in (('+', operator.add), ('-', operator.sub)):
                if a == b and sa == sb:
                    r = o(A, B)
                    ck.check(np.array_equal(np.array(r), o(p, q))
                             and list(r.dimensions) == a, 'additive', case)
                elif a != b:
                    ck.rejects('additive-refuse', (s, case),
                               lambda: o(A, B), (ValueError,))
            k = py.choice([2, -0.5, 3.0])
            for o in OPS:
                r, t = o(A, k), o(k, A)
                ck.check(np.array_equal(np.array(r), o(p, k))
                         and np.array_equal(np.array(t), o(k, p))
                         and list(r.dimensions) == list(t.dimensions) == a,
                         'number', case)
            for r, w in ((-A, -p), (+A, p), (abs(A), abs(p)), (A ** 2, p ** 2)):
                ck.check(np.array_equal(np.array(r), w)
                         and list(r.dimensions) == a, 'unary', case)
            B2 = real.array(p.copy(), *a)
            ck.check(A == B2 and not A != B2 and (A == B) is (
                a == b and np.array_equal(p, q)), 'array-eq', case)
            order = py.sample(range(len(a)), len(a))
            new = [a[i] for i in order]
            for r in ((A.transpose(*order), A.transpose(*new),
                       A.transpose(tuple(new))) if len(a) > 1
                      else (A.transpose(*new),)):
                ck.check(np.array_equal(np.array(r), p.transpose(order))
                         and list(r.dimensions) == new, 'transpose', case)
            ck.check(np.array_equal(np.array(A), p0)
                     and np.array_equal(np.array(B), q0)
                     and np.array_equal(p, p0), 'arrays-kept', case)
            ck.rejects('ndim', case, lambda: real.array(p, *a, 'extra'),
                       (ValueError,))
            V = real.array(p)
            ck.check(list(V.dimensions) == [f'x{i}' for i in range(p.ndim)]
                     and np.array_equal(np.array(V * V), p * p), 'unnamed',
                     case)


class _M:
    def __init__(self, data, names):
        self.data, self.names = data, tuple(names)


def axes(ck):
    py = ck.py
    for _ in range(ck.scale(800, 12000)):
        names = py.sample(phys.NAMES, py.randint(1, 4))
        models = {n: phys.axis(py, py.randint(1, 4)) for n in names}
        case = (names, models)

        def same(X, order, table=None):
            table = table or models
            return list(X) == list(X.dimensions) == list(order) and all(
                phys.axis_ok(X[n], table[n]) for n in order)
        with ck.guard('axes', case):
            X = physical.axes({n: phys.given(py, m)
                               for n, m in models.items()})
            Y = physical.axes(dimensions=names, axes=[
                phys.given(py, m) for m in models.values()])
            Z = physical.axes(**{n: phys.given(py, m)
                                 for n, m in models.items()})
            ck.check(same(X, names) and same(Y, names) and same(Z, names),
                     'axes-create', case)
            ck.check(X == Y and Y == Z and not X != Y and X.copy() == X,
                     'axes-eq', case)
            sizes = [len(m[1]) for m in models.values()]
            plain = {n: ('points', list(range(k)), None)
                     for n, k in zip(names, sizes)}
            rows = {f'x{i}': a for i, a in enumerate(plain.values())}
            ck.check(
                same(physical.axes(shape=sizes, dimensions=names), names,
                     plain)
                and same(physical.axes(*sizes), list(rows), rows)
                and same(physical.axes(shape=tuple(sizes)), list(rows), rows)
                and same(physical.axes(axes=[
                    phys.given(py, m) for m in models.values()]), list(rows),
                    dict(zip(rows, models.values())))
                and same(physical.axes(shape=[9, 9], **{
                    n: phys.given(py, m) for n, m in models.items()}), names)
                and same(physical.axes({
                    n: phys.given(py, m) for n, m in models.items()},
                    shape=[9, 9]), names), 'axes-forms', case)
            ck.check(all(X[i] == X[n] == X[i - len(names)]
                         for i, n in enumerate(names)), 'axes-position', case)
            ck.rejects('axes-position-refuse', case,
                       lambda: X[len(names)], (KeyError,))
            for make in (
                lambda: physical.axes(shape=sizes, dimensions=names + ['w']),
                lambda: physical.axes(shape=sizes + [2], dimensions=names),
                lambda: physical.axes(axes=[[1]] * len(names),
                                      dimensions=names[1:] + ['w', 'v']),
                lambda: physical.axes(dimensions=names),
                lambda: physical.axes(),
            ):
                ck.rejects('axes-forms-refuse', case, make,
                           (TypeError, ValueError))
            order = py.sample(names, len(names))
            ck.check((X == X.extract(*order)) is (order == names), 'axes-eq',
                     (case, order))
            index = [names.index(n) for n in order]
            ck.check(same(X.extract(*order), order), 'axes-extract', case)
            ck.check(same(X.permute(order), order)
                     and same(X.permute(tuple(index)), order)
                     and (len(order) == 1 or same(X.permute(*order), order)
                          and same(X.permute(*index), order))
                     and same(X.permute(order=order), order), 'axes-permute',
                     case)
            some = order[:py.randint(1, len(order))]
            # -- which of two collections holds the other
            extra = dict.fromkeys(py.sample(['v', 'w'], py.randint(0, 2)))
            more = {**{n: models[n] for n in some},
                    **{n: phys.axis(py, py.randint(1, 3)) for n in extra}}
            P = physical.axes({n: phys.given(py, m)
                               for n, m in more.items()})
            a, b = set(names), set(more)
            ck.check(
                [X < P, X <= P, X > P, X >= P, P < X, P <= X, P > X, P >= X]
                == [a < b, a <= b, a > b, a >= b, b < a, b <= a, b > a,
                    b >= a]
                and (X <= X) is (X >= X) is True
                and (X < X) is (X > X) is False, 'axes-order',
                (case, list(more)))
            k = py.choice(some)
            kind = py.choice([i for i in ('points', 'symbols', 'coordinates')
                              if i != models[k][0]])
            other = phys.axis(py, len(models[k][1]), kind)
            while list(other[1]) == list(models[k][1]):
                # axes of two kinds with the same values compare equal
                other = phys.axis(py, len(models[k][1]), py.choice(
                    ['symbols', 'coordinates']))
            Q = physical.axes({
                n: phys.given(py, other if n == k else m)
                for n, m in more.items()})
            for s, op in ORDER:
                ck.rejects('axes-order-refuse', (s, case, k, kind),
                           lambda: op(X, Q), (ValueError,))
                ck.rejects('axes-order-refuse', (case, s, k, kind),
                           lambda: op(Q, X), (ValueError,))
                ck.rejects('axes-order-other', (s, case),
                           lambda: op(X, names), (TypeError,))
            S = X.extract(*some)
            ck.check(((S < X), (S <= X), (S > X), (S >= X), (X > S),
                      (X >= S)) == (len(some) < len(names), True, False,
                                    len(some) == len(names),
                                    len(some) < len(names), True),
                     'axes-order', (case, some))
            n = py.choice(names)
            ck.check(same(X.without(n), [k for k in names if k != n])
                     and same(X.without('none'), names), 'axes-without', case)
            ck.rejects('axes-without-refuse', case, lambda: X.without(
                'none', strict=True), (KeyError,))
            ck.rejects('axes-permute-refuse', case,
                       lambda: X.permute(*order[1:], 'none'),
                       (KeyError, ValueError))
            ck.rejects('axes-missing', case, lambda: X['none'], (KeyError,))
            ck.rejects('axes-extract-refuse', case, lambda: X.extract('none'),
                       (KeyError,))
            new = phys.axis(py, py.randint(1, 3))
            N = physical.axes({'new': phys.given(py, new)})['new']
            i = names.index(n)
            table = {**models, 'new': new}
            ck.check(same(X.replace(n, new=N),
                          names[:i] + ['new'] + names[i + 1:], table)
                     and same(X.replace(n, N), names, {**models, n: new}),
                     'axes-replace', case)
            ck.rejects('axes-replace-refuse', case,
                       lambda: X.replace('none', N), (KeyError,))
            for make in (lambda: X.replace(n, N, new=N),
                         lambda: X.replace(n, new=N, other=N),
                         lambda: X.replace(n), lambda: X.extract(),
                         lambda: X.permute(),
                         lambda: X.permute(names, order=names),
                         lambda: X.insert('new', N, before=n, index=0)):
                ck.rejects('axes-edit-refuse', case, make,
                           (TypeError, ValueError))
            ck.check(same(X.insert('new', N), names + ['new'], table)
                     and same(X.insert('new', N, index=i),
                              names[:i] + ['new'] + names[i:], table),
                     'axes-insert', case)
            ck.check(same(X | {'new': N}, names + ['new'], table), 'axes-or',
                     case)
            # merging keeps both orders and the longer of two axes
            other = {}
            for k in py.sample(phys.NAMES, 3):
                if k in models:
                    other[k] = models[k] if py.random() < .6 else phys.take(
                        models[k], py.randrange(len(models[k][1])))
                else:
                    other[k] = phys.axis(py, 2)
            O = physical.axes({k: phys.given(py, v) for k, v in other.items()})
            if ordered(names, list(other)):
                want = {}
                for k in merge(names, list(other)):
                    both = [t[k] for t in (models, other) if k in t]
                    want[k] = max(both, key=lambda m: len(m[1]))
                ck.check(same(X | O, list(want), want), 'axes-merge',
                         (case, other), lambda: f'{X | O!r}')
            else:
                ck.rejects('axes-merge-refuse', (case, other), lambda: X | O,
                           (ValueError,))
            # filling singular axes
            single = {k: phys.take(v, py.randrange(len(v[1])))
                      if py.random() < .5 else v for k, v in models.items()}
            F = physical.axes({k: phys.given(py, v)
                               for k, v in single.items()})
            ck.check(same(X + F, names) and same(F + X, names), 'axes-fill',
                     (case, single))
            ck.rejects('axes-fill-refuse', case, lambda: X + X.without(n),
                       (ValueError,))
            kind, v, u = models[n]
            if kind == 'points':
                wrong = {**models, n: (kind, [max(v) + 1], u)}
                W = physical.axes({k: phys.given(py, a)
                                   for k, a in wrong.items()})
                ck.rejects('axes-fill-refuse', (case, n), lambda: X + W,
                           (ValueError,))
            ck.check(same(X, names), 'axes-kept', case)
    for where in ('before', 'after'):
        X = physical.axes(x=range(2), y=range(3))
        new = physical.points([7])
        right = ['x', 'new', 'y'] if where == 'after' else ['new', 'x', 'y']
        wrong = ['x', 'new', 'y'] if where == 'before' else ['new', 'x', 'y']
        ck.probe('insert-before-after', where,
                 lambda: X.insert('new', new, **{where: 'x'}),
                 lambda r: list(r) == right, lambda r: list(r) == wrong)


def body(ck):
    dims(ck)
    arrays(ck)
    axes(ck)
    for e in ('or', 'xor', 'or-refuse', 'broadcast', 'disorder', 'clash',
              'additive', 'axes-merge', 'axes-fill', 'axes-merge-refuse'):
        ck.require(e, 10)


if __name__ == '__main__':
    sys.exit(harness.main('C08', RULE, body))

"""C12: array positions obey integer arithmetic and stay within bounds."""
import operator
import sys

from vlib import harness
from eprempy import container, measured, numeric

np = harness.numpy
RULE = (
    'random index values and sequences under every operator and argument '
    'form; random arrays, targets and bounds; distinct = distinct operands'
)
ARITH = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
         'floordiv': operator.floordiv, 'mod': operator.mod,
         'pow': operator.pow}
COMPARE = {n: getattr(operator, n) for n in ('eq', 'ne', 'lt', 'le', 'gt',
                                              'ge')}


def plain(x):
    if isinstance(x, numeric.index.Value):
        return int(x)
    if isinstance(x, numeric.index.Sequence):
        return [int(i) for i in x]
    return np.asarray(x).tolist()


def given(py, v):
    """One accepted way to make an index object holding `v`."""
    N = numeric.index
    if isinstance(v, int):
        return N.value(py.choice([
            lambda: v, lambda: str(v), lambda: np.int64(v), lambda: [v],
            lambda: (v,), lambda: np.array([v]), lambda: np.array(v),
            lambda: N.value(v), lambda: N.sequence([v]),
            lambda: measured.value(v, '1')])())
    forms = [lambda: list(v), lambda: tuple(v), lambda: np.array(v),
             lambda: [str(i) for i in v], lambda: N.sequence(list(v)),
             lambda: [N.value(i) for i in v],
             lambda: [np.int64(i) for i in v],
             lambda: measured.sequence(list(v), '1')]
    if len(v) > 1 and all(b - a == 1 for a, b in zip(v, v[1:])):
        forms.append(lambda: range(v[0], v[-1] + 1))
    if len(v) == 1:
        forms += [lambda: np.array(v[0]), lambda: v[0],
                  lambda: np.array([v])]
    return N.sequence(py.choice(forms)())


def algebra(ck):
    py = ck.py
    N = numeric.index
    for _ in range(ck.scale(9000, 60000)):
        n = harness.length(py, 1, 5)

        def one():
            k = py.choice(['value', 'sequence', 'int', 'sequence'])
            if k == 'sequence':
                v = [py.randint(-6, 9) for _ in range(n)]
                if py.random() < .2:
                    v = list(range(v[0], v[0] + n))
                return v, given(py, v)
            v = py.randint(-6, 9)
            return v, v if k == 'int' else given(py, v)
        (a, A), (b, B) = one(), one()
        if isinstance(A, int) and isinstance(B, int):
            B = N.value(b)
        name = py.choice([*ARITH, *COMPARE])
        f = (ARITH | COMPARE)[name]
        case = (name, a, b, type(A).__name__, type(B).__name__)
        pa, pb = (np.array(x, dtype=object) for x in (a, b))
        for x, X in ((a, A), (b, B)):
            ck.check(plain(X) == x, 'hold', (x, type(X).__name__),
                     lambda: repr(X))
        with ck.guard(name, case):
            if name in ('floordiv', 'mod') and (
                    b == 0 or isinstance(b, list) and 0 in b):
                continue
            if name == 'pow' and (np.array(b) < 0).any():
                ck.rejects('pow-negative', case, lambda: f(A, B),
                           (ValueError,))
                continue
            want = f(pa, pb)
            want = want.tolist() if isinstance(want, np.ndarray) else want
            if max(map(abs, want if isinstance(want, list)
                       else [want])) >= 2 ** 62:
                continue
            got = f(A, B)
            ck.check(plain(got) == want, name, case,
                     lambda: f'got {got!r}; expected {want}')
            if name in ARITH:
                kind = N.Sequence if isinstance(want, list) else N.Value
                ck.check(isinstance(got, kind), f'{name}-kind', case,
                         lambda: repr(got))
            ck.check(plain(A) == a and plain(B) == b, 'operands-kept', case)
        if isinstance(A, int):
            continue
        with ck.guard('unary', a):
            for g in (operator.neg, operator.pos, abs):
                want = [g(i) for i in a] if isinstance(a, list) else g(a)
                got = g(A)
                ck.check(plain(got) == want and type(got) is type(A),
                         'unary', (g.__name__, a), lambda: repr(got))
            lo = py.choice([None, py.randint(-4, 3)])
            hi = py.choice([None, py.randint(lo if lo is not None else 0, 9)])
            s = py.randint(-5, 5)
            clip = lambda i: max(
                i + s, lo) if lo is not None and i + s < lo else (
                min(i + s, hi) if hi is not None else i + s)
            want = [clip(i) for i in a] if isinstance(a, list) else clip(a)
            got = A.shift(py.choice([int, N.value])(s), floor=lo, ceil=hi)
            ck.check(plain(got) == want and type(got) is type(A), 'shift',
                     (a, s, lo, hi), lambda: f'{got!r}; expected {want}')
            ck.check(plain(A) == a, 'shift-kept', a)
            if isinstance(a, list):
                ck.check(len(A) == len(a) and all(
                    plain(A[i]) == a[i] for i in range(-len(a), len(a)))
                    and plain(A[1:]) == a[1:], 'items', a)
                data = np.arange(100) * 1.5
                ck.check(np.array_equal(data[np.array(A)],
                                        data[np.array(a)]), 'take', a)
            else:
                ck.check('abcdefghijklmnop'[A] == 'abcdefghijklmnop'[a]
                         and int(A) == a and list(range(30))[A:][:1]
                         == list(range(30))[a:][:1], 'python-index', a)
        with ck.guard('refuse', a):
            bad = py.choice([1.5, 'x', [1.5, 2], None, np.array([1.5]),
                             measured.value(1, 'm'), [[1, 2], [3, 4]],
                             np.array([[1, 2], [3, 4]])])
            make = N.value if isinstance(bad, (float, str)) else py.choice(
                [N.value, N.sequence])
            ck.rejects('refuse-make', (repr(bad), make.__name__),
                       lambda: make(bad), (TypeError, ValueError))


def bounds(ck):
    """`restrict` gives the smallest index range that brackets every target."""
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(4500, 30000)):
        rows, n = py.choice([None, 2, 3]), harness.length(py, 2, 8)
        if rows is None:
            data = np.sort(rng.choice(np.arange(40) / 4, n, replace=False))
            axis, data_rows = py.choice([0, -1]), [data]
        else:
            data = np.array([np.sort(rng.choice(np.arange(40) / 4, n,
                                                replace=False))
                             for _ in range(rows)])
            data_rows = list(data)
            axis = py.choice([1, -1])
        t = [py.choice([float(py.choice(list(data.ravel()))),
                        py.uniform(-1, 11)])
             for _ in range(py.choice([1, 1, 2, 3]))]
        case = (data.tolist(), t)

        def bracket(row, x):
            below = [i for i in range(n) if row[i] <= x]
            above = [i for i in range(n) if row[i] >= x]
            return (max(below) if below else 0,
                    min(above) if above else n - 1)
        pairs = [bracket(r, x) for r in data_rows for x in t]
        want = range(min(p[0] for p in pairs), max(p[1] for p in pairs) + 1)
        with ck.guard('restrict', case):
            got = numeric.index.restrict(data, *t, axis=axis)
            ck.check(isinstance(got, range) and list(got) == list(want),
                     'restrict', case, lambda: f'{got}; expected {want}')
            if rows:
                got = numeric.index.restrict(data.T, *t, axis=0)
                # bounds of the transposed array are arranged in columns
                ck.saw('restrict-columns', case)
    ck.rejects('restrict-none', (), lambda: numeric.index.restrict(
        np.arange(3.), axis=0), (ValueError,))


def nearest(ck):
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(4500, 30000)):
        shape = py.choice([(harness.length(py, 1, 8),), (py.randint(1, 8),), (2, 3),
                           (2, 2, 2)])
        data = np.round(rng.uniform(-10, 10, shape), 3)
        if len(shape) == 1 and py.random() < .5:
            data = np.sort(data)
        t = py.choice([float(data.flat[py.randrange(data.size)]),
                       py.uniform(-12, 12)])
        for bound in (None, 'lower', 'upper'):
            ok = [i for i, x in enumerate(data.flat) if bound is None
                  or (x >= t if bound == 'lower' else x <= t)]
            case = (data.tolist(), t, bound)
            if not ok:
                continue
            with ck.guard('nearest', case):
                given = data.tolist() if py.random() < .3 else data
                got = container.nearest(given, t, *([bound] if bound else []))
                d = min(abs(data.flat[i] - t) for i in ok)
                v = float(got.value)
                ck.check(abs(abs(v - t) - d) < 1e-12
                         and (bound != 'lower' or v >= t)
                         and (bound != 'upper' or v <= t)
                         and data[got.index] == v
                         and (data.ndim == 1 or len(got.index) == data.ndim),
                         f'nearest-{bound}', case, lambda: repr(got))


def ellipsis(ck):
    """An ellipsis stands for as many whole dimensions as are missing."""
    py = ck.py
    N = numeric.index
    for _ in range(ck.scale(4500, 20000)):
        shape = [py.randint(1, 5) for _ in range(py.randint(1, 5))]
        data = np.arange(int(np.prod(shape))).reshape(shape)
        k = py.randint(0, len(shape))
        cut = py.randint(0, k)
        rest = len(shape) - k
        front = [py.choice([slice(None), slice(0, shape[i]),
                            py.randrange(shape[i])]) for i in range(cut)]
        back = [py.choice([slice(None), slice(0, 1),
                           py.randrange(shape[cut + rest + i])])
                for i in range(k - cut)]
        if not rest and back:
            continue  # an empty ellipsis is only defined at the end
        args = (*front, ..., *back)
        case = (shape, str(args))
        with ck.guard('ellipsis', case):
            got = N.expand(len(shape), args)
            ck.check(len(got) == len(shape) and np.array_equal(
                data[tuple(got)], data[args]), 'expand', case,
                lambda: str(got))
            ck.check(np.array_equal(
                data[N.resolve(tuple(shape), args)].ravel(),
                data[args].ravel()), 'resolve', case)
        # lists of positions select a block, one choice per dimension
        block = [py.choice([slice(None), py.randrange(n),
                            [py.randrange(n) for _ in range(py.choice([1, 2]))]
                            ]) for n in shape]
        if py.random() < .5 and len(block) > 1:
            i = py.randrange(1, len(block) + 1)
            j = py.randrange(i)
            block[j:i] = [...]
            if ... in block[:-1] and len(block) > len(shape):
                continue
        case = (shape, str(block))
        with ck.guard('block', case):
            full = list(block)
            if ... in full:
                i = full.index(...)
                full[i:i + 1] = [slice(None)] * (len(shape) - len(full) + 1)
            want = data
            for d, e in enumerate(full):
                if isinstance(e, slice):
                    continue
                want = np.take(want, [e] if isinstance(e, int) else e, axis=d)
            got = data[N.resolve(tuple(shape), tuple(block))]
            ck.check(np.array_equal(got.reshape(want.shape)
                                    if got.size == want.size else got, want),
                     'block', case)
        ck.rejects('two-ellipses', shape, lambda: N.expand(
            len(shape) + 2, (..., 0, ...)), (IndexError,))
        ck.rejects('too-many', shape, lambda: N.expand(
            len(shape), (0,) * (len(shape) + 1)), (IndexError,))


def body(ck):
    algebra(ck)
    bounds(ck)
    nearest(ck)
    ellipsis(ck)
    for e in (*ARITH, *COMPARE, 'shift', 'restrict', 'expand', 'block',
              'nearest-lower', 'nearest-upper', 'refuse-make', 'unary'):
        ck.require(e, 60)


if __name__ == '__main__':
    sys.exit(harness.main('C12', RULE, body))

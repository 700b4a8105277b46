"""C26: helper collections, paths, and wrappers keep their contracts."""
import abc
import collections
import contextlib
import fractions
import io
import itertools
import os
import pathlib
import sys

from vlib import harness
from eprempy import container, etc, exceptions, interfaces, paths

np = harness.numpy
RULE = (
    'random nested collections, mappings, tables, graphs, registries, '
    'functions that fail, and files given to every helper, against '
    'definitions of what each returns; distinct = distinct inputs'
)


class Vague:
    """A collection that is neither true nor false, as arrays are."""

    def __init__(self, members):
        self.members = members

    def __iter__(self):
        return iter(self.members)

    def __bool__(self):
        raise ValueError('ambiguous')


def things(py, n=None, pool='abcdefgh'):
    n = py.randint(0, 7) if n is None else n
    return [py.choice(pool) for _ in range(n)]


def some(py, depth=0):
    """A random object: a scalar, a string, or a collection."""
    kind = py.choice(['int', 'float', 'str', 'none', 'list', 'tuple', 'bytes',
                      'array', 'bool'] + ['list', 'tuple'] * (depth < 3))
    if kind == 'int':
        return py.randint(-3, 3)
    if kind == 'float':
        return py.choice([0.0, -0.5, 2.25])
    if kind == 'str':
        return ''.join(things(py, py.randint(0, 3)))
    if kind == 'none':
        return None
    if kind == 'bytes':
        return b'ab'[:py.randint(0, 2)]
    if kind == 'array':
        return np.arange(py.randint(0, 3))
    if kind == 'bool':
        return py.random() < 0.5
    items = [some(py, depth + 1) for _ in range(py.choice([0, 1, 1, 2, 3]))]
    return items if kind == 'list' else tuple(items)


def alike(a, b):
    """Equality that arrays do not spoil."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    return a is b or a == b


def iterable(x):
    return isinstance(x, (str, bytes, list, tuple, set, dict, np.ndarray,
                          range))


def stripped(x):
    while isinstance(x, (list, tuple)) and len(x) == 1:
        x = x[0]
    return x


def listed(x):
    if x is None:
        return []
    return list(x) if iterable(x) and not isinstance(x, str) else [x]


def counted(x):
    return sum(counted(y) if iterable(y) else 1 for y in x)


def collections_(ck):
    """Functions of arbitrary objects."""
    py = ck.py
    for _ in range(ck.scale(6000, 20000)):
        x = some(py)
        case = repr(x)
        with ck.guard('objects', case):
            sep = iterable(x) and not isinstance(x, (str, bytes))
            ck.check(container.isseparable(x) is sep, 'isseparable', case)
            ck.check(container.isiterable(x) is iterable(x), 'isiterable',
                     case)
            ck.check(alike(container.unwrap(x), stripped(x)), 'unwrap', case,
                     container.unwrap(x))
            ck.check(alike(container.wrap(x), listed(x)), 'wrap', case,
                     container.wrap(x))
            t = py.choice([list, tuple])
            ck.check(alike(container.unwrap(x, newtype=t),
                           t(listed(stripped(x)))), 'unwrap newtype', case,
                     container.unwrap(x, newtype=t))
            w = container.Wrapper(x)
            ck.check(len(w) == len(listed(x)) and alike(
                list(w), listed(x)) and alike(list(w), list(w))
                and str(w) == str(x), 'Wrapper', case, list(w))
            ck.check(all(a in w for a in listed(x) if not isinstance(
                a, (list, tuple, np.ndarray)) and not any(
                    isinstance(b, (list, tuple, np.ndarray))
                    for b in listed(x))), 'Wrapper in', case)
            ck.check(container.length(x) == (len(x) if iterable(x) else 0),
                     'length', case)
            if not isinstance(x, np.ndarray):
                shape = iterable(x) and len(x) > 0 and all(
                    isinstance(i, (int, np.integer)) for i in x)
                ck.check(bool(container.isshapelike(x)) is shape,
                         'isshapelike', case)
            strings = (str, bytes)
            flat = [x]
            while any(isinstance(i, (list, tuple)) for i in flat):
                flat = [j for i in flat for j in (
                    i if isinstance(i, (list, tuple)) else [i])]
            if not sep:
                ck.rejects('size', case, lambda: container.size(x),
                           (TypeError,))
            elif not any(isinstance(i, strings) for i in flat):
                ck.check(container.size(x) == counted(x), 'size', case)
            null = (False if isinstance(x, (bool, int, float))
                    else x.size == 0 if isinstance(x, np.ndarray)
                    else not x)
            ck.check(bool(etc.isnull(x)) is null, 'isnull', case)
            zero = py.choice([0j, np.int64(0), np.float64(0.0), False,
                              fractions.Fraction(0)])
            ck.check(etc.isnull(zero) is False, 'isnull', repr(zero))
            members = [py.choice([0, [], '', 'a', None])
                       for _ in range(py.randint(0, 3))]
            ck.check(etc.isnull(Vague(members)) is all(
                i is None or (not isinstance(i, int) and len(i) == 0)
                for i in members), 'isnull', ('vague', repr(members)))
            types = py.choice([int, str, float, (int, float), list])
            wrappers = py.sample([list, tuple, np.ndarray], py.randint(0, 2))
            strict = py.random() < 0.5
            want = isinstance(x, types)
            if not want and isinstance(x, tuple(wrappers)):
                want = (all if strict else any)(
                    isinstance(i, types) for i in x)
            ck.check(bool(container.hastype(
                x, types, *wrappers, strict=strict)) is want, 'hastype',
                (case, str(types), str(wrappers), strict))
            many = [some(py, 2) for _ in range(py.randint(1, 4))]
            first = next((a for a in many if isinstance(a, types)), None)
            ck.check(alike(container.find_first(types, *many), first),
                     'find_first', (repr(many), str(types)))
            ck.check(etc.allisinstance(types, *many) is all(
                isinstance(a, types) for a in many), 'allisinstance',
                (repr(many), str(types)))
    ck.rejects('allisinstance', 'none', lambda: etc.allisinstance(int),
               (TypeError,))
    for _ in range(ck.scale(2400, 8000)):
        x, y = things(py), things(py)
        case = (x, y)
        with ck.guard('lists', case):
            given = py.choice([x, tuple(x), iter(x)])
            want = list(dict.fromkeys(x))
            ck.check(container.unique(given) == want, 'unique', case)
            ck.check(container.unique(*x, strict=True) == want, 'unique',
                     case)
            if len(x) > 1:
                ck.check(container.unique(*x) == want, 'unique', case)
            ck.check(container.unique(x, strict=True) == [x], 'unique', case)
            merged(ck, list(dict.fromkeys(x)), list(dict.fromkeys(y)))
            if len(x):
                want = x[0] if len(x) == 1 else (
                    f'{x[0]} or {x[1]}' if len(x) == 2
                    else ', '.join(x[:-1]) + f', or {x[-1]}')
                ck.check(etc.join(iter(x), 'or') == want, 'join', case)
                ck.check(etc.join(x, 'or', quoted=True).replace("'", '')
                         == want and etc.join(x, quoted=True).count("'")
                         == 2 * len(x), 'join', case)
            a, b = py.choice([(x, y), (x, 'ab'), (3, y), (x, 2.5),
                              ('ab', tuple(y))])
            both = [p for p in itertools.product(
                a if isinstance(a, (list, tuple)) else [a],
                b if isinstance(b, (list, tuple)) else [b])]
            ck.check(list(container.distribute(a, b)) == both, 'distribute',
                     (a, b))
        ck.rejects('distribute', case, lambda: container.distribute(
            'ab', py.choice([1, 'cd', None])), (TypeError,))
        s = slice(py.choice([None, 0, 1, 4]), py.choice([None, 0, 3, 8]),
                  py.choice([None, 1, 2, 3]))
        stop = py.choice([None, 5, 9])
        case = (s, stop)
        if s.stop is None and stop is None:
            ck.rejects('slice2range', repr(case),
                       lambda: container.slice2range(s), (TypeError,))
        else:
            with ck.guard('slice2range', repr(case)):
                end = stop if s.stop is None else s.stop
                got = container.slice2range(s, stop=stop)
                ck.check(isinstance(got, range) and list(got) == list(
                    range(s.start or 0, end, s.step or 1)), 'slice2range',
                    repr(case), got)


def merged(ck, x, y):
    case = (x, y)
    common = set(x) & set(y)
    ordered = [a for a in x if a in common] == [a for a in y if a in common]
    if not ordered:
        ck.rejects('merge', case, lambda: container.merge(x, y),
                   (container.MergeError,))
        return
    got = container.merge(ck.py.choice([x, tuple(x), iter(x)]), y)
    # between common members, those of the first come before the second
    want, i, j = [], 0, 0
    for v in [a for a in x if a in common] + [None]:
        a = x.index(v) if v else len(x)
        b = y.index(v) if v else len(y)
        want += x[i:a] + y[j:b] + ([v] if v else [])
        i, j = a + 1, b + 1
    ck.check(got == want, 'merge', case, got)


def near(ck):
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(1600, 6000)):
        shape = py.choice([(5,), (1,), (8,), (3, 4), (2, 2, 3)])
        v = py.choice([rng.uniform(-5, 5, shape),
                       rng.integers(-9, 9, shape),
                       np.sort(rng.uniform(-5, 5, shape).ravel()).reshape(
                           shape)])
        t = py.choice([float(rng.uniform(-7, 7)), int(rng.integers(-9, 9)),
                       float(v.flat[0])])
        bound = py.choice([None, 'lower', 'upper'])
        case = (v.tolist(), t, bound)
        with ck.guard('nearest', case):
            got = container.nearest(
                py.choice([v, v.tolist()]), t, bound=bound)
            ck.check(np.shape(got.index) == (() if v.ndim == 1
                                             else (v.ndim,))
                     and v[got.index] == got.value, 'nearest', case, got)
            ok = (v >= t) if bound == 'lower' else (
                (v <= t) if bound == 'upper' else np.full(v.shape, True))
            if ok.any():
                ck.check(abs(got.value - t) == np.abs(v[ok] - t).min()
                         and bool(ok[got.index]), 'nearest', case, got)
                ck.saw(f'nearest {bound}', case)


def tables(ck):
    py = ck.py
    for _ in range(ck.scale(2000, 6000)):
        names = py.sample(['alpha', 'beta', 'gamma', 'delta'],
                          py.randint(1, 4))
        extra = py.random() < 0.3
        entries = []
        for k in range(py.randint(1, 7)):
            e = {n: py.choice('xyz') + (n[0] if py.random() < 0.5 else '')
                 for n in names}
            if extra and py.random() < 0.5:
                e['spare'] = 's'
            entries.append(e)
        keys = set.intersection(*map(set, entries))
        case = repr(entries)
        with ck.guard('table', case):
            t = container.Table(entries)
            ck.check(t.keys == keys and len(t) == len(entries)
                     and list(t) == entries, 'table', case, t.keys)
            for n in [*names, 'spare', 'nothing']:
                if n in keys:
                    col = tuple(e[n] for e in entries)
                    ck.check(t[n] == col and t.get(n, 0) == col, 'column',
                             (case, n))
                else:
                    ck.rejects('column', (case, n), lambda: t[n],
                               (container.TableKeyError,))
                    ck.check(t.get(n, 0) == tuple(
                        e.get(n, 0) for e in entries), 'column', (case, n))
            for v in ['x', 'xa', 'yb', 's', 'zd', 'q']:
                found = [e for e in entries if v in e.values()]
                if not found:
                    ck.rejects('find', (case, v), lambda: t.find(v),
                               (container.MissingValueError,))
                    continue
                ck.check(t.find(v) == found, 'find', (case, v))
                if len(found) == 1:
                    ck.check(t.find(v, unique=True) is found[0], 'find',
                             (case, v))
                else:
                    ck.rejects('find', (case, v),
                               lambda: t.find(v, unique=True),
                               (container.AmbiguousValueError,))
            for _ in range(6):
                chosen = py.sample(names, py.randint(1, len(names)))
                e = py.choice(entries)
                request = {n: e[n] if py.random() < 0.8 else 'x'
                           for n in chosen}
                asked(ck, t, entries, request, case)
            if not py.randrange(4):
                bad = {'nothing': 1}
                for strict in (True, False):
                    ck.rejects('no key', case,
                               lambda: t(strict=strict, **bad),
                               (container.TableKeyError,))


def asked(ck, t, entries, request, case):
    case = (case, repr(request))
    left, unique = list(entries), None
    for n, v in request.items():
        left = [e for e in left if e[n] == v]
        if len(left) == 1 and unique is None:
            unique = left[0]
    if len(left) == 1:
        ck.check(t(strict=True, **request) is left[0], 'strict', case)
    else:
        ck.rejects('strict', case, lambda: t(strict=True, **request),
                   (container.TableLookupError,))
    if unique is not None:
        ck.check(t(**request) is unique, 'iterative', case)
    else:
        ck.rejects('iterative', case, lambda: t(**request),
                   (container.AmbiguousRequestError if left
                    else container.TableLookupError,))
        ck.saw('ambiguous' if left else 'missing', case)


def mappings(ck):
    """Graphs, bijections, and registries."""
    py = ck.py
    for _ in range(ck.scale(1200, 4000)):
        edges = [(*py.sample('abcdef', 2), py.choice([2.0, 0.5, 4.0, 10.0]))
                 for _ in range(py.randint(0, 8))]
        case = repr(edges)
        known = {}
        with ck.guard('graph', case):
            cut = py.randint(0, len(edges))
            base, seen = {}, set()
            for a, b, w in edges[:cut]:
                base.setdefault((a, b), w)
            g = container.Graph(base)
            for a, b, w in [(*k, w) for k, w in base.items()] + edges[cut:]:
                known.setdefault((a, b), w)
                known.setdefault((b, a), 1 / w)
            for a, b, w in edges[cut:]:
                g.add_connection(a, b, w)
            del seen
            ck.check(set(g) == set(known) and len(g) == len(known)
                     and g.nodes == {n for k in known for n in k}, 'graph',
                     case, str(g))
            for a, b in itertools.permutations('abcdef', 2):
                there = (a, b) in known
                ck.check(((a, b) in g) is there, 'graph in', (case, a, b))
                if there:
                    ck.check(g.get_weight(a, b) == known[a, b], 'weight',
                             (case, a, b))
                    if known[a, b] == 1 / known[b, a]:
                        ck.saw('inverse weights', (case, a, b))
                else:
                    ck.rejects('weight', (case, a, b),
                               lambda: g.get_weight(a, b), (KeyError,))
            for a in 'abcdefg':
                ck.check(g.get_adjacencies(a) == {
                    k[1]: w for k, w in known.items() if k[0] == a},
                    'adjacencies', (case, a))
        pairs = {k: py.choice('uvwxyz') for k in things(py)}
        case = repr(pairs)
        if len(set(pairs.values())) < len(pairs):
            ck.rejects('bijection', case,
                       lambda: container.Bijection(pairs),
                       (container.InjectiveTypeError,))
        else:
            with ck.guard('bijection', case):
                b = container.Bijection(pairs)
                want = dict(pairs)
                given = py.choice(list(pairs) or [None])
                if given:
                    pairs[given] = 'changed'
                ck.check(dict(b) == want and dict(b.invert()) == {
                    v: k for k, v in want.items()}
                    and dict(b.invert().invert()) == want, 'bijection',
                    case, dict(b))
                for k, v in want.items():
                    ck.check(b.find(v) == k and b.find(v, 1) == k
                             and b[k] == v, 'bijection find', case)
                ck.rejects('bijection find', case, lambda: b.find('?'),
                           (KeyError,))
                ck.check(b.find('?', None) is None and b.find('?', 3) == 3,
                         'bijection find', case)
                ck.rejects('bijection find', case, lambda: b.find('?', 1, 2),
                           (TypeError,))
        registry(ck)


def named(name):
    def f():
        return name
    f.__name__ = f.__qualname__ = name
    return f


def registry(ck):
    """A history of registrations loses and renames nothing."""
    py = ck.py
    key = py.choice(['object', 'thing'])
    base = {k: py.choice([[1], {key: 2, 'unit': 'm'}])
            for k in things(py, py.randint(0, 3), 'abc')}
    with ck.guard('registry', repr(base)):
        r = container.ObjectRegistry(base, object_key=key)
        first = {k: v if isinstance(v, dict) else {key: v}
                 for k, v in base.items()}
        model, trail = dict(first), [repr(base)]
        other, copied = None, None
        for _ in range(py.randint(1, 12)):
            case = tuple(trail)
            op = py.choice(['plain', 'plain', 'named', 'overwrite', 'meta',
                            'reset', 'copy'])
            f = named(py.choice('abc'))
            before = set(model)
            meta = {}
            trail.append((op, f.__name__))
            if op == 'reset':
                r.reset()
                model = dict(first)
            elif op == 'copy':
                other, copied = r.copy(), dict(model)
            elif op in ('plain', 'meta'):
                if op == 'meta':
                    meta = {'unit': 's'}
                    got = r.register(**meta)(f)
                else:
                    got = py.choice([r.register, r.register()])(f)
                ck.check(got is f, 'registered', case)
                new = set(r) - before
                ck.check(len(new) == 1, 'one more', case, new)
                k = next(iter(new), None)
                ck.check(k is not None and (
                    k == f.__name__ if f.__name__ not in before
                    else k.startswith(f.__name__ + '_')), 'key', case, k)
                model[k] = {key: f, **meta}
            else:
                name = py.choice(['d', 'e', *before])
                trail[-1] += (name,)
                over = op == 'overwrite'
                r.register(name=name, overwrite=over)(f)
                new = set(r) - before
                if name in before and not over:
                    ck.check(len(new) == 1, 'kept apart', case, new)
                    name = next(iter(new))
                else:
                    ck.check(set(r) == before | {name}, 'named', case, new)
                model[name] = {key: f}
            ck.check(dict(r) == model and len(r) == len(model)
                     and all(k in r for k in model), 'registry', case,
                     lambda: f'{dict(r)}, not {model}')
            if other is not None:
                ck.check(dict(other) == copied, 'copy', case, dict(other))


class Odd(ValueError):
    pass


class Odder(Odd):
    pass


ERRORS = (ValueError, TypeError, KeyError, LookupError, ArithmeticError,
          ZeroDivisionError, Odd, Odder, UnicodeError)


def failures(ck):
    py = ck.py
    for _ in range(ck.scale(3200, 10000)):
        caught = py.sample(ERRORS, py.randint(0, 4))
        values = {e: py.choice([None, ..., 'sub', 0, e.__name__])
                  for e in caught}
        raised = py.choice([None, *ERRORS])
        args = tuple(py.choice([1, 'a', None])
                     for _ in range(py.randint(0, 2)))
        kwargs = {k: 1 for k in py.sample(['p', 'q'], py.randint(0, 2))}
        case = repr((caught, values, raised, args, kwargs))
        calls = []

        def f(*a, **k):
            calls.append((a, k))
            if raised:
                raise raised('told')
            return 'result'
        with ck.guard('wrapper', case):
            w = exceptions.Wrapper(f)
            for e, v in values.items():
                w2 = w.catch(e, v) if v is not None else w.catch(e)
                ck.check(w2 is w, 'catch', case)
            match = [t for t in raised.__mro__ if t in values] if (
                raised) else []
            if raised and not match:
                ck.rejects('unknown', case,
                           lambda: w.compute(*args, **kwargs), (raised,))
                ck.check(len(calls) == 1, 'called', case)
                continue
            got = w.compute(*args, **kwargs)
            if not raised:
                want = 'result'
            else:
                want = values[match[0]]
                if want is ...:
                    want = ((args, kwargs) if args and kwargs
                            else kwargs if kwargs
                            else args[0] if len(args) == 1 else args)
                ck.saw('substituted', case)
            ck.check(got == want and calls == [(args, kwargs)], 'wrapper',
                     case, got)
        old = py.choice(ERRORS)
        new = py.choice([None, 'value', 0, RuntimeError, Odder])
        message = py.choice([None, 'so it goes'])
        with ck.guard('convert', (case, old, new)):
            g = exceptions.convert(old, new, message=message)(f) if (
                False) else exceptions.convert(old, new, message)(f)
            ck.check(g.__name__ == 'f', 'convert', case)
            try:
                got = ('value', g(*args, **kwargs))
            except Exception as err:
                got = ('raised', type(err), str(err), err.__cause__)
            case = repr((case, old, new, message))
            if raised and issubclass(raised, old):
                if isinstance(new, type):
                    ck.check(got[:2] == ('raised', new)
                             and got[2] == (message or '')
                             and isinstance(got[3], raised), 'converted',
                             case, got)
                    ck.saw('converted', case)
                else:
                    ck.check(got == ('value', new), 'converted', case, got)
            elif raised:
                ck.check(got[:2] == ('raised', raised), 'passed on', case,
                         got)
            else:
                ck.check(got == ('value', 'result'), 'passed on', case, got)


class A:
    pass


class B(A):
    pass


class C(B):
    pass


class E(A):
    pass


def types(ck):
    for a, b in itertools.product((A, B, C, E), repeat=2):
        case = (a.__name__, b.__name__)
        want = a if issubclass(a, b) else b if issubclass(b, a) else None
        if want:
            ck.check(etc.widest(a(), b()) is want, 'widest', case)
        else:
            ck.rejects('widest', case, lambda: etc.widest(a(), b()),
                       (ValueError,))
        for base in (A, B):
            if issubclass(a, base) and issubclass(b, base):
                ck.check(etc.widest(a(), b(), base) is (want or base),
                         'widest', (*case, base.__name__))
            else:
                ck.rejects('widest', (*case, base.__name__),
                           lambda: etc.widest(a(), b(), base), (TypeError,))


def singles(ck):
    """Instance sets make each instance once."""
    py = ck.py
    for n in range(ck.scale(80, 200)):
        class Meta(etc.InstanceSet):
            _instances = {}

            def _generate_key(self, *args, **kwargs):
                return args, tuple(sorted(kwargs.items()))

        class Thing(metaclass=Meta):
            made = []

            def __init__(self, *args, **kwargs):
                self.made.append((args, kwargs))
                self.args = args

        seen = {}
        for _ in range(20):
            args = tuple(py.choices('ab', k=py.randint(0, 2)))
            kwargs = {k: 1 for k in py.sample('pq', py.randint(0, 2))}
            key = args, tuple(sorted(kwargs.items()))
            new = Thing(*args, **kwargs)
            ck.check(seen.setdefault(key, new) is new and new.args == args,
                     'instance', (n, key))
        ck.check(len(Thing.made) == len(seen) == len(
            set(map(id, seen.values()))), 'instances', n)


    for n in range(10):
        class One(etc.Singleton):
            pass

        class Two(etc.Singleton):
            pass

        one, two = One(), Two()
        ck.check(One() is one and Two() is two and one is not two
                 and type(one) is One and type(two) is Two, 'singleton', n)
    none = etc.Nothing
    ck.check(len(none) == 0 and list(none) == [] and not none
             and none['x'] is None and none[3] is None and none(1, a=2) is None
             and 'x' not in none and None not in none
             and type(none)() is none, 'nothing', 'nothing')
    ck.rejects('nothing', 'next', lambda: next(none), (StopIteration,))
    for s, value, truth in ((etc.PASS, True, True), (etc.FAIL, False, False),
                            (etc.NULL, None, False)):
        ck.check(s == value and bool(s) is truth and s == s
                 and hash(s) == hash(value) and s != 'x'
                 and all((s == t) is (s is t)
                         for t in (etc.PASS, etc.FAIL, etc.NULL)),
                 'sentinel', repr(s))
        ck.rejects('sentinel', repr(s), lambda: etc.sentinel('OTHER', s),
                   (etc.SentinelValueError,))
        ck.rejects('sentinel', repr(s), lambda: type(s)('OTHER', 5),
                   (etc.SentinelInitError,))
    for n in range(ck.scale(80, 100)):
        value = py.choice([n + 2, f'v{n}', (n,), -n - 2.5])
        s = etc.sentinel(f'S{n}', value)
        ck.check(s == value and s != -5 and bool(s) and str(s) == f'S{n}'
                 and hash(s) == hash(value) and s == s
                 and s != etc.PASS and s != etc.sentinel(f'T{n}', value),
                 'sentinel', (n, value))
        ck.saw('sentinel', (n, value))


def texts(ck):
    """Help texts come from the text of the object."""
    py = ck.py
    words = ['Write', 'the', 'Config', 'file', 'NOW', 'e.g.', 'x=1', 'to disk']
    for n in range(ck.scale(240, 600)):
        head = ' '.join(py.choices(words, k=py.randint(1, 5)))
        dot = py.choice(['', '.'])
        body = [' '.join(py.choices(words, k=py.randint(1, 9)))
                for _ in range(py.randint(1, 4))]
        pad = py.choice(['    ', '  ', ''])
        text = py.choice(['', '\n']) + '\n'.join(
            [head + dot, '', *(pad + line for line in body)])
        case = (text,)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            etc.underline(head)
        ck.check(out.getvalue().strip('\n').split('\n')
                 == [head, '-' * len(head)], 'underline', case, out.getvalue())

        def f():
            pass
        f.__doc__ = text
        target = py.choice([text, f])
        with ck.guard('help', case):
            ck.check(etc.doc2help(target) == head + dot
                     and etc.doc2help(target, 'summary') == head + dot,
                     'help summary', case, etc.doc2help(target))
            got = etc.doc2help(target, 'phrase')
            ck.check(got == head[0].lower() + (head + dot)[1:].rstrip('.'),
                     'help phrase', case, got)
            got = etc.doc2help(target, 'full')
            first, _, rest = got.partition('\n\n')
            ck.check(first == head + dot and rest.split()
                     == ' '.join(body).split()
                     and all(len(line) <= 70 for line in rest.split('\n')),
                     'help full', case, got)
            got = etc.doc2help(target, replacements={'file': 'FILE'})
            ck.check(got == (head + dot).replace('file', 'FILE'),
                     'help replacements', case, got)
            given = py.sample([1, 'a', None, 2.5, (1,)], py.randint(0, 3))
            named = dict(zip('xy', py.sample([1, 'a', None], py.randint(0, 2))))
            got = etc.strargs(*given, **named)
            ck.check(eval(f'(lambda *a, **k: (a, k))({got})') == (
                tuple(given), named), 'arguments', (given, named), got)
        ck.saw('help', case)


COMMENTS = ['#', '!', '//', ';']


def files(ck):
    py = ck.py
    root = ck.scratch()
    home = root / 'home'
    home.mkdir()
    keep = os.environ.get('HOME'), os.getcwd()
    os.environ['HOME'] = str(home)
    dirs = [root / d for d in ('one', 'two', 'one/deep', 'two/deep')]
    for d in dirs:
        d.mkdir()
    os.symlink(dirs[0], root / 'link')
    try:
        for n in range(ck.scale(240, 600)):
            placed(ck, root, home, dirs, n)
    finally:
        os.chdir(keep[1])
        if keep[0] is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = keep[0]
    for _ in range(ck.scale(1600, 4000)):
        body = ''.join(py.choice(['a', ' ', '=', '3', 'é', '\t'])
                       for _ in range(py.randint(0, 6)))
        marks = py.sample(COMMENTS, py.randint(0, 3))
        text = body
        for _ in range(py.randint(0, 3)):
            text += py.choice(COMMENTS) + py.choice(['', ' b', 'c '])
        cut = min([text.find(m) for m in marks if m in text] or [len(text)])
        ck.check(paths.strip_inline_comments(text, marks)
                 == text[:cut].strip(), 'comments', (text, marks),
                 lambda: repr(paths.strip_inline_comments(text, marks)))


def placed(ck, root, home, dirs, n):
    py = ck.py
    os.chdir(py.choice([*dirs, root, home]))
    here = pathlib.Path.cwd()
    name = f'f{n}.txt'
    where = py.sample([*dirs, here], py.randint(0, 3))
    lines = [py.choice(['key = 1', 'x = 2', '# no', '', 'key = 3', ' y =4'])
             + '\n' for _ in range(py.randint(0, 6))]
    for d in where:
        (d / name).write_text(''.join(lines))
    given = [py.choice([d, str(d), os.path.relpath(d),
                        str(d) + '/../' + d.name])
             for d in py.sample(dirs, py.randint(0, 3))]
    case = (n, name, str(here), [str(w) for w in where], list(map(str, given)))
    with ck.guard('paths', case):
        order = [pathlib.Path(os.path.realpath(g)) for g in given] + [here]
        want = next((d / name for d in order if (d / name).exists()), None)
        got = paths.search(py.choice([name, pathlib.Path(name)]), *given)
        ck.check(got == want, 'search', case, got)
        for d in where:
            short = {
                'plain': str(d / name), 'relative': os.path.relpath(d / name),
                'dots': f'{d}/../{d.name}/./{name}',
                'path': d / name}
            if d == dirs[0]:
                short['link'] = root / 'link' / name
            if d == home:
                short['home'] = f'~/{name}'
            real = pathlib.Path(os.path.realpath(d / name))
            for label, p in short.items():
                ck.check(paths.normalize(p) == real
                         and paths.fullpath(p) == real
                         and paths.fullpath(p, strict=True) == real,
                         'fullpath', (*case, label), paths.fullpath(p))
                loc = paths.localize(p, normalized=py.random() < 0.5)
                ck.check(loc == pathlib.Path(name), 'localize',
                         (*case, label), loc)
                ck.check(paths.file_lines(real) == len(lines), 'file_lines',
                         (*case, label))
                f = paths.TextFile(p)
                hit = {}
                for line in lines:
                    if '=' in line:
                        k, v = line.split('=')
                        hit[k.strip()] = v.strip()
                got = f.extract(
                    lambda s: s.split('=') if '=' in s else None,
                    lambda m: (m[0].strip(), m[1].strip()))
                ck.check(got == hit and f.path == real
                         and f.lines == lines and str(f) == str(real),
                         'extract', (*case, label), got)
        ghost = py.choice(dirs) / f'ghost{n}'
        ck.check(paths.fullpath(ghost) == ghost, 'fullpath', case)
        ck.rejects('fullpath', case,
                   lambda: paths.fullpath(ghost, strict=True),
                   (paths.NonExistentPathError,))
        forms = [lambda s: s + '.txt', lambda s: s + '.nc',
                 lambda s: pathlib.Path('deep') / (s + '.txt')]
        py.shuffle(forms)
        d = py.choice(dirs[:2])
        want = next((d / f(f'f{n}') for f in forms
                     if (d / f(f'f{n}')).exists()), None)
        got = paths.find_file_by_template(
            forms, f'f{n}', py.choice([d, str(d), os.path.relpath(d)]))
        ck.check(got == want, 'template', case, got)
        # by default, in the current directory
        home = os.getcwd()
        try:
            os.chdir(d)
            got = paths.find_file_by_template(forms, f'f{n}')
        finally:
            os.chdir(home)
        ck.check(got == want, 'template', (*case, 'here'), got)
        # programs and the like: the environment, the folder, or the path
        env = {} if py.random() < 0.5 or not where else {
            name: str(where[0] / name)}
        d = py.choice(dirs)
        want = (where[0] / name) if env else (
            d / name if (d / name).exists() else pathlib.Path(name))
        got = paths.locate(name, d, env)
        ck.check(got == want, 'locate', (*case, str(d), str(env)), got)


def commands(ck):
    """Command-line subcommands call the functions they are named after."""
    py = ck.py
    keep = sys.argv
    try:
        for n in range(ck.scale(160, 400)):
            calls = []
            cli = interfaces.CLI(prog='it')
            names = py.sample(['alpha', 'beta', 'gamma', 'delta'],
                              py.randint(1, 4))
            for name in names:
                def f(value='none', flag=False, name=name):
                    """Do a thing."""
                    calls.append((name, value, flag))
                f.__name__ = name

                def g(value='none', flag=False, f=f):
                    """Do a thing."""
                    f(value, flag)
                g.__name__ = name
                meta = {} if py.random() < 0.5 else {'epilog': 'end'}
                made = (cli.include(g) if not meta
                        else cli.include(**meta)(g))
                made('direct')
                ck.check(calls.pop() == (name, 'direct', False), 'direct',
                         (n, name))
                cli[name].add_argument('--value', default='given')
                cli[name].add_argument('--flag', action='store_true')
            ck.check(list(cli) == names and len(cli) == len(names),
                     'subcommands', (n, names), list(cli))
            name = py.choice(names)
            argv, want = [name], [name, 'given', False]
            if py.random() < 0.5:
                argv += ['--value', 'v7']
                want[1] = 'v7'
            if py.random() < 0.5:
                argv += ['--flag']
                want[2] = True
            sys.argv = ['it', *argv]
            with ck.guard('run', (n, argv)):
                cli.run()
                ck.check(calls == [tuple(want)], 'run', (n, argv), calls)
            ck.rejects('subcommand', n, lambda: cli['omega'], (KeyError,))
    finally:
        sys.argv = keep


def body(ck):
    collections_(ck)
    near(ck)
    tables(ck)
    mappings(ck)
    failures(ck)
    types(ck)
    singles(ck)
    texts(ck)
    files(ck)
    commands(ck)
    for event in ('wrap', 'merge', 'size', 'hastype', 'strict', 'iterative',
                  'registry', 'wrapper', 'search', 'extract', 'comments',
                  'graph', 'bijection', 'nearest lower', 'nearest upper',
                  'ambiguous', 'missing', 'substituted', 'converted', 'run',
                  'sentinel', 'help'):
        ck.require(event, 10)


if __name__ == '__main__':
    sys.exit(harness.main('C26', RULE, body))

"""C17: subscribing an observable gives that part of the whole."""
import sys

import numpy as np

from vlib import harness, observe, synth

RULE = (
    'random subscripts (integers, negatives, slices with steps, sequences '
    'with repeats and in any order, ranges, ellipses, species symbols, '
    'empty ranges) of every observable; distinct = distinct '
    '(file, system, observable, subscript) observations'
)
KINDS = ('int', 'neg', 'slice', 'reverse', 'full', 'tuple', 'list', 'any',
         'one', 'range', 'empty', 'grid')


def pick(ck, truth, letter, n):
    """A random index of one dimension and the positions it stands for."""
    py = ck.py
    kind = py.choice(KINDS)
    if kind == 'grid' and letter not in 'p':
        kind = 'int'
    if kind == 'int':
        i = py.randrange(n)
        return py.choice([i, np.int64(i)]), [i]
    if kind == 'neg':
        i = -py.randint(1, n)
        return i, [i % n]
    if kind == 'slice':
        a = py.choice([None, *range(-n, n)])
        b = py.choice([None, *range(-n, n + 1)])
        s = slice(a, b, py.choice([None, 1, 2, 3]))
        return s, list(range(n))[s]
    if kind == 'reverse':
        s = slice(None, None, -py.randint(1, 3))
        return s, list(range(n))[s]
    if kind in ('tuple', 'list'):
        v = sorted(py.sample(range(n), py.randint(1, n)))
        return (tuple(v) if kind == 'tuple' else v), v
    if kind == 'any':
        v = [py.randrange(-n, n) for _ in range(py.randint(1, 4))]
        return tuple(v), [i % n for i in v]
    if kind == 'one':
        i = py.randrange(n)
        return (i,), [i]
    if kind == 'range':
        a = py.randrange(n)
        r = range(a, n, py.choice([1, 2]))
        return r, list(r)
    if kind == 'empty':
        a = py.randrange(n + 1)
        return slice(a, a), []
    if kind == 'grid':
        i = py.randrange(n)
        return truth.run.species[i], [i]
    return slice(None), list(range(n))


def axes_of(truth, name, positions):
    out = {}
    for letter, p in zip(observe.TABLE[name][0], positions):
        key = observe.LETTER[letter]
        if letter in 'tem':
            out[key] = truth[key][list(p)], 'coordinate'
        elif letter == 's':
            out[key] = p, 'point'
        elif letter == 'p':
            out[key] = [truth.run.species[i] for i in p], 'symbol'
    return out


def subscribe(ck, s, truth, name, system, case):
    py = ck.py
    letters = observe.TABLE[name][0]
    whole = truth[name]
    args, positions = [], []
    for letter, n in zip(letters, whole.shape):
        if letter == 'M':
            args.append(slice(None))
            positions.append(list(range(n)))
            continue
        arg, where = pick(ck, truth, letter, n)
        args.append(arg)
        positions.append(where)
    form = py.random()
    if len(args) > 1 and form < 0.25:
        # an ellipsis in place of some leading, middle or trailing dimensions
        a = py.randrange(len(args))
        b = py.randint(a + 1, len(args))
        if name != 'intflux':
            for i in range(a, b):
                positions[i] = list(range(whole.shape[i]))
            args[a:b] = [...]
    if len(args) > 1:
        index = tuple(args)
    else:
        index = args[0]
    here = (*case, name, index)
    with ck.guard('subscribed', here):
        r = s[observe.spelled(py, name)][index]
        want = whole[np.ix_(*positions)]
        why = observe.differs(
            r, want, name, system, atol=1e-12,
            axes={} if name == 'intflux' else axes_of(
                truth, name, positions))
        ck.check(why is None, 'subscribed', here, why)
        if 0 in want.shape:
            ck.saw('empty')
        if ck.py.random() < 0.15 and want.size:
            # a part of the part
            cut = tuple(slice(0, max(1, n // 2)) for n in want.shape)
            again = np.array(r[cut], float)
            part = want[cut] * observe.scale(name, system)
            ck.check(np.allclose(again, part, rtol=1e-8,
                                 atol=1e-12 * np.abs(part).max()),
                     'part of part', here,
                     lambda: harness.describe(again, part))


def refuse(ck, s, truth, name, case):
    """Positions beyond the ends, and things that are no positions."""
    py = ck.py
    whole = truth[name]
    letters = observe.TABLE[name][0]
    if name == 'intflux':
        return
    i = py.randrange(len(letters))
    n = whole.shape[i]
    bad = py.choice([n, n + 3, -n - 1, (0, n), (0, -n - 1)])
    args = [0] * len(letters)
    args[i] = bad
    index = tuple(args) if len(args) > 1 else args[0]
    ck.rejects('beyond', (*case, name, index),
               lambda: np.array(s[name][index]), (IndexError,))
    if len(letters) > 1:
        many = (0,) * (len(letters) + 1)
        ck.rejects('too many', (*case, name, many),
                   lambda: np.array(s[name][many]), (IndexError,))
    if 'p' in letters:
        args = [0] * len(letters)
        args[letters.index('p')] = 'Q+'
        index = tuple(args) if len(args) > 1 else args[0]
        ck.rejects('no species', (*case, name, index),
                   lambda: np.array(s[name][index]), (ValueError,))


def body(ck):
    n = 0
    names = list(observe.TABLE)
    while n < ck.scale(7, 150) and ck.budget(150, 500):
        n += 1
        kind = ck.py.choice(['dist', 'flux'])
        run = synth.make_run(ck.rng, kind)
        system = ck.py.choice(['mks', 'cgs'])
        truth = observe.Truth(run)
        case = (n, kind, system, tuple(run.sizes.values()))
        with observe.observing(run, ck.scratch(), system=system) as s:
            for name in names:
                if not truth.has(name):
                    continue
                for _ in range(ck.scale(6, 12)):
                    subscribe(ck, s, truth, name, system, case)
                refuse(ck, s, truth, name, case)
    for event, k in {'subscribed': 400, 'beyond': 40, 'too many': 20,
                     'no species': 10, 'part of part': 20,
                     'empty': 20}.items():
        ck.require(event, k)


if __name__ == '__main__':
    sys.exit(harness.main('C17', RULE, body))

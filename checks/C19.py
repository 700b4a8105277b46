"""C19: combined observables equal the combination of observations."""
import contextlib
import fractions
import itertools
import re
import sys

import numpy as np

from eprempy import metric
from checks.C07 import merge
from vlib import harness, observe, si, synth

RULE = (
    'random algebraic and symbolic combinations of observables, whole, '
    'subscribed, interpolated, and converted, in both metric systems; '
    'distinct = distinct (file, system, combination, subscript)'
)
ELECTRIC = ('charge', 'br', 'btheta', 'bphi', 'bmag', 'rigidity')
LETTERS = {v: k for k, v in observe.LETTER.items()}


def names_for(truth, system):
    return [n for n in observe.TABLE
            if truth.has(n) and n not in ('f', 'intflux', 'mu')
            and not (system == 'cgs' and n in ELECTRIC)]


def word(py, name):
    """The name or an alias that is one plain word."""
    return py.choice([a for a in (name, *observe.ALIASES[name])
                      if re.fullmatch(r'[A-Za-z]\w*', a)])


class Conflict(Exception):
    """The parts have the same dimensions in different orders."""


class Part:
    """A combination: array (SI), dimension letters, and quantity."""

    def __init__(self, array, dims, make, text):
        self.array, self.dims, self.make, self.text = array, dims, make, text


def spread(a, b):
    """Two arrays over the union of their dimensions."""
    if [c for c in a.dims if c in b.dims] != [c for c in b.dims
                                              if c in a.dims]:
        raise Conflict
    dims = ''.join(merge(a.dims, b.dims))
    out = []
    for p in (a, b):
        x = np.moveaxis(
            p.array, range(p.array.ndim), range(p.array.ndim))
        order = sorted(range(len(p.dims)), key=lambda i: dims.index(p.dims[i]))
        x = np.transpose(x, order)
        have = [p.dims[i] for i in order]
        for i, c in enumerate(dims):
            if c not in have:
                x = np.expand_dims(x, i)
        out.append(x)
    return out, dims


def mergeable(dims):
    """Can these be multiplied in any order?"""
    for order in itertools.permutations(dims):
        total = ''
        for d in order:
            if [c for c in total if c in d] != [c for c in d if c in total]:
                return False
            total = ''.join(merge(total, d))
    return True


CONVERTED = {
    'r': ('au', 'km'), 'x': ('au', 'mm'), 'mfp': ('au', 'm'),
    'ur': ('km / s', 'au / day'), 'umag': ('cm / s', 'km / hour'),
    'rho': ('cm^-3', 'km^-3'), 'energy': ('MeV', 'keV', 'erg'),
    'time': ('day', 'hour'), 'divu': ('1 / day', 'min^-1'),
    'flux': ('1 / (cm^2 s sr MeV)', 'm^-2 s^-1 sr^-1 keV^-1'),
    'energy_density': ('erg / cm^3', 'MeV / m^3'), 'mass': ('g', 'kg'),
}


def leaf(py, s, truth, names):
    name = py.choice(names)
    alias = observe.spelled(py, name)
    if name in CONVERTED and py.random() < 0.4:
        unit = py.choice(CONVERTED[name])
        return Part(truth[name], observe.TABLE[name][0],
                    lambda: s[alias].withunit(unit), f'{alias} [{unit}]')
    return Part(truth[name], observe.TABLE[name][0],
                lambda: s[alias], alias)


def combine(py, s, truth, names, depth):
    if depth == 0 or py.random() < 0.25:
        return leaf(py, s, truth, names)
    how = py.choice(['*', '/', '**', '+', '-'])
    a = combine(py, s, truth, names, depth - 1)
    if how == '**':
        p = py.choice([2, 3, -1, 0.5, 1])
        if p == 0.5 and (a.array < 0).any():
            p = 2
        with np.errstate(all='ignore'):
            return Part(a.array ** p, a.dims, lambda: a.make() ** p,
                        f'({a.text})**{p}')
    if how in '+-':
        if how == '+':
            return Part(2 * a.array, a.dims, lambda: a.make() + a.make(),
                        f'({a.text} + {a.text})')
        return Part(a.array * 0, a.dims,
                    lambda: a.make() - a.make(), f'({a.text} - {a.text})')
    b = combine(py, s, truth, names, depth - 1)
    (x, y), dims = spread(a, b)
    with np.errstate(all='ignore'):
        if how == '*':
            return Part(x * y, dims, lambda: a.make() * b.make(),
                        f'({a.text}) * ({b.text})')
        return Part(x / y, dims, lambda: a.make() / b.make(),
                    f'({a.text}) / ({b.text})')


def siunit(unit):
    return float(si.evaluate(str(unit))[0])


def compare(ck, r, want, dims, event, case):
    """An observation in whatever unit it has against SI values."""
    got = np.array(r, float)
    if got.shape != want.shape:
        ck.check(False, event, case, f'shape {got.shape}, not {want.shape}')
        return
    got = got * siunit(r.unit)
    fine = np.isfinite(want) & (np.abs(want) < 1e250)
    fine &= (np.abs(want) > 1e-250) | (want == 0)
    ok = np.allclose(got[fine], want[fine], rtol=1e-7,
                     atol=1e-9 * np.abs(want[fine]).max(initial=0))
    if dims is not None:
        ok = ok and list(r.dimensions) == [observe.LETTER[c] for c in dims]
    ck.check(ok, event, case,
             lambda: f'{r.dimensions} {harness.describe(got, want)}')


def algebra(ck, s, truth, system, case):
    """Products, quotients, powers, sums, and differences of quantities."""
    py = ck.py
    names = names_for(truth, system)
    try:
        p = combine(py, s, truth, names, 2)
    except Conflict:
        return
    if p.array.size > 30000:
        return
    args, positions = [], []
    for n in p.array.shape:
        kind = py.choice(['full', 'full', 'int', 'slice', 'tuple'])
        where = list(range(n))
        if kind == 'int':
            where = [py.randrange(n)]
            args.append(where[0])
        elif kind == 'slice':
            a = py.randrange(n)
            where = where[a:]
            args.append(slice(a, None))
        elif kind == 'tuple':
            where = sorted(py.sample(where, py.randint(1, n)))
            args.append(tuple(where))
        else:
            args.append(slice(None))
        positions.append(where)
    index = tuple(args) if len(args) > 1 else args[0]
    here = (*case, p.text, index)
    with ck.guard('algebra', here):
        q = p.make()
        want = p.array[np.ix_(*positions)]
        compare(ck, q[index], want, p.dims, 'algebra', here)
        ok = list(q.dimensions) == [observe.LETTER[c] for c in p.dims]
        ck.check(ok, 'dimensions', here, q.dimensions)


def expression(ck, s, truth, system, case):
    """The same through text."""
    py = ck.py
    names = names_for(truth, system)
    parts = []
    for _ in range(py.randint(1, 3)):
        name = py.choice(names)
        power = fractions.Fraction(
            py.choice(['1', '1', '1', '2', '3', '-1', '1/2']))
        if power.denominator == 2 and (truth[name] < 0).any():
            power = fractions.Fraction(2)
        parts.append((name, power))
    if len({n for n, _ in parts}) != len(parts):
        return
    if not mergeable([observe.TABLE[n][0] for n, _ in parts]):
        return
    texts = []
    for name, power in parts:
        w = word(py, name)
        texts.append(w if power == 1 else f'{w}**{power}')
    form = py.choice(['*', ' ', '/', '()'])
    signs, ready = [1] * len(parts), False
    if len(parts) == 1:
        text = texts[0] if py.random() < 0.8 else f'1 / {texts[0]}'
        if text.startswith('1 /'):
            signs = [-1]
    elif form == '/':
        text = ' * '.join(texts[:-1]) + ' / ' + texts[-1]
        signs[-1] = -1
    elif form == '()':
        text = f'{texts[0]} / ({" * ".join(texts[1:])})'
        signs[1:] = [-1] * (len(parts) - 1)
    else:
        text = py.choice([' * ', '*']).join(texts) if form == '*' \
            else ' '.join(texts)
    with np.errstate(all='ignore'), contextlib.suppress(Conflict):
        total = None
        for (name, power), sign in zip(parts, signs):
            x = truth[name] ** float(power * sign)
            this = Part(x, observe.TABLE[name][0], None, None)
            if total is None:
                total = this
            else:
                (a, b), dims = spread(total, this)
                total = Part(a * b, dims, None, None)
        ready = True
    if not ready or total.array.size > 30000:
        return
    here = (*case, text)
    with ck.guard('symbolic', here):
        ck.check(text in s, 'member', here)
        q = s[text]
        r = q[:]
        dims = list(r.dimensions)
        want = np.transpose(
            total.array, [total.dims.index(LETTERS[d]) for d in dims])
        compare(ck, r, want, None, 'symbolic', here)
        again = s[text][:]
        ck.check(np.array_equal(np.array(again, float),
                                np.array(r, float), equal_nan=True),
                 'again', here)


def together(ck, s, truth, case):
    """Interpolating a combination combines the interpolations."""
    py = ck.py
    a, b = py.sample(['rho', 'ur', 'br', 'r', 'umag', 'divu'], 2)
    t = truth['time']
    i = py.randrange(len(t) - 1)
    w = py.uniform(0.1, 0.9)
    when = float((1 - w) * t[i] + w * t[i + 1]) / 3600, 'hour'
    r = truth['r']
    lo, hi = r.min(1).max(), r.max(1).min()
    where = slice(None)
    if lo < hi and py.random() < 0.6:
        where = float(py.uniform(lo, hi)) / synth.AU_M, 'au'
    index = (when, where)
    here = (*case, a, b, index)
    with ck.guard('together', here):
        x, y = s[a][index], s[b][index]
        for text, r, want in (
            ('*', (s[a] * s[b])[index],
             np.array(x, float) * np.array(y, float)),
            ('/', (s[a] / s[b])[index],
             np.array(x, float) / np.array(y, float)),
            ('**', (s[a] ** 2)[index], np.array(x, float) ** 2),
        ):
            got = np.array(r, float)
            ck.check(harness.close(got, want, 1e-9), 'together',
                     (*here, text), lambda: harness.describe(got, want))


def across(ck, s, truth, system, case):
    """The same for quantities that have different dimensions."""
    py = ck.py
    names = ['r', 'ur', 'rho', 'flux', 'mfp', 'energy', 'ar', 'time',
             'energy_density', 'average_energy', 'mass']
    a, b = py.sample(names, 2)
    da, db = observe.TABLE[a][0], observe.TABLE[b][0]
    t, r = truth['time'], truth['r']
    lo, hi = r.min(1).max(), r.max(1).min()
    i = py.randrange(len(t) - 1)
    w = py.uniform(0.1, 0.9)
    chosen = {
        't': py.choice([
            slice(None), py.randrange(len(t)),
            (float((1 - w) * t[i] + w * t[i + 1]) / 3600, 'hour')]),
        's': py.choice([
            slice(None), py.randrange(r.shape[1]),
            (float(py.uniform(lo, hi)) / synth.AU_M, 'au')
            if lo < hi else 0]),
        'p': 0, 'e': py.choice([slice(None), 0, (0, 1)]),
    }
    here = (*case, a, b, tuple(chosen.items()))
    if list(merge(da, db)) != [c for c in 'tspe' if c in da + db]:
        return

    def at(dims):
        index = tuple(chosen[c] for c in dims)
        return index if len(index) > 1 else index[0]

    with ck.guard('across', here):
        qa, qb = s[a], s[b]
        unit = py.choice(CONVERTED.get(a, (None,)))
        if unit and py.random() < 0.5:
            qa = qa.withunit(unit)
        parts = []
        for q, d in ((qa, da), (qb, db)):
            x = q[at(d)]
            parts.append(Part(np.array(x, float) * siunit(x.unit), d, None,
                              None))
        (x, y), dims = spread(*parts)
        for text, q, want in (('*', qa * qb, x * y), ('/', qa / qb, x / y)):
            got = q[at(dims)]
            compare(ck, got, want, None, 'across', (*here, text))
            named = ['radius' if c == 's' and isinstance(chosen['s'], tuple)
                     else observe.LETTER[c] for c in dims]
            ck.check(list(got.dimensions) == named, 'across',
                     (*here, text, 'dimensions'), got.dimensions)


def convert(ck, s, truth, system, case):
    """Converting before or after observing, and refusing to."""
    py = ck.py
    name, unit, value = py.choice([
        ('r', 'au', synth.AU_M), ('x', 'km', 1e3),
        ('ur', 'km / s', 1e3), ('umag', 'au / day', synth.AU_M / 86400),
        ('energy', 'MeV', synth.MEV_J), ('mfp', 'au', synth.AU_M),
        ('rho', 'cm^-3', 1e6), ('time', 'day', 86400),
        ('flux', '1 / (cm^2 s sr MeV)', 1e4 / synth.MEV_J),
        ('energy_density', 'erg / cm^3', 0.1),
        ('average_energy', 'keV', synth.MEV_J / 1e3),
        ('ar', '1 / hour', 1 / 3600), ('divu', 'day^-1', 1 / 86400),
        ('fluence', '1 / (cm^2 sr MeV)', 1e4 / synth.MEV_J),
    ])
    here = (*case, name, unit)
    with ck.guard('unit', here):
        q = s[name]
        want = truth[name] / value
        a = np.array(q.withunit(unit)[:], float)
        b = np.array(q[:].withunit(unit), float)
        c = np.array((q.withunit(unit) ** 2)[:].withunit(
            metric.unit(unit) ** 2), float)
        ok = (np.allclose(a, want, rtol=1e-8, atol=1e-12 * np.abs(want).max())
              and harness.close(a, b, 1e-10)
              and harness.close(c, b**2, 1e-9))
        ck.check(ok, 'unit', here, lambda: harness.describe(a, want))
        ok = (q.withunit(unit).unit == metric.unit(unit)
              and observe.sameunit(q.unit, observe.unit(name, system)))
        ck.check(ok, 'unit', (*here, 'unit'), q.unit)
    wrong = py.choice(['kg T', 'K', 'm^7', 'A'])
    ck.rejects('bad unit', (*case, name, wrong),
               lambda: s[name].withunit(wrong), (ValueError,))
    ck.rejects('bad unit', (*case, name, wrong, 'observed'),
               lambda: s[name][:].withunit(wrong), (ValueError,))


def mapping(ck, s, truth, case):
    """The observer as a mapping."""
    py = ck.py
    with ck.guard('mapping', case):
        keys = list(s)
        ck.check(len(keys) == len(set(keys)) == len(s), 'mapping', case)
        missing = [a for n in observe.TABLE
                   for a in (n, *observe.ALIASES[n]) if a not in keys]
        ck.check(not missing, 'mapping', (*case, 'all'), missing)
        for k in py.sample(keys, 5):
            ck.check(k in s and s[k] is not None, 'mapping', (*case, k))
    for bad in ('nope', 'lambda0', 'mfp / lambda0', 'phiOffset'):
        ck.rejects('no such', (*case, bad), lambda: s[bad], (KeyError,))
        ck.check(bad not in s and s.get(bad) is None, 'absent', (*case, bad))
    a, b = 'r', py.choice(['ur', 'rho', 'theta'])
    ck.rejects('unlike', (*case, a, b), lambda: s[a] + s[b], (ValueError,))
    ck.rejects('unlike', (*case, a, b), lambda: s[a] - s[b], (ValueError,))
    ck.rejects('unlike', (*case, 'flux', 'fluence'),
               lambda: s['flux'] + s['fluence'], (ValueError,))
    ck.rejects('unlike', (*case, a, 1), lambda: s[a] + 1, (TypeError,))


def direct(ck, s, truth, system, case):
    """The collection of observables that observers are built on."""
    from eprempy import observable
    py = ck.py
    with ck.guard('direct', case):
        q = observable.quantities(
            s.source, s.source.parent / 'eprem_input_file', system)
        for k in py.sample(sorted(observe.TABLE), 6) + ['ur / r']:
            if k == 'f' and truth.run.kind != 'dist':
                continue
            try:
                want = np.array(s[k][:], float)
            except KeyError:
                continue
            got = q[k if ' ' in k else py.choice([k, *observe.ALIASES[k]])]
            ck.check(np.array_equal(np.array(got[:], float), want,
                                    equal_nan=True)
                     and got.unit == s[k].unit, 'direct', (*case, k))
        ck.check(len(list(q)) == len(q) > 0, 'direct', case)
        for k in q:
            ck.check(k in q and q[k] is not None, 'direct', (*case, k))
    ck.rejects('direct refused', case, lambda: q['nope'], (KeyError,))


def sums(ck, s, truth, system, case):
    """Sums and differences of different quantities of one kind."""
    a, b = ck.py.choice([('x', 'y'), ('r', 'z'), ('ur', 'utheta'),
                         ('umag', 'upara'), ('theta', 'phi'),
                         ('divu', 'divu')])
    with ck.guard('sum', (*case, a, b)):
        k = observe.scale(a, system)
        for text, r, want in (
            ('+', s[a] + s[b], truth[a] + truth[b]),
            ('-', s[a] - s[b], truth[a] - truth[b]),
            ('+ converted', s[a].withunit('km') + s[b].withunit('km'),
             None) if a in 'xr' else ('+', s[a] + s[b], truth[a] + truth[b]),
        ):
            got = np.array(r[:], float)
            if want is None:
                want = (truth[a] + truth[b]) / 1e3 / k
            want = want * k
            ck.check(np.allclose(got, want, rtol=1e-9,
                                 atol=1e-12 * np.abs(want).max()),
                     'sum', (*case, a, text, b),
                     lambda: harness.describe(got, want))


def systems(ck, run, case):
    """The same run observed in either metric system."""
    out = {}
    for system in ('mks', 'cgs'):
        with observe.observing(run, ck.scratch(), system=system) as s:
            for name in observe.TABLE:
                if name == 'f' and run.kind != 'dist':
                    continue
                with ck.guard('systems', (*case, name)):
                    out[name, system] = np.array(s[name][:], float)
                    ck.check(
                        observe.sameunit(s[name].unit,
                                         observe.unit(name, system)),
                        'systems', (*case, name, system), s[name].unit)
    for name in observe.TABLE:
        if (name, 'cgs') not in out or (name, 'mks') not in out:
            continue
        a, b = out[name, 'mks'], out[name, 'cgs']
        k = observe.scale(name, 'cgs')
        ck.check(np.allclose(b, k * a, rtol=1e-8,
                             atol=1e-12 * np.abs(b).max()),
                 'systems', (*case, name),
                 lambda: harness.describe(b, k * a))


def body(ck):
    n = 0
    while n < ck.scale(6, 100) and ck.budget(150, 600):
        n += 1
        kind = ck.py.choice(['dist', 'flux'])
        run = synth.make_run(
            ck.rng, kind, sizes={'time': ck.py.randint(3, 5), 'shell': ck.py
                                 .randint(5, 7)})
        system = ck.py.choice(['mks', 'cgs'])
        truth = observe.Truth(run)
        case = (n, kind, system, tuple(run.sizes.values()))
        with observe.observing(run, ck.scratch(), system=system) as s:
            mapping(ck, s, truth, case)
            direct(ck, s, truth, system, case)
            for _ in range(ck.scale(12, 30)):
                algebra(ck, s, truth, system, case)
                expression(ck, s, truth, system, case)
            for _ in range(4):
                together(ck, s, truth, case)
                across(ck, s, truth, system, case)
                convert(ck, s, truth, system, case)
                sums(ck, s, truth, system, case)
        if n % 2:
            systems(ck, run, case)
    for event, k in {'algebra': 40, 'symbolic': 30, 'together': 30, 'across': 20,
                     'unit': 20, 'bad unit': 20, 'mapping': 20, 'sum': 20,
                     'systems': 100, 'no such': 20, 'unlike': 20}.items():
        ck.require(event, k)


if __name__ == '__main__':
    sys.exit(harness.main('C19', RULE, body))

"""C18: values between grid points come from linear interpolation."""
import sys

import numpy as np

from vlib import harness, observe, synth

RULE = (
    'random observations at times, radii, energies, and pitch angles on and '
    'between grid points, in any unit, mixed with positions; distinct = '
    'distinct (file, system, observable, subscript) observations'
)
UNITS = {
    'time': {'s': 1, 'day': 86400, 'hour': 3600, 'minute': 60},
    'energy': {'J': 1, 'MeV': synth.MEV_J, 'erg': 1e-7,
               'keV': synth.MEV_J / 1e3, 'GeV': synth.MEV_J * 1e3},
    'mu': {'1': 1},
    'radius': {'au': synth.AU_M, 'm': 1, 'cm': 1e-2, 'km': 1e3},
}
#: observables computed from the interpolated values of others
FORMULA = {'x': ('r', 'theta', 'phi'), 'y': ('r', 'theta', 'phi'),
           'z': ('r', 'theta'),
           **{k: ('br', 'btheta', 'bphi', 'ur', 'utheta', 'uphi')
              for k in ('bmag', 'umag', 'upara', 'uperp', 'angle')}}


def targets(ck, truth, key):
    """Values to interpolate to (SI, sorted or not) and how they were made."""
    py = ck.py
    if key == 'radius':
        r = truth['r']
        lo, hi = r.min(1).max(), r.max(1).min()
        if not lo < hi:
            return None, None
        how = py.choice(['between', 'bound', 'between'])
        t = [float(py.uniform(lo, hi)) for _ in range(py.randint(1, 3))]
        if how == 'bound':
            t[0] = float(py.choice([lo, hi]))
    else:
        g = truth[key]
        how = py.choice(['grid', 'between', 'mixed', 'bound'])
        t = []
        for _ in range(py.randint(1, 3)):
            i = py.randrange(len(g) - 1)
            on = how == 'grid' or how == 'mixed' and py.random() < 0.5
            w = py.choice([0.1, 0.4, 0.75])
            t.append(float(g[i] if on else g[i] * (1 - w) + g[i + 1] * w))
        if how == 'bound':
            t[0] = float(py.choice([g[0], g[-1]]))
    t = list(dict.fromkeys(t))
    if py.random() < 0.7:
        t.sort()
    return t, how


def expected(truth, name, ops):
    """The whole array with some dimensions replaced by targets."""
    letters = observe.TABLE[name][0]

    def apply(q):
        x, dims = truth[q], observe.TABLE[q][0]
        if 'radius' in ops and 's' in dims:
            x = observe.linear_radius(x, truth['r'], ops['radius'])
        for letter, key in (('t', 'time'), ('e', 'energy'), ('m', 'mu')):
            if key in ops and letter in dims:
                x = observe.linear(x, truth[key], dims.index(letter),
                                   ops[key])
        return x

    if name == 'rigidity' and 'energy' in ops:
        return truth.momentum(ops['energy']) / truth['charge'][:, None]
    if name == 'mfp':
        def g(q):
            if q == 'rigidity':
                return expected(truth, q, {
                    k: v for k, v in ops.items() if k == 'energy'})
            return truth[q] if q == 'charge' else apply(q)
        return truth._mfp(g)
    if name in FORMULA and ops:
        cache = {}

        def g(q):
            if q in FORMULA:
                return getattr(truth, f'_{q}')(g)
            if q not in cache:
                cache[q] = apply(q)
            return cache[q]
        return g(name)
    del letters
    return apply(name)


def observation(ck, s, truth, name, system, case):
    py = ck.py
    letters = observe.TABLE[name][0]
    keys = {'t': 'time', 's': 'radius', 'e': 'energy', 'm': 'mu'}
    able = [c for c in letters if c in keys]
    if name == 'v':
        return
    chosen = {py.choice(able)} if py.random() < 0.5 else {
        c for c in able if py.random() < 0.6}
    shape = truth[name].shape
    args, ops, positions, axes, hows = [], {}, {}, {}, []
    for i, (letter, n) in enumerate(zip(letters, shape)):
        key = keys.get(letter)
        if letter == 'M':
            args.append(slice(None))
            continue
        if letter in chosen:
            t, how = targets(ck, truth, key)
            if t is not None:
                unit = py.choice(list(UNITS[key]))
                args.append((*(x / UNITS[key][unit] for x in t), unit))
                ops[key] = t
                hows.append((key, how))
                if letter in 'tsem':
                    axes[key] = t, 'coordinate'
                continue
        kind = py.choice(['full', 'int', 'tuple', 'slice'])
        where = list(range(n))
        if kind == 'int':
            where = [py.randrange(n)]
            args.append(where[0])
        elif kind == 'tuple':
            where = sorted(py.sample(where, py.randint(1, n)))
            args.append(tuple(where))
        elif kind == 'slice':
            a = py.randrange(n)
            b = py.randint(a + 1, n)
            where = where[a:b]
            args.append(slice(a, b))
        else:
            args.append(slice(None))
        positions[i] = where
        if letter in 'te':
            axes[key] = truth[key][where], 'coordinate'
        elif letter == 'p':
            axes['species'] = [truth.run.species[j] for j in where], 'symbol'
        elif letter == 's':
            axes['shell'] = where, 'point'
    if not ops:
        return
    index = tuple(args) if len(args) > 1 else args[0]
    here = (*case, name, index, tuple(hows))
    with ck.guard('interpolated', here):
        r = s[observe.spelled(py, name)][index]
        want = expected(truth, name, ops)
        for i, where in positions.items():
            want = np.take(want, where, axis=i)
        if name == 'intflux':
            axes = {}
        # rounding of converted targets is magnified by differences
        why = observe.differs(r, want, name, system, rtol=1e-6, atol=1e-7,
                              axes=axes)
        event = ('interpolated' if any(h != 'grid' for _, h in hows)
                 else 'on the grid')
        ck.check(why is None, event, here, why)


def alone(ck, s, truth, system, case):
    """Interpolating on the grid changes nothing; r at a radius is it."""
    py = ck.py
    run = truth.run
    name = py.choice(['rho', 'flux', 'br', 'ar', 'mfp', 'fluence'])
    i = py.randrange(run.sizes['time'])
    t = float(truth['time'][i])
    rest = (slice(None),) * (len(observe.TABLE[name][0]) - 1)
    with ck.guard('same', (*case, name, i)):
        a = np.array(s[name][((t / 86400, 'day'), *rest)], float)
        b = np.array(s[name][(i, *rest)], float)
        ck.check(harness.close(a, b, 1e-9), 'same', (*case, name, i),
                 lambda: harness.describe(a, b))
    r, _ = targets(ck, truth, 'radius')
    if r:
        with ck.guard('radius', (*case, r)):
            got = np.array(s['r'][:, (*(x / synth.AU_M for x in r), 'au')])
            want = np.array([r] * run.sizes['time'])
            want = want * observe.scale('r', system)
            ck.check(harness.close(got, want, 1e-9), 'radius', (*case, r),
                     lambda: harness.describe(got, want))


def refuse(ck, s, truth, case):
    """Values beyond the grid, and units that do not fit."""
    py = ck.py
    names = [k for k in observe.TABLE if k not in (
        'v', 'intflux', 'rigidity', 'mfp', 'time', 'energy', 'mu', 'mass',
        'charge') and truth.has(k)]
    name = py.choice(names)
    letters = observe.TABLE[name][0]
    keys = {'t': 'time', 's': 'radius', 'e': 'energy', 'm': 'mu'}
    i = py.choice([i for i, c in enumerate(letters) if c in keys])
    key = keys[letters[i]]
    grid = truth['r'] if key == 'radius' else truth[key]
    span = grid.max() - grid.min()
    value = py.choice([grid.max() + 0.3 * span, grid.min() - 0.3 * span])
    args = [0] * len(letters)
    unit = py.choice(list(UNITS[key]))
    args[i] = (float(value) / UNITS[key][unit], unit)
    index = tuple(args) if len(args) > 1 else args[0]
    ck.rejects('beyond', (*case, name, index),
               lambda: np.array(s[name][index]), (ValueError,))
    wrong = {'time': 'm', 'radius': 's', 'energy': 's', 'mu': 's'}[key]
    args[i] = (1.0, wrong)
    bad = tuple(args) if len(args) > 1 else args[0]
    ck.rejects('wrong unit', (*case, name, bad),
               lambda: np.array(s[name][bad]), (ValueError, TypeError))


def body(ck):
    n = 0
    names = list(observe.TABLE)
    while n < ck.scale(6, 120) and ck.budget(150, 600):
        n += 1
        kind = ck.py.choice(['dist', 'flux'])
        run = synth.make_run(ck.rng, kind)
        system = ck.py.choice(['mks', 'cgs'])
        truth = observe.Truth(run)
        case = (n, kind, system, tuple(run.sizes.values()))
        with observe.observing(run, ck.scratch(), system=system) as s:
            for name in names:
                if not truth.has(name) or name in ('mass', 'charge'):
                    continue
                for _ in range(ck.scale(5, 10)):
                    observation(ck, s, truth, name, system, case)
            for _ in range(5):
                refuse(ck, s, truth, case)
                alone(ck, s, truth, system, case)
    for event, k in {'interpolated': 300, 'on the grid': 30, 'beyond': 20,
                     'wrong unit': 20, 'same': 20, 'radius': 20}.items():
        ck.require(event, k)


if __name__ == '__main__':
    sys.exit(harness.main('C18', RULE, body))

"""C16: particle observables follow their definitions on the run's numbers."""
import sys

import numpy as np
from scipy import integrate

from vlib import harness, observe, synth

RULE = (
    'random runs with full distributions or precomputed flux and random '
    'transport parameters (zero and negative powers included); distinct = '
    'distinct (file, system, parameters, observable) observations'
)
NAMES = ('rigidity', 'mfp', 'ar', 'flux', 'fluence', 'energy_density',
         'average_energy', 'intflux')
UNITS = {'MeV': synth.MEV_J, 'keV': synth.MEV_J / 1e3, 'erg': 1e-7,
         'J': 1.0, 'eV': synth.MEV_J / 1e6, 'GeV': synth.MEV_J * 1e3}


def parameters(py):
    out = {}
    for name, options in {
        'lambda0': [0.1, 0.5, 1, 2.25, 10.0],
        'mfpRadialPower': [0.0, 1.0, 2.0, -1.5, 1 / 3],
        'rigidityPower': [0.0, 0.3333, 0.5, 1.0, -0.25],
        'kperxkpar': [0.0, 0.01, 0.1, 1.0],
    }.items():
        if py.random() < 0.6:
            out[name] = py.choice(options)
    return out


def above(flux, energy, e):
    """Simpson's rule over the flux from an energy up."""
    if e <= energy[0]:
        return integrate.simpson(flux, x=energy)
    i = int(np.searchsorted(energy, e * (1 + 1e-9))) - 1
    lo, hi = energy[i], energy[i + 1]
    beta = np.log(flux[..., i + 1] / flux[..., i]) / np.log(hi / lo)
    y = flux[..., i:].copy()
    x = energy[i:].copy()
    y[..., 0] = flux[..., i] * (e / lo) ** beta
    x[0] = e
    return integrate.simpson(y, x=x)


def integral(ck, s, truth, system, case):
    """Integral flux above given energies, in any unit of energy."""
    py, run = ck.py, truth.run
    grid = truth['energy']
    nt, ns, npart, ne = truth['flux'].shape
    for _ in range(ck.scale(6, 15)):
        how = py.choice(['grid', 'between', 'below', 'several'])
        unit = py.choice(list(UNITS))

        def draw(kind):
            if kind == 'grid':
                return grid[py.randrange(ne - 1)]
            if kind == 'below':
                return grid[0] * py.uniform(0.1, 0.99)
            i = py.randrange(ne - 1)
            w = py.uniform(0.05, 0.95)
            return grid[i]**(1 - w) * grid[i + 1]**w
        kinds = ([how] if how != 'several' else
                 [py.choice(['grid', 'between', 'below'])
                  for _ in range(py.randint(2, 4))])
        given = [float(draw(k)) for k in kinds]
        arg = (*(e / UNITS[unit] for e in given), unit)
        sub = py.choice(['all', 'one', 'point'])
        flux = truth['flux']
        if sub == 'one':
            i = py.randrange(nt)
            flux, index = flux[i:i + 1], (i, slice(None), slice(None))
        elif sub == 'point':
            i, j, k = (py.randrange(n) for n in (nt, ns, npart))
            flux = flux[i:i + 1, j:j + 1, k:k + 1]
            index = (i, j, k)
        else:
            index = (slice(None),) * 3
        here = (*case, 'intflux', index, arg, kinds)
        with ck.guard('minimum energy', here):
            r = s[observe.spelled(py, 'intflux')][(*index, arg)]
            want = np.stack([above(flux, grid, e) for e in given], -1)
            why = observe.differs(r, want, 'intflux', system, rtol=1e-6,
                                  anyshape=True, axes={})
            ck.check(why is None, 'minimum energy', here, why)
    top = grid[-1] * py.choice([1.5, 10.0])
    ck.rejects('no such energy', (*case, 'intflux', top),
               lambda: s['intflux'][0, 0, 0, (top / synth.MEV_J, 'MeV')],
               (ValueError,))


def laws(ck, s, truth, params, system, case, got):
    """What follows from the definitions, among the observed values."""
    g = got
    if 'fluence' in g:
        ok = (bool(np.all(g['fluence'][0] == 0))
              and bool(np.all(np.diff(g['fluence'], axis=0) >= 0)))
        ck.check(ok, 'fluence grows', case)
    if 'average_energy' in g:
        # the mean lies within the energies per nucleon of equivalent speed
        v = truth['v'] * observe.scale('v', system)
        ok = bool(np.all(g['average_energy'] <= v.max()**2)
                  and np.all(g['average_energy'] >= 0))
        ck.check(ok, 'mean energy', case)
    if 'mfp' in g and params.get('rigidityPower') == 0:
        ck.check(bool(np.allclose(g['mfp'], g['mfp'][..., :1, :1])),
                 'power of zero', case)
    if 'ar' in g:
        ck.check(bool(np.all(g['ar'] >= 0)), 'acceleration', case)


def scaled(ck, n):
    """Twice the particles: twice the flux, the same average energy."""
    py = ck.py
    kind = py.choice(['dist', 'flux'])
    run = synth.make_run(ck.rng, kind)
    k = py.choice([2.0, 1e-3, 1e5])
    name = 'Dist' if kind == 'dist' else 'flux'
    more = synth.Run({**run.raw, name: k * run.raw[name]}, run.species,
                     kind, run.grid2d, run.sizes)
    case = (n, kind, k)
    with ck.guard('linear', case):
        out = []
        for r in (run, more):
            with observe.observing(r, ck.scratch()) as s:
                out.append({q: np.array(s[q][:], float) for q in (
                    'flux', 'fluence', 'intflux', 'energy_density',
                    'average_energy', 'ar')})
        for q, x in out[0].items():
            f = 1 if q in ('average_energy', 'ar') else k
            ck.check(np.allclose(out[1][q], f * x, rtol=1e-10), 'linear',
                     (*case, q), lambda: harness.describe(out[1][q], f * x))


def body(ck):
    n = 0
    while n < ck.scale(16, 200) and ck.budget(150, 450):
        n += 1
        py = ck.py
        kind = py.choice(['dist', 'flux'])
        run = synth.make_run(ck.rng, kind)
        params = parameters(py)
        system = py.choice(['mks', 'cgs'])
        truth = observe.Truth(run, params)
        case = (n, kind, system, tuple(sorted(params.items())))
        got = {}
        with observe.observing(run, ck.scratch(), params, system) as s:
            for name in NAMES:
                alias = observe.spelled(py, name)
                here = (*case, alias)
                with ck.guard('particles', here):
                    r = s[alias][:]
                    got[name] = np.array(r, float)
                    why = observe.differs(
                        r, truth[name], name, system, atol=1e-13,
                        axes=None if name != 'intflux' else {})
                    ck.check(why is None, 'particles', here, why)
                    if name != 'intflux' and why is None:
                        for key, (values, k) in observe.full_axes(
                                truth, name).items():
                            why = observe.axis_differs(
                                r.axes, key, values, k, system)
                            ck.check(why is None, 'particle axes',
                                     (*here, key), why)
            laws(ck, s, truth, params, system, case, got)
            integral(ck, s, truth, system, case)
    for k in range(ck.scale(3, 30)):
        scaled(ck, k)
    for event, k in {'particles': 30, 'minimum energy': 20,
                     'no such energy': 3, 'linear': 6,
                     'fluence grows': 3, 'particle axes': 50}.items():
        ck.require(event, k)


if __name__ == '__main__':
    sys.exit(harness.main('C16', RULE, body))

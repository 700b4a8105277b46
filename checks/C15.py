"""C15: derived positions and fields obey their vector definitions."""
import sys

import numpy as np

from vlib import harness, observe, synth

RULE = (
    'random and degenerate fields (parallel, antiparallel, perpendicular, '
    'single-component, polar, huge and tiny) on synthetic runs; distinct = '
    'distinct (file, system, observable) whole observations'
)
NAMES = ('x', 'y', 'z', 'bmag', 'umag', 'upara', 'uperp', 'angle', 'divu')
FIELDS = ('random', 'parallel', 'antiparallel', 'perpendicular', 'radial',
          'still', 'mixed')


def shape_fields(ck, run, how):
    """Give the run a field geometry; may make values hostile."""
    rng, raw = ck.rng, run.raw
    shape = raw['Br'].shape
    b = np.stack([raw['Br'], raw['Bt'], raw['Bp']])
    if how in ('parallel', 'antiparallel'):
        sign = 1 if how == 'parallel' else -1
        u = sign * b * rng.uniform(10, 100, shape)
    elif how == 'perpendicular':
        u = np.cross(b, rng.normal(size=(3, *shape)), axis=0) * 30
    elif how == 'radial':
        b[1:] = 0
        u = np.stack([raw['Vr'], 0 * raw['Vt'], 0 * raw['Vp']])
    elif how == 'still':
        u = np.zeros_like(b)
        u[rng.integers(3)] = rng.uniform(1, 9, shape)
    elif how == 'mixed':
        u = np.stack([raw['Vr'], raw['Vt'], raw['Vp']])
        u *= 10 ** rng.uniform(-6, 3, shape)
        b *= 10 ** rng.uniform(-6, 6, shape)
        b *= rng.choice([-1, 1], (3, *shape))
        raw['Rho'] = raw['Rho'] * 10 ** rng.uniform(-4, 4, shape)
    else:
        u = np.stack([raw['Vr'], raw['Vt'], raw['Vp']])
    for k, x in zip(('Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp'), [*b, *u]):
        raw[k] = x
    if how in ('radial', 'mixed'):
        raw['T'][0] = 0.0
        raw['T'][-1] = np.pi
        raw['P'][:, 0] = ck.py.choice([0.0, np.pi, -np.pi, 2 * np.pi])


def relations(ck, got, truth, how, case):
    """Identities between what was observed, in SI or cgs alike."""
    g = got

    def near(a, b, scale, rtol=1e-9):
        return bool(np.all(np.abs(a - b) <= rtol * np.abs(scale)))

    r = g['r']
    ok = near(g['x']**2 + g['y']**2 + g['z']**2, r**2, r**2)
    ck.check(ok, 'position', case)
    u, b = g['umag'], g['bmag']
    ok = near(g['upara']**2 + g['uperp']**2, u**2, u**2)
    ck.check(ok, 'components', case)
    ok = (np.all((g['angle'] >= 0) & (g['angle'] <= np.pi + 1e-12))
          and near(u * np.cos(g['angle']), g['upara'], u, 1e-8)
          and bool(np.all(g['uperp'] >= 0)))
    ck.check(ok, 'angle', case, g['angle'])
    if how in ('parallel', 'radial', 'antiparallel'):
        ok = (bool(np.all(g['uperp'] <= 1e-6 * u))
              and near(np.abs(g['upara']), u, u, 1e-7))
        ck.check(ok, 'aligned', case, (g['uperp'].ravel()[:5], u[0, 0]))
    if how == 'perpendicular':
        ck.check(near(g['uperp'], u, u, 1e-7), 'aligned', case)
    t, rho = truth['time'], g['rho']
    # mass is conserved exactly by a density that changes exponentially
    ck.check(bool(np.all(np.isfinite(g['divu']))) and np.all(
        np.isfinite(rho)), 'finite', case)


def steady(ck, n):
    """A density that does not change, or changes linearly."""
    run = synth.make_run(ck.rng, ck.py.choice(['dist', 'flux']))
    t = run.raw['time']
    rho0 = run.raw['Rho'][0]
    slope = ck.py.choice([0.0, 0.3, -0.1]) * rho0
    run.raw['Rho'] = rho0 + slope * (t - t[0])[:, None]
    case = (n, 'density', float(slope[0]))
    with ck.guard('divu', case):
        with observe.observing(run, ck.scratch()) as s:
            got = np.array(s['divu'][:], float)
        want = -slope / run.raw['Rho'] / 86400
        ck.check(np.allclose(got, want, rtol=1e-7, atol=1e-18),
                 'divu', case, lambda: harness.describe(got, want))


def body(ck):
    n = 0
    while n < ck.scale(21, 210) and ck.budget(150, 400):
        how = FIELDS[n % len(FIELDS)]
        n += 1
        run = synth.make_run(ck.rng, ck.py.choice(['dist', 'flux']))
        shape_fields(ck, run, how)
        system = ck.py.choice(['mks', 'cgs'])
        truth = observe.Truth(run)
        case = (n, how, system, run.sizes['time'], run.sizes['shell'])
        got = {}
        with observe.observing(run, ck.scratch(), system=system) as s:
            for name in (*NAMES, 'r', 'rho'):
                alias = observe.spelled(ck.py, name)
                here = (*case, alias)
                with ck.guard('derived', here):
                    obs = s[alias][:]
                    got[name] = np.array(obs, float)
                    want = truth[name]
                    if name in ('uperp', 'upara', 'angle'):
                        # differences of nearly equal numbers
                        big = (np.pi if name == 'angle' else truth['umag']
                               * observe.scale(name, system))
                        ok = (np.abs(got[name] - want * observe.scale(
                            name, system)) <= 1e-7 * big).all()
                        why = observe.differs(
                            obs, want, name, system, rtol=None,
                            axes=observe.full_axes(truth, name))
                        ck.check(ok and why is None, 'derived', here,
                                 why or got[name].ravel()[:5])
                        continue
                    why = observe.differs(
                        obs, want, name, system, atol=1e-15,
                        axes=observe.full_axes(truth, name))
                    ck.check(why is None, 'derived', here, why)
        if len(got) == len(NAMES) + 2:
            relations(ck, got, truth, how, case)
    for k in range(ck.scale(5, 40)):
        steady(ck, k)
    for event in ('derived', 'position', 'components', 'angle', 'aligned'):
        ck.require(event, 6)
    ck.require('divu', 3)


if __name__ == '__main__':
    sys.exit(harness.main('C15', RULE, body))

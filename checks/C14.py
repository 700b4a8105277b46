"""C14: raw observables are the file's numbers in the metric system."""
import math
import sys

import numpy as np

from eprempy import datafile, eprem, metric
from vlib import harness, observe, synth

RULE = (
    'random observer files of every size, kind, and stored unit; distinct = '
    'distinct (file, system, observable, alias) observations'
)
#: other units in which a file may store a variable, with the number of them
#: in one unit that EPREM writes (seconds, centimeters, and cm / s are
#: also electrical units in the other system, so the package refuses to guess their system)
STORED = {
    'time': [('day', 1.0), ('minute', 1440.0), ('hour', 24.0)],
    'R': [('km', synth.AU_M / 1e3), ('m', synth.AU_M)],
    'T': [('deg', 180 / math.pi)],
    'P': [('deg', 180 / math.pi)],
    **{k: [('T', 1e-9), ('G', 1e-5), ('uT', 1e-3)]
       for k in ('Br', 'Bt', 'Bp')},
    **{k: [('m/s', 1e3), ('m s^-1', 1e3), ('km s^-1', 1.0)]
       for k in ('Vr', 'Vt', 'Vp')},
    'Rho': [('m^-3', 1e6), ('1 / cm^3', 1.0), ('1 / m^3', 1e6)],
    'egrid': [('keV', 1e3), ('eV', 1e6), ('J', synth.MEV_J),
              ('erg', synth.MEV_J * 1e7)],
    'vgrid': [('km/s', 1e-5), ('m/s', 1e-2)],
    'Dist': [('s^3/cm^6', 1e-30), ('s^3/m^6', 1e-18), ('s^3 km^-6', 1.0)],
    'flux': [('1 / (cm^2 s sr MeV)', 1.0), ('# / cm^2 s sr keV', 1e-3),
             ('# / m^2 s sr MeV', 1e4)],
}
#: observable -> [(unit asked for, its value in SI)]
ASKED = {
    'T': [('nT', 1e-9), ('G', 1e-4), ('uG', 1e-10)],
    'm': [('au', synth.AU_M), ('km', 1e3), ('cm', 1e-2)],
    'm s^-1': [('km / s', 1e3), ('au / day', synth.AU_M / 86400),
              ('cm s^-1', 1e-2)],
    'm^-3': [('cm^-3', 1e6), ('1 / km^3', 1e-9)],
    's': [('day', 86400), ('hour', 3600), ('ms', 1e-3)],
    'J': [('MeV', synth.MEV_J), ('keV', synth.MEV_J / 1e3), ('erg', 1e-7)],
    'kg': [('g', 1e-3), ('nucleon', synth.NUC_KG)],
    'C': [('e', synth.E_C), ('mC', 1e-3)],
    'rad': [('deg', math.pi / 180)],
    's^3 m^-6': [('s^3 km^-6', 1e-18), ('s^3 / cm^6', 1e12)],
    'J^-1 s^-1 sr^-1 m^-2': [
        ('1 / (cm^2 s sr MeV)', 1e4 / synth.MEV_J),
        ('1 / (cm^2 s sr MeV/nuc)', 1e4 / synth.MEV_J),
    ],
}


#: the kinds of all axes
FULL = {'time': 'coordinate', 'shell': 'point', 'species': 'symbol',
        'energy': 'coordinate', 'mu': 'coordinate'}


def disguise(py, run):
    """What the same run looks like when written in other units."""
    raw, units = dict(run.raw), {}
    for name, options in STORED.items():
        if name in raw and py.random() < 0.4:
            units[name], n = py.choice(options)
            raw[name] = raw[name] * n
    out = synth.Run(raw, run.species, run.kind, run.grid2d, run.sizes)
    return out, units


def reunit(path, units):
    import netCDF4
    with netCDF4.Dataset(str(path), 'a') as nc:
        for name, unit in units.items():
            nc.variables[name].units = unit


def whole(ck, s, truth, run, system, case):
    """Every raw observable, under every name."""
    py = ck.py
    for name in observe.RAW:
        if not truth.has(name):
            continue
        if name == 'flux' and run.kind == 'dist':
            continue
        names = [name, *observe.ALIASES[name]]
        if not ck.thorough:
            names = py.sample(names, min(len(names), 3))
        for alias in names:
            here = (*case, name, alias)
            with ck.guard('raw', here):
                q = s[alias]
                why = observe.differs(
                    q[:], truth[name], name, system, rtol=1e-9,
                    axes=observe.full_axes(truth, name))
                ck.check(why is None, 'raw', here, why)
                ok = (observe.sameunit(q.unit, observe.unit(name, system))
                      and tuple(q.dimensions) == observe.dims(name))
                ck.check(ok, 'described', here, (q.unit, q.dimensions))
        with ck.guard('array', (*case, name)):
            got = np.array(s[name], dtype=float)
            want = truth[name] * observe.scale(name, system)
            ck.check(harness.close(got, want), 'array', (*case, name),
                     lambda: harness.describe(got, want))
        asked = ASKED.get(observe.TABLE[name][1])
        if asked:
            text, value = py.choice(asked)
            if system == 'cgs' and name in (
                    'charge', 'br', 'btheta', 'bphi'):
                continue
            here = (*case, name, text)
            factor = 1 / value
            with ck.guard('converted', here):
                first = s[name]
                q = first.withunit(text)
                r = q[:]
                late = first[:].withunit(text)
                back = first[:]
                want = truth[name] * factor
                ck.check(
                    harness.close(np.array(r, float), want)
                    and harness.close(np.array(late, float), want),
                    'converted', here,
                    lambda: harness.describe(np.array(r, float), want))
                ck.check(
                    observe.differs(back, truth[name], name, system)
                    is None, 'original kept', here, str(back.unit))


def observer(ck, s, truth, run, system, case):
    """The observer's own axes, and its dataview."""
    full = {'time': ('times', truth['time'], 'coordinate'),
            'species': ('species', run.species, 'symbol'),
            'energy': ('energies', truth['energy'], 'coordinate'),
            'mu': ('mus', truth['mu'], 'coordinate'),
            'shell': ('shells', range(run.sizes['shell']), 'point')}
    for key, (attr, values, kind) in full.items():
        with ck.guard('axes', (*case, attr)):
            why = observe.axis_differs(
                {key: getattr(s, attr)}, key, values, kind, system)
            ck.check(why is None, 'axes', (*case, attr), why)


def view(ck, path, run, units, case):
    """The format-agnostic view reports exactly what the file stores."""
    with ck.guard('view', case):
        v = datafile.view(path)
        ok = (v.sizes == run.sizes
              and {k: a.size for k, a in v.axes.items()} == run.sizes
              and v['sizes'] == v.sizes)
        ck.check(ok, 'view', (*case, 'sizes'), v.sizes)
        ck.check(set(v.arrays) == set(run.raw), 'view', (*case, 'names'),
                 sorted(v.arrays))
        for name, data in run.raw.items():
            a = v.arrays[name]
            ok = (np.array_equal(np.array(a), data)
                  and a.unit == units.get(name, synth.RAW_UNITS[name])
                  and v.units[name] == a.unit
                  and len(a.dimensions) == data.ndim)
            ck.check(ok, 'view', (*case, name), (a.unit, a.dimensions))
            i = tuple(ck.py.randrange(n) for n in data.shape)
            ck.check(float(a[i]) == float(data[i]), 'view',
                     (*case, name, i))
        scalar = v.scalars['preEruption']
        ck.check(float(scalar) == 1.5 and scalar.unit == 'julian date'
                 and set(v.scalars) == {'preEruption'},
                 'view', (*case, 'scalar'), repr(scalar))


def interfaces(ck, path, truth, run, system, case):
    """The axes, arrays, and grid of a file in a metric system."""
    py = ck.py
    with ck.guard('interface', case):
        axes = datafile.axes(path, system=system)
        arrays = datafile.arrays(path, system=system)
        grid = datafile.grid(path, system=system)
        order = list(FULL)
        py.shuffle(order)
        for key in order:
            values = {'species': run.species,
                      'shell': range(run.sizes['shell'])}.get(key)
            if values is None:
                values = truth[key]
            why = observe.axis_differs(axes, key, values, FULL[key], system)
            ck.check(why is None, 'interface', (*case, 'axis', key), why)
        ck.check(sorted(axes) == sorted(FULL) and len(axes) == len(FULL)
                 and {k: len(a) for k, a in axes.items()}
                 == {k: run.sizes[k] for k in FULL},
                 'interface', (*case, 'axes'), sorted(axes))
        ck.rejects('unknown axis', (*case, 'axes'), lambda: axes['nosuch'],
                   (KeyError,))
        names = [k for k in observe.RAW if k not in ('shell', 'flux', 'f')]
        py.shuffle(names)
        for name in names:
            why = observe.differs(
                getattr(arrays, name), truth[name], name, system,
                rtol=1e-9, anyshape=name in ('energy', 'v'))
            ck.check(why is None, 'interface', (*case, 'array', name), why)
        for name in ('r', 'theta', 'phi'):
            why = observe.differs(
                getattr(grid, name), truth[name], name, system, rtol=1e-9,
                axes=observe.full_axes(truth, name))
            ck.check(why is None, 'interface', (*case, 'grid', name), why)
        has = run.kind == 'dist'
        ck.check(arrays.hasdist is has and arrays.hasflux is not has
                 and (arrays.f is None) is not has
                 and (arrays.flux is None) is has,
                 'interface', (*case, 'particles'),
                 (arrays.hasdist, arrays.hasflux))
        name = 'f' if has else 'flux'
        why = observe.differs(
            getattr(arrays, name), truth[name], name, system, rtol=1e-9,
            axes=observe.full_axes(truth, name))
        ck.check(why is None, 'interface', (*case, 'array', name), why)
        ck.check([str(x) for x in arrays.species] == run.species
                 and list(arrays.shell) == list(range(run.sizes['shell'])),
                 'interface', (*case, 'species'), str(arrays.species))
        for x in (axes, arrays, grid):
            ck.check(x.source == path.resolve()
                     and x.system == metric.system(system), 'interface',
                     (*case, 'source'), (x.source, x.system))


def shuffle(ck, run):
    """Store energies, speeds, or pitch angles in an arbitrary order."""
    for name in ('egrid', 'vgrid', 'mu'):
        if name in run.raw:
            axis = run.raw[name]
            order = ck.rng.permutation(axis.shape[-1])
            run.raw[name] = np.ascontiguousarray(axis[..., order])


def body(ck):
    n = 0
    while n < ck.scale(14, 150) and ck.budget(150, 400):
        n += 1
        py = ck.py
        kind = py.choice(['dist', 'flux'])
        sizes = {}
        if py.random() < 0.3:
            sizes['mu'] = 1
        run = synth.make_run(ck.rng, kind, sizes=sizes)
        if py.random() < 0.5:
            shuffle(ck, run)
        stored, units = disguise(py, run) if n % 2 else (run, {})
        system = py.choice(['mks', 'cgs'])
        sid = py.choice([0, 1, 7, 12345, 999999])
        folder = ck.scratch()
        synth.write_run(stored, folder / f'obs{sid:06}.nc')
        reunit(folder / f'obs{sid:06}.nc', units)
        synth.write_config(folder / 'eprem_input_file',
                           {'numNodesPerStream': 100})
        s = eprem.stream(sid, source=folder, system=system)
        truth = observe.Truth(run)
        case = (n, kind, system, tuple(sorted(units.items())))
        whole(ck, s, truth, run, system, case)
        observer(ck, s, truth, run, system, case)
        view(ck, folder / f'obs{sid:06}.nc', stored, units, case)
        interfaces(ck, folder / f'obs{sid:06}.nc', truth, run, system, case)
    for event in ('raw', 'described', 'array', 'converted', 'axes', 'view',
                  'interface', 'original kept'):
        ck.require(event, 20)


if __name__ == '__main__':
    sys.exit(harness.main('C14', RULE, body))

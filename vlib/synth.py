"""Synthetic EPREM runs: netCDF observer files, config files.

The generator plays the part of EPREM: it writes files with the variable names,
dimensions and unit strings that EPREM writes, and keeps the raw values so that
an oracle can compute, from first principles and with plain numpy, what the
package ought to report.
"""

import dataclasses
import pathlib
import typing

import netCDF4
import numpy

#: EPREM's unit string, factor to MKS, factor to CGS (independent of eprempy)
C_CGS = 2.99792458e10
MEV_J = 1.6022e-13
NUC_KG = 1.6605e-27
E_C = 1.6022e-19
AU_M = 1.495978707e11

RAW_UNITS = {
    'phiOffset': 'rad',
    'time': 'julian date',
    'shell': 'shell',
    'mu': 'cos(mu)',
    'mass': 'nuc',
    'charge': 'e-',
    'egrid': 'MeV',
    'vgrid': 'cm/s',
    'R': 'au',
    'T': 'rad',
    'P': 'rad',
    'Br': 'nT',
    'Bt': 'nT',
    'Bp': 'nT',
    'Vr': 'km/s',
    'Vt': 'km/s',
    'Vp': 'km/s',
    'Rho': 'cm^-3',
    'Dist': 's^3/km^6',
    'flux': '# / cm^2 s sr MeV',
}

#: factor from the raw unit to (mks, cgs)
FACTORS = {
    'time': (86400.0, 86400.0),
    'phiOffset': (1.0, 1.0),
    'mu': (1.0, 1.0),
    'mass': (NUC_KG, NUC_KG * 1e3),
    'charge': (E_C, E_C * C_CGS / 10.0),
    'egrid': (MEV_J, MEV_J * 1e7),
    'vgrid': (1e-2, 1.0),
    'R': (AU_M, AU_M * 1e2),
    'T': (1.0, 1.0),
    'P': (1.0, 1.0),
    'Br': (1e-9, 1e-5),
    'Bt': (1e-9, 1e-5),
    'Bp': (1e-9, 1e-5),
    'Vr': (1e3, 1e5),
    'Vt': (1e3, 1e5),
    'Vp': (1e3, 1e5),
    'Rho': (1e6, 1.0),
    'Dist': (1e-18, 1e-30),
    'flux': (1e4 / MEV_J, 1.0 / (MEV_J * 1e7)),
}

SPECIES = [
    # mass [nuc], charge [e], symbol
    (1.0, 1.0, 'H+'),
    (4.0, 2.0, 'He++'),
    (4.0, 1.0, 'He+'),
    (16.0, 6.0, 'O++++++'),
    (12.0, 5.0, 'C+++++'),
    (56.0, 1.0, 'Fe+'),
]

DIMS = {
    'phiOffset': ('time',),
    'time': ('time',),
    'shell': ('shell',),
    'mu': ('mu',),
    'mass': ('species',),
    'charge': ('species',),
    **{k: ('time', 'shell') for k in
       ('R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho')},
    'Dist': ('time', 'shell', 'species', 'energy', 'mu'),
    'flux': ('time', 'shell', 'species', 'energy'),
}


@dataclasses.dataclass
class Run:
    """Raw content of one observer file."""
    raw: typing.Dict[str, numpy.ndarray]
    species: typing.List[str]
    kind: str # 'dist' or 'flux'
    grid2d: bool
    sizes: typing.Dict[str, int]
    path: typing.Optional[pathlib.Path] = None

    def si(self, name: str, system: str) -> numpy.ndarray:
        """Raw values scaled to the metric system."""
        return self.raw[name] * FACTORS[name][system == 'cgs']

    @property
    def egrid(self):
        x = self.raw['egrid']
        return x[0] if x.ndim == 2 else x


def make_run(
    rng,
    kind: str='dist',
    sizes: dict=None,
    grid2d: bool=None,
    nspecies: int=None,
) -> Run:
    """Create random but physically plausible content for an observer file."""
    sizes = dict(sizes or {})
    if rng.random() < 0.15:
        # longer along one dimension than any small number
        name = str(rng.choice(['time', 'shell', 'mu', 'energy']))
        sizes.setdefault(name, int(rng.integers(30, 131)))
    nt = sizes.get('time') or int(rng.integers(3, 9))
    ns = sizes.get('shell') or int(rng.integers(5, 12))
    nu = sizes.get('mu') or int(rng.integers(2, 6))
    ne = sizes.get('energy') or int(rng.integers(4, 10))
    np_ = nspecies or int(rng.choice([1, 1, 1, 2, 2, 3, 3, 6]))
    if grid2d is None:
        # A 1-D energy grid serves any number of species; a species-resolved
        # grid is what EPREM writes.  With more than one species the package
        # can only form an energy axis from a 1-D grid.
        grid2d = bool(np_ == 1 and rng.random() < 0.7)
    chosen = [SPECIES[i] for i in
              rng.choice(len(SPECIES), size=np_, replace=False)]
    raw = {}
    raw['time'] = numpy.sort(
        rng.uniform(0.01, 2.0) + numpy.cumsum(rng.uniform(0.05, 0.4, nt))
    )
    raw['phiOffset'] = numpy.cumsum(rng.uniform(0.0, 0.1, nt))
    raw['shell'] = numpy.arange(ns, dtype='i4')
    raw['mu'] = numpy.linspace(-1.0, 1.0, nu) if nu > 1 else numpy.array([0.0])
    raw['mass'] = numpy.array([m for m, _, _ in chosen])
    raw['charge'] = numpy.array([q for _, q, _ in chosen])
    e = numpy.logspace(-1.0, 2.0, ne) * rng.uniform(0.8, 1.2)
    # speed equivalent to energy per nucleon (relativistic)
    mp = 938.27
    gamma = 1.0 + e / mp
    v = C_CGS * numpy.sqrt(1.0 - 1.0 / gamma**2)
    if grid2d:
        raw['egrid'] = numpy.stack([e] * np_)
        raw['vgrid'] = numpy.stack([v] * np_)
    else:
        raw['egrid'] = e
        raw['vgrid'] = v
    r0 = numpy.sort(rng.uniform(0.05, 0.1, 1) + numpy.cumsum(
        rng.uniform(0.05, 0.25, ns)))
    drift = numpy.cumsum(rng.uniform(0.0, 0.02, nt))
    raw['R'] = r0[None, :] * (1.0 + drift[:, None])
    raw['T'] = rng.uniform(0.3, 2.8, (nt, ns))
    raw['P'] = rng.uniform(0.0, 6.2, (nt, ns))
    raw['Br'] = rng.choice([-1, 1]) * rng.uniform(1.0, 20.0, (nt, ns))
    raw['Bt'] = rng.uniform(-5.0, 5.0, (nt, ns))
    raw['Bp'] = rng.uniform(-8.0, 8.0, (nt, ns))
    raw['Vr'] = rng.uniform(250.0, 900.0, (nt, ns))
    raw['Vt'] = rng.uniform(-40.0, 40.0, (nt, ns))
    raw['Vp'] = rng.uniform(-40.0, 40.0, (nt, ns))
    raw['Rho'] = 5.0 / raw['R']**2 * rng.uniform(0.5, 2.0, (nt, ns))
    shape = (nt, ns, np_, ne)
    base = (
        (e / e[0])[None, None, None, :]**-2.0
        * rng.uniform(0.3, 3.0, shape)
    )
    if kind == 'dist':
        raw['Dist'] = (
            1e3 * base[..., None]
            * rng.uniform(0.5, 1.5, (*shape, nu))
        )
    else:
        raw['flux'] = 1e2 * base
    return Run(
        raw=raw,
        species=[s for _, _, s in chosen],
        kind=kind,
        grid2d=grid2d,
        sizes={'time': nt, 'shell': ns, 'species': np_, 'energy': ne, 'mu': nu},
    )


def write_run(run: Run, path: pathlib.Path) -> pathlib.Path:
    """Write an observer file."""
    path = pathlib.Path(path)
    with netCDF4.Dataset(str(path), 'w') as nc:
        for name, size in run.sizes.items():
            nc.createDimension(name, None if name == 'time' else size)
        for name, data in run.raw.items():
            if name in ('egrid', 'vgrid'):
                dims = ('species', 'energy') if run.grid2d else ('energy',)
            else:
                dims = DIMS[name]
            kind = 'i4' if name == 'shell' else 'f8'
            var = nc.createVariable(name, kind, dims)
            var[:] = data
            var.units = RAW_UNITS[name]
        pre = nc.createVariable('preEruption', 'f8', ())
        pre[:] = 1.5
        pre.units = 'julian date'
    run.path = path
    return path


def write_config(path: pathlib.Path, values: dict, rng=None) -> pathlib.Path:
    """Write an EPREM config file."""
    lines = ['# EPREM runtime configuration', '']
    for k, v in values.items():
        if isinstance(v, (list, tuple, numpy.ndarray)):
            v = ', '.join(repr(float(i)) for i in v)
        lines.append(f"{k}={v}")
    pathlib.Path(path).write_text('\n'.join(lines) + '\n')
    return pathlib.Path(path)

"""What every observable of a synthetic run ought to be, from first principles.

All numbers are SI (mks) numpy arrays, computed from the raw file content.
"""
import contextlib

import numpy as np

from vlib import synth

C = 299792458.0
#: observable -> (dimensions, mks unit, cgs unit, factor from mks to cgs)
TABLE = {
    'time': ('t', 's', 's', 1),
    'energy': ('e', 'J', 'erg', 1e7),
    'v': ('e', 'm s^-1', 'cm s^-1', 1e2),
    'mu': ('m', '1', '1', 1),
    'mass': ('p', 'kg', 'g', 1e3),
    'charge': ('p', 'C', 'statC', synth.C_CGS / 10),
    **{k: ('ts', 'm', 'cm', 1e2) for k in ('r', 'x', 'y', 'z')},
    **{k: ('ts', 'rad', 'rad', 1) for k in ('theta', 'phi', 'angle')},
    **{k: ('ts', 'T', 'G', 1e4) for k in ('br', 'btheta', 'bphi', 'bmag')},
    **{k: ('ts', 'm s^-1', 'cm s^-1', 1e2)
       for k in ('ur', 'utheta', 'uphi', 'umag', 'upara', 'uperp')},
    'rho': ('ts', 'm^-3', 'cm^-3', 1e-6),
    'divu': ('ts', 's^-1', 's^-1', 1),
    'f': ('tspem', 's^3 m^-6', 's^3 cm^-6', 1e-12),
    'rigidity': ('pe', 'kg m s^-1 C^-1', 'g cm s^-1 statC^-1',
                 1e5 * 10 / synth.C_CGS),
    'mfp': ('tspe', 'm', 'cm', 1e2),
    'ar': ('tspe', 's^-1', 's^-1', 1),
    'flux': ('tspe', 'J^-1 s^-1 sr^-1 m^-2', 'erg^-1 s^-1 sr^-1 cm^-2',
             1e-11),
    'fluence': ('tspe', 'J^-1 sr^-1 m^-2', 'erg^-1 sr^-1 cm^-2', 1e-11),
    'intflux': ('tspM', 's^-1 sr^-1 m^-2', 's^-1 sr^-1 cm^-2', 1e-4),
    'energy_density': ('tsp', 'J m^-3', 'erg cm^-3', 10),
    'average_energy': ('tsp', 'J', 'erg', 1e7),
}
LETTER = {'t': 'time', 's': 'shell', 'p': 'species', 'e': 'energy', 'm': 'mu',
          'M': 'minimum energy'}
RAW = {'time': 'time', 'energy': 'egrid', 'v': 'vgrid', 'mu': 'mu',
       'mass': 'mass', 'charge': 'charge', 'r': 'R', 'theta': 'T',
       'phi': 'P', 'br': 'Br', 'btheta': 'Bt', 'bphi': 'Bp', 'ur': 'Vr',
       'utheta': 'Vt', 'uphi': 'Vp', 'rho': 'Rho', 'f': 'Dist',
       'flux': 'flux'}
DEFAULTS = {'lambda0': 1.0, 'mfpRadialPower': 2.0, 'rigidityPower': 1 / 3,
            'kperxkpar': 0.01}


def dims(name):
    return tuple(LETTER[c] for c in TABLE[name][0])


class Truth:
    """Arrays of one run; parameters as given in its config file."""

    def __init__(self, run, params=None):
        self.run, self.params = run, DEFAULTS | (params or {})
        self.cache = {}

    def __getitem__(self, name):
        if name not in self.cache:
            self.cache[name] = self._compute(name)
        return self.cache[name]

    def has(self, name):
        return name != 'f' or self.run.kind == 'dist'

    def _compute(self, name):
        g = self.__getitem__
        if name in RAW and RAW[name] in self.run.raw:
            x = self.run.si(RAW[name], 'mks')
            return x[0] if name in ('energy', 'v') and x.ndim == 2 else x
        return getattr(self, '_' + name)(g)

    def _x(self, g):
        return g('r') * np.sin(g('theta')) * np.cos(g('phi'))

    def _y(self, g):
        return g('r') * np.sin(g('theta')) * np.sin(g('phi'))

    def _z(self, g):
        return g('r') * np.cos(g('theta'))

    def _bmag(self, g):
        return np.sqrt(g('br')**2 + g('btheta')**2 + g('bphi')**2)

    def _umag(self, g):
        return np.sqrt(g('ur')**2 + g('utheta')**2 + g('uphi')**2)

    def _udotb(self, g):
        return (g('ur') * g('br') + g('utheta') * g('btheta')
                + g('uphi') * g('bphi'))

    def _upara(self, g):
        return self._udotb(g) / g('bmag')

    def _uperp(self, g):
        cross = np.cross(
            np.stack([g('ur'), g('utheta'), g('uphi')], -1),
            np.stack([g('br'), g('btheta'), g('bphi')], -1))
        return np.sqrt((cross**2).sum(-1)) / g('bmag')

    def _angle(self, g):
        return np.arccos(np.clip(
            self._udotb(g) / (g('bmag') * g('umag')), -1, 1))

    def _divu(self, g):
        t, rho = g('time'), g('rho')
        out = np.empty_like(rho)
        n = len(t)
        for i in range(n):
            if i == 0:
                d = (rho[1] - rho[0]) / (t[1] - t[0])
            elif i == n - 1:
                d = (rho[-1] - rho[-2]) / (t[-1] - t[-2])
            else:
                a, b = t[i] - t[i - 1], t[i + 1] - t[i]
                d = (a**2 * rho[i + 1] + (b**2 - a**2) * rho[i]
                     - b**2 * rho[i - 1]) / (a * b * (a + b))
            out[i] = -d / rho[i]
        return out

    def momentum(self, energy):
        """(species, energy) momentum of a kinetic energy."""
        m = self['mass'][:, None]
        e = np.atleast_1d(energy)[None, :]
        return np.sqrt(e * (e + 2 * m * C**2)) / C

    def _rigidity(self, g):
        return self.momentum(g('energy')) / g('charge')[:, None]

    def _mfp(self, g):
        p = self.params
        rg0 = self.momentum(synth.MEV_J) / g('charge')[:, None]
        return (p['lambda0'] * synth.AU_M
                * ((g('r') / synth.AU_M) ** p['mfpRadialPower']
                   )[:, :, None, None]
                * ((g('rigidity') / rg0) ** p['rigidityPower']
                   )[None, None, :, :])

    def _ar(self, g):
        n = self.run.sizes['shell']
        up = np.minimum(np.arange(n) + 1, n - 1)
        down = np.maximum(np.arange(n) - 1, 0)
        u = np.stack([g('ur'), g('utheta'), g('uphi')])
        dot = (u[:, :, up] * u[:, :, down]).sum(0)
        u1 = g('umag')[:, up]
        du = u1 * np.abs(1 - dot / u1**2)
        k = (np.cos(g('angle'))**2
             + self.params['kperxkpar'] * np.sin(g('angle'))**2)
        kxx = g('mfp') * k[:, :, None, None] * g('v') / 3
        q = kxx / g('umag')[:, :, None, None]
        return du[:, :, None, None] / (q[:, up] + q[:, down])

    def fiso(self):
        """(time, shell, species, energy) isotropic distribution."""
        if self.run.kind == 'dist':
            return self['f'].sum(-1) / self.run.sizes['mu']
        return (0.5 * self['flux'] * self['mass'][None, None, :, None]**2
                / self['energy'])

    def _flux(self, g):
        return (2 * self.fiso() * g('energy')
                / g('mass')[None, None, :, None]**2)

    def _fluence(self, g):
        dt = np.diff(g('time'), prepend=g('time')[0])
        return np.cumsum(g('flux') * dt[:, None, None, None], axis=0)

    def _intflux(self, g):
        de = np.diff(g('energy'), prepend=g('energy')[0])
        return np.cumsum(g('flux') * de, axis=-1)

    def _moment(self, power):
        v = self['v']
        dv = np.empty_like(v)
        dv[1:-1] = (v[2:] - v[:-2]) / 2
        dv[0], dv[-1] = v[1] - v[0], v[-1] - v[-2]
        return (v**power * self.fiso() * dv).sum(-1)

    def _energy_density(self, g):
        return g('mass') * self._moment(4)

    def _average_energy(self, g):
        return 0.5 * g('energy_density') / self._moment(2)


def unit(name, system):
    return TABLE[name][2 if system == 'cgs' else 1]


def scale(name, system):
    """The number by which SI values become values in the system's unit."""
    return TABLE[name][3] if system == 'cgs' else 1.0


@contextlib.contextmanager
def observing(run, folder, params=None, system='mks', sid=1):
    """An observer of this run, written to a folder."""
    from eprempy import eprem
    synth.write_run(run, folder / f'obs{sid:06}.nc')
    given = {'lamo' if k == 'lambda0' else k: v
             for k, v in (params or {}).items()}
    synth.write_config(folder / 'eprem_input_file',
                       {'numNodesPerStream': 100, **given})
    yield eprem.stream(sid, source=folder, system=system,
                       config=folder / 'eprem_input_file')


#: every documented alias of every observable
ALIASES = {
    'time': ['t', 'times'],
    'mu': ['pitch-angle cosines', 'pitch-angle cosine', 'pitch-angle',
           'pitch angles', 'pitch angle', 'pitch-angles'],
    'mass': ['m'], 'charge': ['q'],
    'energy': ['egrid', 'E', 'energies'], 'v': ['vgrid', 'speed'],
    'r': ['radius', 'R'], 'theta': ['T'], 'phi': ['P'],
    'br': ['Br'], 'btheta': ['bt', 'Btheta', 'Bt'],
    'bphi': ['Bphi', 'Bp', 'bp'], 'ur': ['vr', 'Vr', 'Ur'],
    'utheta': ['Ut', 'Utheta', 'Vtheta', 'Vt', 'ut'],
    'uphi': ['up', 'Vp', 'Vphi', 'Up', 'Uphi'],
    'rho': ['Rho'], 'f': ['Dist', 'dist'],
    'flux': ['Flux', 'J', 'j(E)', 'j', 'J(E)'],
    'x': ['X'], 'y': ['Y'], 'z': ['Z'],
    'bmag': ['b_mag', 'b mag', '|b|', '|B|', 'b', 'B'],
    'umag': ['u mag', '|U|', 'U', 'u_mag', 'u', '|u|'],
    'upara': ['Upara', 'u_para'], 'uperp': ['u_perp', 'Uperp'],
    'angle': ['flow_angle', 'flow angle'],
    'divu': ['div_u', 'div(u)', 'div(U)', 'divU', 'div u', 'div U'],
    'rigidity': ['Rg', 'R_g'], 'mfp': ['mean_free_path', 'mean free path'],
    'ar': ['acceleration rate', 'acceleration_rate'],
    'energy_density': ['energy density'],
    'average_energy': ['average energy'], 'fluence': [],
    'intflux': ['integral flux', 'integral_flux'],
}


def spelled(py, name):
    """The observable's name or one of its aliases."""
    return py.choice([name, *ALIASES[name]])


def sameunit(unit, text):
    """Equality of units up to the order of terms."""
    return sorted(str(unit).split()) == sorted(text.split())


def differs(r, want, name, system, rtol=1e-8, axes=None, unit=None,
            anyshape=False, atol=0.0):
    """Why an observation is not the expected one, or None.

    `want` is in SI unless a unit (text, factor) is given.
    """
    text, factor = unit or (TABLE[name][2 if system == 'cgs' else 1],
                            scale(name, system))
    want = np.asarray(want) * factor
    if not sameunit(r.unit, text):
        return f'unit is {r.unit}, not {text}'
    if set(r.dimensions) != set(dims(name)) and axes is None:
        return f'dimensions are {r.dimensions}'
    got = np.array(r, dtype=float)
    if got.shape != want.shape and not (
            anyshape and got.size == want.size):
        return f'shape is {got.shape}, not {want.shape}'
    got = got.reshape(want.shape)
    if rtol is None:
        got = want
        rtol = 1e-8
    floor = atol * np.abs(want).max() if want.size else 0
    if not np.allclose(got, want, rtol=rtol, atol=floor, equal_nan=True):
        bad = np.argwhere(~np.isclose(got, want, rtol=rtol, atol=floor))
        i = tuple(bad[0])
        return (f'{len(bad)} of {want.size} values differ; at {i} '
                f'{got[i]!r}, not {want[i]!r}')
    for key, (values, kind) in (axes or {}).items():
        why = axis_differs(r.axes, key, values, kind, system)
        if why:
            return why
    return None


def axis_differs(axes, key, values, kind, system):
    """Why this axis is not the expected one; values are SI."""
    try:
        axis = axes[key]
    except Exception as err:
        return f'no {key} axis: {type(err).__name__}; {axes}'
    if len(axis) != len(values):
        return f'{key} axis has {len(axis)} members, not {len(values)}'
    if kind == 'symbol':
        ok = [str(i) for i in axis] == list(values)
    elif kind == 'point':
        ok = [int(i) for i in axis] == list(values)
    else:
        factor = {'radius': 100, 'energy': 1e7}.get(key, 1)
        if system != 'cgs':
            factor = 1
        ok = np.allclose([float(i) for i in axis],
                         np.asarray(values, float) * factor, rtol=1e-9)
    return None if ok else f'{key} axis is {axis}, not {list(values)[:6]}'


def full_axes(truth, name):
    """The axes of a whole observable (minimum energies are the energies)."""
    out = {}
    for letter in TABLE[name][0]:
        if letter == 't':
            out['time'] = truth['time'], 'coordinate'
        elif letter == 's':
            out['shell'] = range(truth.run.sizes['shell']), 'point'
        elif letter == 'p':
            out['species'] = truth.run.species, 'symbol'
        elif letter == 'e':
            out['energy'] = truth['energy'], 'coordinate'
        elif letter == 'm':
            out['mu'] = truth['mu'], 'coordinate'
    return out


def linear(x, grid, axis, targets):
    """Linear interpolation along one axis, from scratch."""
    x = np.moveaxis(x, axis, 0)
    out = []
    for t in targets:
        j = int(np.clip(np.searchsorted(grid, t) - 1, 0, len(grid) - 2))
        w = (t - grid[j]) / (grid[j + 1] - grid[j])
        out.append((1 - w) * x[j] + w * x[j + 1])
    return np.moveaxis(np.array(out), 0, axis)


def linear_radius(x, r, targets):
    """(time, shell, ...) to (time, radius, ...), row by row."""
    return np.stack([linear(x[i], r[i], 0, targets) for i in range(len(r))])

"""Models and generators for physical objects.

A `Model` is a plain numpy array with a unit (text), dimension names and axis
reference values.  `Model.build()` makes the package's object; `Model.judge(x)`
says how an object of the package differs from what the model says it is.
"""
import numpy as np

from vlib import si
from eprempy import metric, physical, quantity

NAMES = ['x', 'y', 'z', 'time', 'shell', 'energy', 'mu', 'species']
COMPOUND = ['m / s', 'km s^-1', 'cm^-3', 'kg m^2 / s^2', 'W / m^2', 'm^1/2',
            'V / m', 'MeV^-1', 'nucleon / cm^3', '1 / (cm^2 s sr keV)']
#: units of one quantity, to convert between
FAMILIES = [
    ['m', 'cm', 'km', 'au', 'nm', 'meter'],
    ['s', 'ms', 'h', 'day', 'min'],
    ['J', 'erg', 'eV', 'keV', 'MeV', 'kg m^2 / s^2', 'g cm^2 s^-2', 'N m'],
    ['m / s', 'km / s', 'cm s^-1', 'au / day', 'm s^-1'],
    ['kg', 'g', 'mg', 'Mg'],
    ['kg / m^3', 'g / cm^3', 'mg m^-3'],
    ['m^-3', 'cm^-3', '1 / km^3'],
    ['T', 'nT', 'mT', 'G'],
    ['m^2', 'cm^2', 'km^2', 'm * m'],
    ['N', 'dyn', 'kg m / s^2'],
    ['1 / (cm^2 s sr MeV)', '1 / (m^2 s sr J)', 'm^-2 s^-1 sr^-1 J^-1'],
    ['s^3 / m^6', 's^3 / cm^6', 's^3 / km^6'],
    ['rad', 'deg'],
    ['Pa', 'kPa', 'N / m^2'],
]
UNITS = sorted({u for f in FAMILIES for u in f if u != 'G'} | {'K', 'W', '1'})
ZERO = si.evaluate('1')[1]


def unit_value(u):
    """(SI value, dimension) of a unit or its text, independently."""
    return si.evaluate(str(metric.unit(u)))


def same_unit(u, expected):
    """The unit means exactly (value, dimension)."""
    v, d = unit_value(u)
    w, e = expected
    return d == e and abs(v - w) <= 1e-9 * abs(w)


def combine(a, b, sign=1):
    """(value, dimension) of a * b**sign."""
    return (a[0] * b[0] ** sign,
            tuple(x + sign * y for x, y in zip(a[1], b[1])))


def power(a, p):
    return a[0] ** float(p), tuple(x * p for x in a[1])


def factor(old, new):
    """The number by which values in `old` become values in `new`."""
    a, b = unit_value(old), unit_value(new)
    assert a[1] == b[1], (old, new)
    return a[0] / b[0]


def values(rng, shape, kind=None):
    kind = kind or rng.choice(['float', 'float', 'int', 'wide', 'positive'])
    if kind == 'int':
        return rng.integers(-9, 10, shape)
    if kind == 'wide':
        return rng.normal(size=shape) * 10. ** rng.integers(-20, 20, shape)
    if kind == 'positive':
        return rng.uniform(0.1, 5, shape)
    return rng.normal(size=shape)


def axis(py, n, kind=None):
    """(kind, values, unit) of one axis."""
    kind = kind or py.choice(
        ['range', 'range', 'points', 'symbols', 'coordinates', 'coordinates'])
    if kind == 'range':
        return 'points', list(range(n)), None
    if kind == 'points':
        return kind, sorted(py.sample(range(3 * n + 3), n)), None
    if kind == 'symbols':
        return kind, [f'{py.choice("abcXYZ")}{i}' for i in range(n)], None
    v = []
    while len(v) < n:
        x = py.choice([py.uniform(-10, 10), float(py.randint(-9, 9))])
        if all(abs(x - y) > 1e-3 for y in v):
            v.append(x)
    return kind, sorted(v), py.choice(['m', 's', 'keV', 'au', 'cm', 'day'])


def given(py, ax):
    """One accepted way to hand this axis to the package."""
    kind, v, u = ax
    if kind == 'coordinates':
        return py.choice([
            lambda: [*v, u], lambda: (list(v), u), lambda: (tuple(v), u),
            lambda: physical.coordinates(quantity.measure(*v, u))])()
    if kind == 'symbols':
        return py.choice([lambda: list(v), lambda: tuple(v),
                          lambda: physical.symbols(v)])()
    if v == list(range(len(v))) and py.random() < .3:
        return range(len(v))
    return py.choice([lambda: list(v), lambda: tuple(v),
                      lambda: physical.points(v)])()


def axis_ok(got, ax):
    """The axis object holds the expected reference values."""
    kind, v, u = ax
    if type(got).__name__.lower() != kind or len(got) != len(v):
        return False
    if kind == 'coordinates':
        return (np.array_equal(np.array([float(x) for x in got.data]), v)
                and metric.unit(got.unit) == metric.unit(u))
    return list(got.data) == list(v)


def take(ax, index):
    """The axis after subscripting."""
    kind, v, u = ax
    if isinstance(index, (int, np.integer)):
        return kind, [v[index]], u
    if isinstance(index, slice):
        return kind, v[index], u
    return kind, [v[i] for i in index], u


class Model:
    """What an array of the package should be."""

    def __init__(self, data, unit, names, axes):
        self.data, self.unit = np.asarray(data, dtype=float), unit
        self.names, self.axes = tuple(names), list(axes)

    @classmethod
    def random(cls, rng, py, ndim=None, unit=None, names=None, kind=None,
               maxlen=4):
        ndim = ndim or py.choice([1, 2, 2, 3, 3, 4])
        names = names or py.sample(NAMES, ndim)
        shape = [py.choice([1, *range(2, maxlen + 1)]) for _ in names]
        if py.random() < .06 and np.prod(shape) < 30:
            shape[py.randrange(len(shape))] = py.randint(12, 120)
        return cls(values(rng, shape, kind), unit or py.choice(UNITS), names,
                   [axis(py, n) for n in shape])

    def build(self, py):
        data = self.data.copy()
        if np.all(data == np.rint(data)) and np.all(np.abs(data) < 1e6):
            data = data.astype(int)
        if py.random() < .3:
            data = data.tolist()
        return physical.array(
            data, unit=self.unit,
            axes={n: given(py, a) for n, a in zip(self.names, self.axes)})

    def __repr__(self):
        a = [(n, k, [round(x, 4) if isinstance(x, float) else x for x in v], u)
             for n, (k, v, u) in zip(self.names, self.axes)]
        return f'Model({self.data.tolist()!r:.160}, {self.unit!r}, {a})'

    def key(self):
        return (self.data.shape, self.data.ravel()[:3].tolist(), self.unit,
                self.names)

    # -- operations ----------------------------------------------------
    def withunit(self, new):
        return Model(self.data * factor(self.unit, new), new, self.names,
                     self.axes)

    def permute(self, order):
        return Model(self.data.transpose(order), self.unit,
                     [self.names[i] for i in order],
                     [self.axes[i] for i in order])

    def subscript(self, index):
        """`index` has one int, slice or list per dimension."""
        data, axes = self.data, []
        for d, (i, ax) in enumerate(zip(index, self.axes)):
            if isinstance(i, (int, np.integer)):
                data = np.take(data, [int(i)], axis=d)
            elif isinstance(i, slice):
                data = data[(slice(None),) * d + (i,)]
            else:
                data = np.take(data, list(i), axis=d)
            axes.append(take(ax, i))
        return Model(data, self.unit, self.names, axes)

    def map(self, f, unit=None):
        return Model(f(self.data), unit or self.unit, self.names, self.axes)

    # -- oracle --------------------------------------------------------
    def judge(self, x, rtol=1e-9, axes=True, atol=0):
        """None, or how the object differs from this model."""
        got = np.array(x)
        if tuple(x.shape) != self.data.shape or got.shape != self.data.shape:
            return f'shape {x.shape}, {got.shape}; expected {self.data.shape}'
        if x.ndim != self.data.ndim or x.size != self.data.size:
            return f'ndim {x.ndim}, size {x.size}'
        if tuple(x.dimensions) != self.names:
            return f'dimensions {tuple(x.dimensions)}, expected {self.names}'
        if not np.allclose(got, self.data, rtol=rtol, atol=atol, equal_nan=True):
            return (f'values {got.ravel()[:6]}; expected '
                    f'{self.data.ravel()[:6]}')
        unit = self.unit
        if isinstance(unit, tuple):
            if not same_unit(x.unit, unit):
                return f'unit {x.unit}; expected {unit}'
        elif not same_unit(x.unit, unit_value(unit)):
            return f'unit {x.unit}; expected {unit}'
        if tuple(x.axes.dimensions) != self.names:
            return f'axes {tuple(x.axes.dimensions)}'
        if axes:
            for name, ax in zip(self.names, self.axes):
                if not axis_ok(x.axes[name], ax):
                    return f'axis {name}: {x.axes[name]!r}; expected {ax}'
        return None


def subscripts(py, shape, lists=True):
    """A random full subscript of this shape: one entry per dimension."""
    out = []
    for n in shape:
        k = py.choice(['int', 'slice', 'slice', 'all', 'all']
                      + (['list'] if lists and len(shape) > 1 else []))
        if k == 'int':
            out.append(py.choice([int, np.int64])(py.randint(-n, n - 1)))
        elif k == 'all':
            out.append(slice(None))
        elif k == 'slice':
            a, b = sorted(py.sample(range(n + 1), 2))
            s = py.choice([1, 1, 2, 3, -1, -1, -2, -3])
            if py.random() < .3:
                # open or generous bounds
                out.append(slice(py.choice([None, n + 2, n - 1] if s < 0
                                           else [None, -n - 2, 0]),
                                 py.choice([None, -n - 1] if s < 0
                                           else [None, n, n + 3]), s))
            elif s < 0:
                out.append(slice(b - 1, a - 1 if a else None, s))
            else:
                out.append(slice(py.choice([a, a - n if a < n and a - n else a]),
                                 py.choice([b, b if b == n else b - n]), s))
        else:
            out.append([py.randint(-n, n - 1)
                        for _ in range(py.choice([1, 2, 3]))])
    return out

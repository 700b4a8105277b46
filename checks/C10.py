"""C10: numpy functions on package arrays agree with numpy, units and axes."""
import sys

from vlib import harness, phys
from vlib.phys import Model
from eprempy import physical, real

np = harness.numpy
RULE = (
    'random arrays, vectors, tensors and scalars under every registered numpy '
    'function with every axis and keyword, against numpy on the plain data '
    'with independent units; distinct = distinct function, operand, keywords'
)
REDUCE = {'min': np.min, 'max': np.max, 'mean': np.mean, 'sum': np.sum}


def pick_axis(py, ndim):
    kind = py.choice(['none', 'omit', 'one', 'one', 'negative', 'tuple'])
    if kind == 'none':
        return {'axis': None}
    if kind == 'omit':
        return {}
    if kind == 'tuple' and ndim > 1:
        k = py.randint(1, ndim - 1)
        return {'axis': tuple(py.sample(range(ndim), k))}
    a = py.randrange(ndim)
    return {'axis': a - ndim if kind == 'negative' else a}


def tiny(*arrays):
    """Rounding error to expect of sums over these numbers."""
    return 1e-12 * sum(np.max(np.abs(a), initial=0.) for a in arrays)


def near(a, b, *more):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(
        a, b, rtol=1e-9, atol=tiny(b, *more), equal_nan=True))


def dropped(ndim, axis):
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = {a % ndim for a in axes}
    return [i for i in range(ndim) if i not in axes]


def kept(m, data, dims, unit=None):
    return Model(data, unit or m.unit, [m.names[i] for i in dims],
                 [m.axes[i] for i in dims])


def body(ck):
    py, rng = ck.py, ck.rng
    operand = [0.]

    def model(key, case, r, want):
        bad = want.judge(r, atol=tiny(want.data, operand[0]))
        ck.check(bad is None, key, case, bad)

    def number(key, case, r, value, unit):
        """A physical scalar, or a single-number array."""
        ok = (np.allclose(np.array(r, dtype=float).ravel(), value, rtol=1e-9,
                          atol=tiny(operand[0]))
              and np.array(r).size == 1
              and phys.same_unit(r.unit, phys.unit_value(unit)))
        ck.check(ok, key, case, lambda: f'{r!r}; expected {value} {unit}')

    for _ in range(ck.scale(260, 9000)):
        if not ck.budget(150, 700):
            break
        m = Model.random(rng, py, kind=py.choice(['float', 'int', 'positive']))
        P = m.build(py)
        R = real.array(m.data.copy(), *m.names)
        # numbers that only agree once converted
        if py.random() < .5 and m.unit not in ('K', 'W', '1'):
            new = py.choice(next(f for f in phys.FAMILIES if m.unit in f))
            P, m2 = P.withunit(new), m.withunit(new)
        else:
            m2 = m
        n = m.data.ndim
        operand[0] = m2.data
        for name, f in REDUCE.items():
            kw = pick_axis(py, n)
            if kw.get('axis') is not None and py.random() < .15:
                kw['keepdims'] = True
            case = (name, kw, repr(m2))
            with ck.guard(name, case):
                want = f(m2.data, **kw)
                raw = f(m.data, **kw)
                r, s = f(P, **kw), f(R, **kw)
                ck.check(near(s, raw, m.data),
                         f'real-{name}', case, lambda: repr(s))
                if kw.get('axis') is None:
                    number(name, case, r, want, m2.unit)
                    continue
                if kw.get('keepdims'):
                    ck.check(list(s.dimensions) == list(m.names)
                             and tuple(s.shape) == raw.shape,
                             'real-keepdims', case)
                    ck.check(near(r, want, m2.data),
                             'keepdims', case)
                    continue
                dims = dropped(n, kw['axis'])
                if dims:
                    ck.check([*s.dimensions] == [m.names[i] for i in dims],
                             f'real-{name}', case)
                    model(name, case, r, kept(m2, want, dims))
        # -- cumulative sums
        kw = py.choice([{}, {'axis': py.randrange(n)},
                        {'axis': -py.randint(1, n)}])
        case = ('cumsum', kw, repr(m2))
        with ck.guard('cumsum', case):
            r, s = np.cumsum(P, **kw), np.cumsum(R, **kw)
            want = np.cumsum(m2.data, **kw)
            ck.check(near(s, np.cumsum(m.data, **kw), m.data),
                     'real-cumsum', case)
            if kw:
                model('cumsum', case, r, m2.map(lambda d: want))
            else:
                ck.check(near(r, want, m2.data) and phys.same_unit(
                    r.unit, phys.unit_value(m2.unit)), 'cumsum', case)
        # -- removing singular dimensions
        with ck.guard('squeeze', repr(m2)):
            dims = [i for i in range(n) if m.data.shape[i] > 1]
            r, s = np.squeeze(P), np.squeeze(R)
            if dims:
                model('squeeze', repr(m2), r, kept(
                    m2, m2.data.squeeze(), dims))
                ck.check([*s.dimensions] == [m.names[i] for i in dims],
                         'real-squeeze', repr(m2))
            else:
                number('squeeze', repr(m2), r, m2.data.squeeze(), m2.unit)
            ones = [i for i in range(n) if m.data.shape[i] == 1]
            if ones and n > 1:
                i = py.choice(ones)
                a = py.choice([i, i - n])
                rest = [j for j in range(n) if j != i]
                model('squeeze-axis', (a, repr(m2)), np.squeeze(P, axis=a),
                      kept(m2, m2.data.squeeze(axis=a), rest))
            ck.check(np.array_equal(P.squeezed, np.array(P).squeeze()),
                     'squeezed', repr(m2))
        # -- reversal of all axes
        with ck.guard('transpose', repr(m2)):
            model('transpose', repr(m2), np.transpose(P),
                  kept(m2, m2.data.T, range(n)[::-1]))
            s = np.transpose(R)
            ck.check(np.array_equal(np.array(s), m.data.T)
                     and list(s.dimensions) == list(m.names[::-1]),
                     'real-transpose', repr(m))
        # -- square root
        q = m2.map(np.abs)
        with ck.guard('sqrt', repr(q)):
            model('sqrt', repr(q), np.sqrt(abs(P)), Model(
                np.sqrt(q.data), phys.power(phys.unit_value(m2.unit), .5),
                m.names, m.axes))
        # -- gradients
        shape = [max(2, s) for s in m.data.shape]
        g = Model(phys.values(rng, shape, 'float'), m.unit, m.names,
                  [phys.axis(py, s) for s in shape])
        G, S = g.build(py), real.array(g.data, *g.names)
        operand[0] = g.data
        a = py.randrange(-n, n)
        w = py.choice(phys.UNITS)
        pts = np.sort(rng.uniform(-9, 9, shape[a]))
        pts += np.arange(len(pts)) * .1
        step = round(py.uniform(.1, 4), 3)
        per = phys.combine(phys.unit_value(g.unit), phys.unit_value(w), -1)
        forms = [
            ('plain', (), (), phys.unit_value(g.unit)),
            ('step', (step,), (step,), phys.unit_value(g.unit)),
            ('points', (pts,), (pts,), phys.unit_value(g.unit)),
            ('scalar', (physical.scalar(step, unit=w),), (step,), per),
            ('vector', (physical.vector(pts, unit=w),), (pts,), per),
            ('array', (physical.array(pts, unit=w, axes=['q']),), (pts,), per),
        ]
        for name, args, plain, unit in forms:
            case = ('gradient', name, a, w, repr(g))
            with ck.guard('gradient', case):
                want = np.gradient(g.data, *plain, axis=a)
                model(f'gradient-{name}', case, np.gradient(
                    G, *args, axis=a), Model(want, unit, g.names, g.axes))
                if name in ('plain', 'step', 'points'):
                    s = np.gradient(S, *plain, axis=a)
                    ck.check(near(s, want, g.data)
                             and list(s.dimensions) == list(g.names),
                             'real-gradient', case)
        steps = [round(py.uniform(.1, 4), 3) for _ in shape]
        forms = [
            ('none', (), (), phys.unit_value(g.unit)),
            ('one', (physical.scalar(step, unit=w),), (step,), per),
            ('numbers', steps, steps, phys.unit_value(g.unit)),
            ('scalars', [physical.scalar(k, unit=w) for k in steps], steps,
             per),
        ]
        for name, args, plain, unit in forms:
            case = ('gradient-all', name, args, repr(g))
            with ck.guard('gradient-all', case):
                r, want = np.gradient(G, *args), np.gradient(g.data, *plain)
                if n == 1:
                    r, want = [r], [want]
                ck.check(len(r) == n, 'gradient-all', case)
                for x, y in zip(r, want):
                    model('gradient-all', case, x, Model(
                        y, unit, g.names, g.axes))
        if n > 1:
            other = next(u for u in phys.UNITS if not phys.same_unit(
                u, phys.unit_value(w)))
            ck.rejects('gradient-refuse', (w, other), lambda: np.gradient(
                G, *[physical.scalar(1., unit=w if i else other)
                     for i in range(n)]), (TypeError,))
        if 1 in m.data.shape:
            ck.rejects('gradient-refuse', repr(m2), lambda: np.gradient(
                P, physical.scalar(1., unit=w)), (ValueError,))
            ck.rejects('gradient-refuse', repr(m2), lambda: np.gradient(P),
                       (ValueError,))
        # -- trapezoidal integrals
        if n > 1:
            times = phys.combine(phys.unit_value(g.unit), phys.unit_value(w))
            dims = dropped(n, a)
            forms = [
                ('plain', {}, {}, phys.unit_value(g.unit)),
                ('dx', {'dx': step}, {'dx': step}, phys.unit_value(g.unit)),
                ('x', {'x': pts}, {'x': pts}, phys.unit_value(g.unit)),
                ('dx-scalar', {'dx': physical.scalar(step, unit=w)},
                 {'dx': step}, times),
                ('x-vector', {'x': physical.vector(pts, unit=w)},
                 {'x': pts}, times),
                ('x-array', {'x': physical.array(pts, unit=w, axes=['q'])},
                 {'x': pts}, times),
            ]
            for name, kw, plain, unit in forms:
                case = ('trapz', name, a, w, repr(g))
                with ck.guard('trapz', case):
                    want = np.trapz(g.data, axis=a, **plain)
                    model(f'trapz-{name}', case, np.trapz(G, axis=a, **kw),
                          kept(g, want, dims, unit))
        # -- universal functions on the plain numbers
        q = Model(phys.values(rng, m.data.shape, 'float'), m2.unit, m.names,
                  m.axes)
        Q = q.build(py)
        for f in (np.add, np.subtract, np.maximum, np.minimum, np.hypot,
                  np.arctan2):
            case = (f.__name__, repr(m2), repr(q))
            with ck.guard('ufunc', case):
                ck.check(near(f(P, Q), f(m2.data, q.data), m2.data, q.data),
                         'ufunc', case)
                ck.check(near(f(Q, P), f(q.data, m2.data), m2.data, q.data),
                         'ufunc', case)
                T = real.array(q.data, *m.names)
                ck.check(near(f(R, T), f(m.data, q.data), m.data, q.data),
                         'real-ufunc', case)
        ck.check(np.array_equal(P, P) is True and np.array_equal(
            P, Q) is np.array_equal(np.array(P), q.data), 'array-equal',
            repr(m2))
        bad = m2.judge(P)
        ck.check(bad is None and np.array_equal(np.array(R), m.data),
                 'operand-kept', repr(m2), bad)
        # -- functions of pure numbers
        one = Model(rng.uniform(.1, 4, m.data.shape), '1', m.names, m.axes)
        O = one.build(py)
        for f in (np.log, np.log10, np.log2, np.log1p):
            with ck.guard('log', (f.__name__, repr(one))):
                model('log', (f.__name__, repr(one)), f(O), one.map(f))
                if m2.unit != '1':
                    ck.rejects('log-refuse', (f.__name__, m2.unit),
                               lambda: f(P), (ValueError,))
        ang = Model(rng.uniform(-7, 7, m.data.shape), 'rad', m.names, m.axes)
        A = ang.build(py)
        for f in (np.sin, np.cos, np.tan):
            with ck.guard('trig', (f.__name__, repr(ang))):
                model('trig', (f.__name__, repr(ang)), f(A), Model(
                    f(ang.data), '1', m.names, m.axes))
                model('trig', (f.__name__, repr(ang), 'deg'),
                      f(A.withunit('deg').withunit('rad')), Model(
                    f(ang.data), '1', m.names, m.axes))
                if m2.unit not in ('rad', 'deg'):
                    ck.rejects('trig-refuse', (f.__name__, m2.unit),
                               lambda: f(P), (ValueError,))
    # -- objects without axes
    for _ in range(ck.scale(150, 4000)):
        u = py.choice(phys.UNITS)
        kind = py.choice(['vector', 'tensor'])
        d = phys.values(rng, (py.randint(2, 5),) if kind == 'vector' else (
            py.randint(2, 3), py.randint(1, 3)), 'float')
        x = getattr(physical, kind)(d.copy(), unit=u)
        s = physical.scalar(float(abs(d.flat[0])), unit=u)
        U = phys.unit_value(u)
        case = (kind, d.tolist(), u)

        def sees(key, r, want, unit):
            ck.check(near(r, want, d)
                     and phys.same_unit(r.unit, unit), f'{kind}-{key}', case,
                     lambda: f'{r!r}; expected {want} {unit}')
        with ck.guard(f'{kind}-functions', case):
            for name, f in REDUCE.items():
                sees(name, f(x), f(d), U)
                axis = py.choice([0, -1, None, tuple(range(d.ndim)), (0,),
                                  d.ndim - 1])
                r = f(x, axis=axis)
                sees(name, r, f(d, axis=axis), U)
                whole = np.ndim(f(d, axis=axis)) == 0
                ck.check(type(r) is (physical.Scalar if whole else type(x)),
                         f'{kind}-{name}', (case, axis), lambda: repr(r))
                ck.rejects('reduce-beyond', (case, axis),
                           lambda: f(x, axis=d.ndim), (ValueError,))
                r = f(s)
                sees(f'scalar-{name}', r, float(s), U)
                ck.check(type(r) is physical.Scalar, f'scalar-{name}',
                         case, lambda: repr(r))
            axis = py.choice([0, -1])
            sees('cumsum', np.cumsum(x, axis=axis), np.cumsum(d, axis=axis),
                 U)
            sees('scalar-cumsum', np.cumsum(s), [float(s)], U)
            for f in (np.squeeze, np.transpose):
                sees('scalar-shape', f(s), float(s), U)
            sees('squeeze', np.squeeze(x), d.squeeze(), U)
            sees('cumsum', np.cumsum(x), np.cumsum(d), U)
            sees('sqrt', np.sqrt(abs(x)), np.sqrt(abs(d)), phys.power(U, .5))
            sees('transpose', np.transpose(x), d.T, U)
            sees('gradient', np.gradient(x, axis=0), np.gradient(d, axis=0),
                 U)
            sees('sqrt', np.sqrt(s), np.sqrt(float(s)), phys.power(U, .5))
            t = getattr(physical, kind)(abs(d), unit='1')
            for f in (np.log, np.log10, np.log2, np.log1p):
                sees('log', f(t), f(abs(d)), phys.unit_value('1'))
            t = getattr(physical, kind)(d.copy(), unit='rad')
            for f in (np.sin, np.cos, np.tan):
                sees('trig', f(t), f(d), phys.unit_value('1'))
                sees('trig', f(physical.scalar(d.flat[0], unit='rad')),
                     f(d.flat[0]), phys.unit_value('1'))
            sees('kept', x, d, U)
    # -- listed findings
    A = physical.array([0., 30., 90.], unit='deg', axes=('a',))
    ck.probe('trig-degrees', 'sin of degrees', lambda: np.array(np.sin(A)),
             lambda r: np.allclose(r, [0, .5, 1]),
             lambda r: np.allclose(r, np.sin([0, 30, 90])))
    d = np.arange(24.).reshape(2, 3, 4)
    for X, label in ((physical.array(d, unit='m', axes=('x', 'y', 'z')), 'p'),
                     (real.array(d, 'x', 'y', 'z'), 'r')):
        ck.probe('transpose-axes', label,
                 lambda: np.transpose(X, axes=(1, 0, 2)),
                 lambda r: np.array_equal(np.array(r), d.transpose(1, 0, 2)),
                 lambda r: np.array_equal(np.array(r), d.T)
                 and list(r.dimensions) == ['y', 'x', 'z'])
    for e in ('min', 'max', 'mean', 'sum', 'cumsum', 'squeeze', 'squeeze-axis',
              'transpose', 'gradient-vector', 'trapz-x-array', 'ufunc', 'log',
              'trig', 'log-refuse', 'trig-refuse', 'vector-sum',
              'tensor-sum'):
        ck.require(e, 20)


if __name__ == '__main__':
    sys.exit(harness.main('C10', RULE, body))

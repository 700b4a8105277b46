"""C07: arithmetic on physical objects is numpy arithmetic with units."""
import math
import operator
import fractions
import sys

from vlib import harness, phys
from vlib.phys import Model
from eprempy import measured, metric, physical

np = harness.numpy
RULE = (
    'random operands (arrays, tensors, vectors, scalars, numbers, measured '
    'values) and operators against numpy with independent unit algebra; '
    'distinct = distinct operator and operand pairs'
)
ADD = [('+', operator.add), ('-', operator.sub)]
MUL = [('*', operator.mul), ('/', operator.truediv),
       ('//', operator.floordiv), ('%', operator.mod)]
CMP = [('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
       ('>=', operator.ge)]


def merge(a, b):
    """Dimensions of a then b, keeping both orders."""
    out, rest = [], list(b)
    for i, name in enumerate(a):
        if name in rest:
            k = rest.index(name)
            out += rest[:k]
            rest = rest[k + 1:]
        out.append(name)
    return out + rest


def meshed(m, names):
    """Data of the model with one array dimension per name."""
    order = [m.names.index(n) for n in names if n in m.names]
    assert order == sorted(order)
    shape = [m.data.shape[m.names.index(n)] if n in m.names else 1
             for n in names]
    return m.data.reshape(shape)


def product(op, m, n):
    """Model of a multiplicative operation on two arrays."""
    names = merge(m.names, n.names)
    data = op(meshed(m, names), meshed(n, names))
    axes = []
    for name in names:
        a = dict(zip(m.names, m.axes)).get(name)
        b = dict(zip(n.names, n.axes)).get(name)
        axes.append(a if b is None or (a and len(a[1]) >= len(b[1])) else b)
    sign = 1 if op is operator.mul else -1
    unit = phys.combine(phys.unit_value(m.unit), phys.unit_value(n.unit), sign)
    return Model(data, unit, names, axes)


def partner(py, rng, m):
    """An array whose named axes fit with those of `m`."""
    names = [n for n in m.names if py.random() < .7]
    axes = {n: m.axes[m.names.index(n)] for n in names}
    for n in list(names):
        if py.random() < .3:
            k = py.randrange(len(axes[n][1]))
            axes[n] = phys.take(axes[n], k)
    for extra in py.sample([n for n in phys.NAMES if n not in m.names],
                           py.choice([0, 0, 1])):
        names.insert(py.randint(0, len(names)), extra)
        axes[extra] = phys.axis(py, py.randint(1, 3))
    if not names:
        names = [m.names[0]]
        axes = {names[0]: m.axes[0]}
    data = phys.values(rng, [len(axes[n][1]) for n in names])
    return Model(data, py.choice(phys.UNITS), names, [axes[n] for n in names])


NONE = phys.unit_value('1')


def number(py):
    """A plain number, of Python or of numpy."""
    k = py.choice([2, -3, 0.5, 1e6, 1, 2.5, 7])
    if py.random() < .4:
        k = (py.choice([np.float64, np.longdouble]) if k % 1 or k < 0
             else py.choice([np.float64, np.int64, np.int32])
             )(k)
    return k


def single(py, rng, unit):
    """A one-number operand: (label, number, object)."""
    v = float(phys.values(rng, ()))
    kind = py.choice(['scalar', 'value'])
    if kind == 'scalar':
        return kind, v, physical.scalar(v, unit=unit)
    return kind, v, measured.value(v, unit)


def body(ck):
    py, rng = ck.py, ck.rng

    def judged(key, case, call, expected, *operands):
        with ck.guard(key, case):
            r = call()
            bad = expected.judge(r)
            ck.check(bad is None, key, case, bad)
            for m, x in operands:
                bad = m.judge(x)
                ck.check(bad is None, 'operand-kept', case, bad)

    for _ in range(ck.scale(220, 9000)):
        if not ck.budget(150, 700):
            break
        m = Model.random(rng, py)
        case = repr(m)
        x = m.build(py)
        # -- same axes, same unit
        n = Model(phys.values(rng, m.data.shape), m.unit, m.names, m.axes)
        y = n.build(py)
        for s, op in ADD:
            judged(f'add{s}', (s, case, n), lambda: op(x, y),
                   Model(op(m.data, n.data), m.unit, m.names, m.axes),
                   (m, x), (n, y))
        for s, op in CMP:
            with ck.guard('compare', (s, case, n)):
                r = op(x, y)
                ck.check(np.array_equal(np.array(r), op(m.data, n.data)),
                         'compare', (s, case, n), lambda: repr(r))
        ck.check((x == m.build(py)) is True and not (x != m.build(py)),
                 'equal', case)
        if not np.array_equal(m.data, n.data):
            ck.check(not (x == y) and x != y, 'unequal', (case, n))
        # -- equality also looks at the unit and the axes
        other = py.choice([u for u in phys.UNITS if not phys.same_unit(
            u, phys.unit_value(m.unit))])
        z = Model(m.data, other, m.names, m.axes).build(py)
        ck.check(x != z and not (x == z), 'unequal-unit', (case, other))
        i = py.randrange(m.data.ndim)
        axes = list(m.axes)
        axes[i] = phys.axis(py, m.data.shape[i], py.choice(
            [k for k in ('range', 'symbols', 'coordinates')
             if k != m.axes[i][0] and (k, m.axes[i][0]) != (
                 'range', 'points')]))
        if axes[i] != m.axes[i]:
            z = Model(m.data, m.unit, m.names, axes).build(py)
            ck.check(x != z, 'unequal-axes', (case, axes[i]))
            if m.data.shape[i] > 1:
                ck.rejects('refuse-axes', (case, axes[i]), lambda: x + z,
                           (ValueError,))
        # -- refusals
        z = Model(n.data, other, m.names, m.axes).build(py)
        for s, op in (*ADD, *CMP):
            ck.rejects('refuse-unit', (s, case, other), lambda: op(x, z),
                       (ValueError,))
        if m.unit != '1':
            k = py.choice([0, 1, 2.5, np.float64(3)])
            for s, op in ADD:
                ck.rejects('refuse-number', (s, case, k), lambda: op(x, k),
                           (TypeError,))
                ck.rejects('refuse-number', (k, s, case),
                           lambda: op(k, x), (TypeError,))
        # -- one singular axis fills in
        if max(m.data.shape) > 1:
            i = py.choice([i for i, k in enumerate(m.data.shape) if k > 1])
            index = [slice(None)] * m.data.ndim
            index[i] = py.randrange(m.data.shape[i])
            n = m.subscript(index).map(lambda d: d * 3 + 1)
            y = n.build(py)
            for s, op in ADD:
                judged('add-fill', (s, case, index), lambda: op(x, y),
                       Model(op(m.data, n.data), m.unit, m.names, m.axes),
                       (m, x), (n, y))
                judged('add-fill', (s, index, case), lambda: op(y, x),
                       Model(op(n.data, m.data), m.unit, m.names, m.axes))
            # ... but not when the full axis lacks its value
            kind, v, u = n.axes[i]
            axes = list(n.axes)
            axes[i] = (kind, ['other'] if kind == 'symbols' else [
                max(m.axes[i][1]) + 50], u)
            z = Model(n.data, m.unit, m.names, axes).build(py)
            for s, op in ADD:
                ck.rejects('refuse-fill', (s, case, axes[i]),
                           lambda: op(x, z), (ValueError,))
                ck.rejects('refuse-fill', (s, axes[i], case),
                           lambda: op(z, x), (ValueError,))
        # -- one-number operands
        label, v, s = single(py, rng, m.unit)
        for t, op in ADD:
            judged(f'add-{label}', (t, case, v), lambda: op(x, s),
                   m.map(lambda d: op(d, v)), (m, x))
            if label == 'scalar':
                judged(f'add-{label}', (t, v, case), lambda: op(s, x),
                       m.map(lambda d: op(v, d)), (m, x))
        u = py.choice(phys.UNITS + phys.COMPOUND)
        label, v, s = single(py, rng, u)
        for t, op in MUL:
            sign = 1 if t == '*' else -1
            w = phys.combine(phys.unit_value(m.unit), phys.unit_value(u), sign)
            judged(f'mul-{label}', (t, case, v, u), lambda: op(x, s),
                   Model(op(m.data, v), w, m.names, m.axes), (m, x))
            if label == 'scalar':
                w = phys.combine(
                    phys.unit_value(u), phys.unit_value(m.unit), sign)
                judged(f'mul-{label}', (t, v, u, case), lambda: op(s, x),
                       Model(op(v, m.data), w, m.names, m.axes), (m, x))
        # -- numbers alone add to quantities without a unit
        k = number(py)
        none = Model(m.data, '1', m.names, m.axes)
        z = none.build(py)
        for t, op in ADD:
            judged('add-number', (t, case, k), lambda: op(z, k),
                   none.map(lambda d: op(d, k)), (none, z))
            judged('add-number', (k, t, case), lambda: op(k, z),
                   none.map(lambda d: op(k, d)), (none, z))
        k = number(py)
        for t, op in MUL:
            judged('mul-number', (t, case, k), lambda: op(x, k),
                   m.map(lambda d: op(d, k)), (m, x))
            w = phys.unit_value(m.unit)
            if t != '*':
                w = phys.power(w, -1)
            judged('mul-number', (t, k, case), lambda: op(k, x),
                   Model(op(k, m.data), w, m.names, m.axes), (m, x))
        # -- named broadcasting
        n = partner(py, rng, m)
        y = n.build(py)
        for t, op in MUL:
            a, b, p, q = (m, n, x, y) if py.random() < .5 else (n, m, y, x)
            if t in '//%' and t != '/' and py.random() < .5:
                continue
            judged('mul-arrays', (t, repr(a), repr(b)), lambda: op(p, q),
                   product(op, a, b), (m, x), (n, y))
        if set(n.names) != set(m.names) and n.unit == m.unit:
            ck.rejects('refuse-dims', (case, n), lambda: x + y)
        # -- dimensions in a different order cannot be merged
        if m.data.ndim > 1:
            order = list(range(m.data.ndim))
            while order == sorted(order):
                py.shuffle(order)
            z = m.permute(order)
            ck.rejects('refuse-order', (case, order),
                       lambda: x * z.build(py), (ValueError,))
        # -- powers
        p = py.choice([2, 3, -1, 0.5, -2, 1, 1.5])
        base = m.map(np.abs).map(lambda d: d.astype(float) + .1)
        z = base.build(py)
        for q in (p, physical.scalar(p, unit='1')):
            judged('power', (case, p, type(q).__name__), lambda: z ** q,
                   Model(base.data ** p, phys.power(
                       phys.unit_value(m.unit), p), m.names, m.axes),
                   (base, z))
        f = fractions.Fraction(p)
        judged('power', (case, f), lambda: z ** f,
               Model(base.data ** float(p), phys.power(
                   phys.unit_value(m.unit), f), m.names, m.axes), (base, z))
        low = Model(-base.data, m.unit, m.names, m.axes)
        with ck.guard('power of negatives', (case, f)):
            # numbers, never objects or complex numbers
            got = np.array((low.build(py) ** f))
            want = (-base.data) ** float(p)
            ck.check(got.dtype.kind == 'f' and np.allclose(
                got, want, equal_nan=True), 'power of negatives', (case, f),
                     lambda: (got.dtype, got.ravel()[:4]))
        # numbers without unit to the powers of others, matched by name
        g = Model(base.data, '1', m.names, m.axes)
        e = Model(rng.uniform(-2, 2, base.data.shape), '1', m.names, m.axes)
        G, E = g.build(py), e.build(py)
        judged('power-arrays', case, lambda: G ** E, Model(
            base.data ** e.data, '1', m.names, m.axes), (g, G), (e, E))
        n = base.data.ndim
        if n > 1:
            order = py.sample(range(n), n)
            drop = py.randrange(n)
            part = Model(np.take(e.data, 0, drop),
                         '1', [x for i, x in enumerate(m.names) if i != drop],
                         [x for i, x in enumerate(m.axes) if i != drop])
            spread = np.expand_dims(part.data, drop)
            for other, power in ((e.permute(order), e.data), (part, spread)):
                with ck.guard('power-named', (case, other.names)):
                    try:
                        r = G ** other.build(py)
                    except (ValueError, TypeError):
                        ck.saw('power-named-refused', case)
                        continue
                    why = Model(base.data ** power, '1', m.names,
                                m.axes).judge(r)
                    ck.check(why is None, 'power-named', (case, other.names),
                             why)
        if m.unit != '1':
            ck.rejects('refuse-power', case, lambda: z ** physical.scalar(
                2, unit=m.unit), (ValueError,))
            ck.rejects('refuse-power', case, lambda: 2 ** z, (ValueError,))
            e = Model(np.ones_like(base.data), '1', m.names, m.axes)
            ck.rejects('refuse-power', (case, 'array'),
                       lambda: z ** e.build(py), (ValueError,))
    # -- arrays with an empty dimension
    for _ in range(ck.scale(60, 600)):
        names = py.sample(['x', 'y', 'z', 'w'], py.randint(1, 3))
        size = {n: py.choice([0, 0, 1, 2, 3]) for n in names}
        a = [n for n in names if py.random() < 0.7] or names[:1]
        b = [n for n in names if py.random() < 0.7] or names[-1:]
        made = []
        for dims in (a, b):
            data = ck.rng.uniform(1, 2, [size[n] for n in dims])
            made.append((data, physical.array(
                data, unit='m', axes={
                    n: physical.points(range(size[n])) for n in dims})))
        case = (tuple(a), tuple(b), tuple(size.items()))
        both = merge(a, b)
        with ck.guard('empty', case):
            r = made[0][1] * made[1][1]
            x, y = (d.reshape([size[n] if n in dims else 1 for n in both])
                    for (d, _), dims in zip(made, (a, b)))
            ck.check(list(r.dimensions) == both and np.array_equal(
                np.array(r), x * y) and r.unit == 'm^2', 'empty', case,
                     lambda: (r.dimensions, np.array(r).shape))
    # -- scalars, vectors and tensors among themselves
    for _ in range(ck.scale(250, 8000)):
        kind = py.choice(['scalar', 'vector', 'tensor'])
        shape = {'scalar': (), 'vector': (py.randint(1, 4),),
                 'tensor': tuple(py.randint(1, 3)
                                 for _ in range(py.randint(1, 3)))}[kind]
        u, w = py.choice(phys.UNITS), py.choice(phys.UNITS)
        a, b, c = (np.asarray(phys.values(rng, shape, 'float'))
                   for _ in range(3))
        make = getattr(physical, kind)

        def new(d, unit):
            return make(float(d) if kind == 'scalar' else d.copy(), unit=unit)
        x, y, z = new(a, u), new(b, u), new(c, w)
        case = (kind, a.tolist(), b.tolist(), c.tolist(), u, w)

        def sees(key, r, d, unit):
            ck.check(type(r) is type(x) and phys.same_unit(r.unit, unit)
                     and np.allclose(np.array(r.data, dtype=float), d,
                                     rtol=1e-12), f'{kind}-{key}', case,
                     lambda: f'{r!r}; expected {d} {unit}')
        with ck.guard(f'{kind}-arithmetic', case):
            U, W = phys.unit_value(u), phys.unit_value(w)
            for s, op in ADD:
                sees('add', op(x, y), op(a, b), U)
            for s, op in MUL:
                sign = 1 if s == '*' else -1
                sees('mul', op(x, z), op(a, c), phys.combine(U, W, sign))
                k = number(py)
                sees('mul-number', op(x, k), op(a, k), U)
                sees('rmul-number', op(k, x), op(k, a),
                     phys.power(U, sign))
                t = physical.scalar(k, unit=w)
                sees('mul-scalar', op(x, t), op(a, k),
                     phys.combine(U, W, sign))
            for s, op in CMP:
                r = op(x, y)
                ck.check(np.array_equal(np.array(r), op(a, b)),
                         f'{kind}-compare', case, lambda: repr(r))
            p = py.choice([2, 3, -1])
            sees('power', x ** p, a ** p, phys.power(U, p))
            sees('abs', abs(x), np.abs(a), U)
            sees('neg', -x, -a, U)
            sees('pos', +x, a, U)
            if kind == 'scalar':
                sees('floor', math.floor(x), math.floor(a), U)
                sees('ceil', math.ceil(x), math.ceil(a), U)
                sees('trunc', math.trunc(x), math.trunc(float(a)), U)
                sees('round', round(x, 1), round(float(a), 1), U)
                ck.check(int(x) == int(a) and float(x) == float(a),
                         'scalar-cast', case)
            ck.check(x == new(a, u) and not (x != new(a, u)),
                     f'{kind}-equal', case)
            if not np.array_equal(a, b):
                ck.check(x != y and not (x == y), f'{kind}-unequal', case)
            if not phys.same_unit(u, W):
                ck.check(x != new(a, w), f'{kind}-unequal', case)
                for s, op in (*ADD, *CMP):
                    ck.rejects(f'{kind}-refuse', (s, case),
                               lambda: op(x, z), (ValueError,))
            k = number(py)
            none = new(a, '1')
            for s, op in ADD:
                sees('add-number', op(none, k), op(a, k), NONE)
                sees('add-number', op(k, none), op(k, a), NONE)
                if u != '1':
                    ck.rejects(f'{kind}-refuse', (s, case, k),
                               lambda: op(x, k), (TypeError,))
                    ck.rejects(f'{kind}-refuse', (k, s, case),
                               lambda: op(k, x), (TypeError,))
            if u != '1':
                ck.rejects(f'{kind}-refuse', case, lambda: z ** x,
                           (ValueError,))
            sees('kept', x, a, U)
            sees('kept', z, c, W)
    for e in ('add+', 'compare', 'unequal-axes', 'refuse-unit', 'add-fill',
              'add-number', 'mul-scalar', 'mul-value', 'mul-number', 'mul-arrays', 'power', 'power-arrays',
              'empty',
              'power of negatives', 'refuse-order', 'scalar-mul', 'vector-mul', 'tensor-mul'):
        ck.require(e, 20)


if __name__ == '__main__':
    sys.exit(harness.main('C07', RULE, body))

"""C06: histories of conversions and views keep the numbers they stand for."""
import math
import sys

from vlib import harness, phys
from eprempy import measured, physical, quantity

np = harness.numpy
RULE = (
    'random histories of unit conversion, transposition, subscripting, '
    'scaling and negation on physical objects, each object compared with a '
    'numpy model when made and again later; distinct = distinct steps'
)


def step(py, m, x):
    """(label, model, object) after one random operation."""
    op = py.choice(['unit', 'unit', 'unit', 'transpose', 'subscript', 'scale',
                    'neg', 'same', 'double', 'abs', 'negate-name'])
    if op == 'unit':
        family = next(f for f in phys.FAMILIES if m.unit in f)
        new = py.choice(family)
        return (op, new), m.withunit(new), x.withunit(new)
    if op == 'transpose':
        order = py.sample(range(m.data.ndim), m.data.ndim)
        how = py.choice(['index', 'name', 'sequence', 'names']
                        [2 * (len(order) == 1):])
        args = order if how in ('index', 'sequence') else [
            m.names[i] for i in order]
        y = (x.transpose(*args) if how in ('index', 'name')
             else x.transpose(py.choice([list, tuple])(args)))
        return (op, how, tuple(order)), m.permute(order), y
    if op == 'subscript':
        index = phys.subscripts(py, m.data.shape)
        y = x[tuple(index)] if len(index) > 1 or py.random() < .5 else (
            x[index[0]] if not isinstance(index[0], list) else x[(index[0],)])
        return (op, repr(index)), m.subscript(index), y
    if op == 'scale':
        k = py.choice([2, 0.5, -3, 1e-3, 7.25])
        how = py.choice(['left', 'right', 'div'])
        y = {'left': lambda: k * x, 'right': lambda: x * k,
             'div': lambda: x / k}[how]()
        return (op, how, k), m.map(
            (lambda d: d / k) if how == 'div' else lambda d: d * k), y
    if op == 'double':
        how = py.choice(['+', '-'])
        return (op, how), m.map(lambda d: d + d if how == '+' else d - d), (
            x + x if how == '+' else x - x)
    if op == 'abs':
        return (op,), m.map(np.abs), abs(x)
    if op == 'same':
        return (op,), m.map(lambda d: +d), +x
    return ('neg',), m.map(lambda d: -d), -x


MAKE = ('scalar', 'vector', 'tensor', 'array', 'sequence', 'coordinates')


def created(ck):
    """Objects made from other measured objects keep numbers and unit."""
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(1000, 15000)):
        family = py.choice(phys.FAMILIES)
        u = py.choice(family)
        shape = py.choice([(), (1,), (1, 1), (py.randint(2, 5),),
                           (2, py.randint(1, 3))])
        d = np.asarray(phys.values(rng, shape, py.choice(['float', 'wide'])))
        flat = d.ravel().tolist()
        sources = {'tensor': lambda: physical.tensor(
            d if shape else [float(d)], unit=u)}
        if d.size == 1 and len(shape) < 2:
            sources['scalar'] = lambda: physical.scalar(flat[0], unit=u)
            sources['value'] = lambda: measured.value(flat[0], u)
        if len(shape) < 2:
            sources.update({
                'vector': lambda: physical.vector(flat, unit=u),
                'sequence': lambda: measured.sequence(flat, u),
                'measurement': lambda: quantity.measure(*flat, u),
                'coordinates': lambda: physical.coordinates(
                    quantity.measure(*flat, u)),
            })
        if shape:
            sources['array'] = lambda: physical.array(
                d, unit=u, axes=phys.NAMES[:d.ndim])
        source = py.choice(sorted(sources))
        target = py.choice(MAKE)
        other = py.choice(family)
        case = (source, target, d.tolist(), u, other)
        refused = ((target == 'scalar' and d.size != 1)
                   or (target in ('vector', 'coordinates')
                       and len(shape) > 1))
        make = (measured.sequence if target == 'sequence'
                else getattr(physical, target))
        with ck.guard('created', case):
            x = sources[source]()
            if py.random() < .5:
                x = x.withunit(other)
            else:
                other = u
            if target == 'coordinates' and refused:
                continue
            if refused:
                ck.rejects('created-refuse', case, lambda: make(x),
                           (TypeError,))
                continue
            axes = None
            if target == 'array' and source != 'array' and py.random() < .5:
                axes = phys.NAMES[2:2 + max(1, d.ndim)]
                y = make(x, axes=axes)
            else:
                y = make(x)
            want = np.asarray(flat) * phys.factor(u, other)
            held = y.data if target != 'coordinates' else y.data.data
            got = np.array(held, dtype=float)
            keeps = {'scalar': (), 'sequence': (d.size,),
                     'coordinates': (d.size,)}.get(target, shape or (1,))
            ck.check(got.shape == tuple(keeps)
                     and np.allclose(got.ravel(), want, rtol=1e-9, atol=0)
                     and phys.same_unit(y.unit, phys.unit_value(other)),
                     'created', case, lambda: f'{y!r} from {x!r}')
            back = np.array((y.withunit(u).data if target != 'coordinates'
                             else y.withunit(u).data.data), dtype=float)
            ck.check(np.allclose(back.ravel(), flat, rtol=1e-9, atol=0),
                     'created-unit', case, lambda: f'{y.withunit(u)!r}')
            if axes:
                ck.check(list(y.dimensions) == list(axes), 'created-axes',
                         case, lambda: f'{y!r}')
                ck.rejects('created-axes-refuse', case,
                           lambda: physical.array(y, axes=axes),
                           (ValueError,))
            if target != 'coordinates':
                ck.rejects('created-unit-refuse', case,
                           lambda: make(x, unit=u), (ValueError,))
            again = np.array(getattr(x.data, 'data', x.data)
                             if source == 'coordinates' else x.data,
                             dtype=float)
            ck.check(np.allclose(again.ravel(), want, rtol=1e-9, atol=0)
                     and phys.same_unit(x.unit, phys.unit_value(other)),
                     'created-source', case, lambda: f'{x!r}')


def body(ck):
    created(ck)
    py, rng = ck.py, ck.rng
    for _ in range(ck.scale(700, 12000)):
        if not ck.budget(150, 700):
            break
        family = py.choice(phys.FAMILIES)
        m = phys.Model.random(rng, py, unit=py.choice(family))
        history = [repr(m)]
        with ck.guard('history', history):
            x = m.build(py)
            ck.check(m.judge(x) is None, 'create', history,
                     lambda: m.judge(x))
            made = [(m, x)]
            for _ in range(py.choice([2, 4, 6])):
                # continue from the newest object, or branch off an old one
                m, x = made[-1] if py.random() < .7 else py.choice(made)
                old = x
                label, n, y = step(py, m, x)
                history.append(label)
                bad = n.judge(y)
                ck.check(bad is None, f'step-{label[0]}', history, bad)
                bad = m.judge(old)
                ck.check(bad is None, 'operand-kept', history, bad)
                made.append((n, y))
                if 0 in n.data.shape:
                    made.pop()
            # objects of the whole history still stand for their numbers
            for k, (n, y) in enumerate(made):
                bad = n.judge(y)
                ck.check(bad is None, 'still', (history, k), bad)
                z = y.withunit(made[0][0].unit)
                w = n.withunit(made[0][0].unit)
                bad = w.judge(z)
                ck.check(bad is None, 'back', (history, k), bad)
            # same numbers through squeezed views and casts
            n, y = made[-1]
            ck.check(np.allclose(y.squeezed, n.data.squeeze(), rtol=1e-9),
                     'squeezed', history)
            if n.data.size == 1:
                ck.check(math.isclose(float(y), n.data.item(), rel_tol=1e-9),
                         'float', history)
    # scalars, vectors and tensors
    for _ in range(ck.scale(600, 8000)):
        family = py.choice(phys.FAMILIES)
        u = py.choice(family)
        kind = py.choice(['scalar', 'vector', 'tensor'])
        shape = {'scalar': (), 'vector': (py.randint(1, 5),),
                 'tensor': tuple(py.randint(1, 3)
                                 for _ in range(py.randint(1, 3)))}[kind]
        d = np.asarray(phys.values(rng, shape, py.choice(['float', 'wide'])))
        history = [kind, d.tolist(), u]
        make = getattr(physical, kind)

        def ok(x, d, u):
            return (phys.same_unit(x.unit, phys.unit_value(u)) and np.allclose(
                np.array(x.data, dtype=float), d, rtol=1e-9, atol=0))
        with ck.guard(f'{kind}-history', history):
            x = make(float(d) if kind == 'scalar' else d, unit=u)
            made = [(d, u, x)]
            for _ in range(4):
                d, u, x = py.choice(made[-2:])
                op = py.choice(['unit', 'unit', 'scale', 'neg', 'double'])
                if op == 'unit':
                    w = py.choice(family)
                    new = (d * phys.factor(u, w), w, x.withunit(w))
                elif op == 'scale':
                    k = py.choice([2, -0.25, 1e6])
                    new = (d * k, u, py.choice([lambda: k * x, lambda: x * k])())
                elif op == 'neg':
                    new = (-d, u, -x)
                else:
                    new = (d + d, u, x + x)
                history.append((op, new[1]))
                ck.check(ok(new[2], new[0], new[1]), f'{kind}-{op}', history,
                         lambda: f'{new[2]!r} expected {new[0]} {new[1]}')
                ck.check(type(new[2]) is type(x), f'{kind}-type', history)
                made.append(new)
            for d, u, x in made:
                ck.check(ok(x, d, u), f'{kind}-still', history)
                if kind == 'scalar':
                    ck.check(math.isclose(float(x), float(d), rel_tol=1e-9),
                             'scalar-float', history)
                else:
                    ck.check(np.allclose(np.array(x), d, rtol=1e-9),
                             f'{kind}-array', history)
                if kind == 'vector':
                    ck.check([float(i) for i in x] == list(x.data)
                             and all(i.unit == x.unit for i in x)
                             and len(x) == d.size, 'vector-iter', history)
            ck.rejects(f'{kind}-refuse', history, lambda: x.withunit(
                'kg' if family is not phys.FAMILIES[4] else 'm'))
    for e in ('created', 'created-axes', 'created-refuse', 'step-unit', 'step-transpose', 'step-subscript', 'step-scale',
              'step-double', 'still', 'back', 'operand-kept'):
        ck.require(e, 20)


if __name__ == '__main__':
    sys.exit(harness.main('C06', RULE, body))

"""C09: subscripting selects exactly the numbers and axes asked for."""
import sys

import netCDF4

from vlib import harness, phys
from vlib.phys import Model
from eprempy import measured, physical, real

np = harness.numpy
RULE = (
    'random arrays in memory and in netCDF files, random subscripts (integers, '
    'slices, index sequences, ellipsis, partial tuples), chained, before and '
    'after the data are loaded, against orthogonal numpy selection; distinct '
    '= distinct array and subscript'
)


def spell(py, index):
    """A shorter way to write this full subscript, or the same."""
    out = list(index)
    form = py.choice(['full', 'trim', 'ellipsis'])
    if form == 'full':
        return form, tuple(out)
    runs = [(i, j) for i in range(len(out)) for j in range(i + 1, len(out) + 1)
            if all(isinstance(k, slice) and k == slice(None)
                   for k in out[i:j])]
    if form == 'trim':
        while len(out) > 1 and out[-1] == slice(None) and isinstance(
                out[-1], slice):
            out.pop()
        if len(out) == 1 and not isinstance(out[0], list):
            return form, out[0]
        return form, tuple(out)
    i, j = py.choice(runs or [(len(out), len(out))])
    out[i:j] = [...]
    if len(out) == 1:
        return form, out[0]
    return form, tuple(out)


def body(ck):
    py, rng = ck.py, ck.rng
    home = ck.scratch()
    for k in range(ck.scale(450, 10000)):
        if not ck.budget(150, 700):
            break
        m = Model.random(rng, py)
        source = py.choice(['memory', 'memory', 'file'])
        path = home / f'{k}.nc'
        data = m.data
        handle = None
        if source == 'file':
            with netCDF4.Dataset(path, 'w') as f:
                for n, s in zip(m.names, data.shape):
                    f.createDimension(n, s)
                v = f.createVariable('v', 'f8', m.names)
                v[...] = data
            handle = netCDF4.Dataset(path)
            data = handle.variables['v']
        case = (source, repr(m))
        with ck.guard('subscript', case):
            first = m

            def fresh(new):
                """The array and its plain twin, nothing loaded yet."""
                P = physical.array(data, unit=first.unit, axes={
                    n: phys.given(py, a)
                    for n, a in zip(first.names, first.axes)})
                if new:
                    P = P.withunit(new)
                return P, real.array(data, *first.names)

            P, R = fresh(None)
            new = None
            if py.random() < .4:
                new = py.choice(next(f for f in phys.FAMILIES if m.unit in f)
                                if m.unit not in ('K', 'W', '1')
                                else [m.unit])
                P, m = P.withunit(new), m.withunit(new)
            again = source == 'file' and py.random() < .7
            if not again and py.random() < .5:
                np.array(P), np.array(R)  # load the data first
            base = Model(m.data if new is None else np.array(R), m.unit,
                         m.names, m.axes)
            for _ in range(10 if again else 4):
                if again:
                    P, R = fresh(new)  # so that this reads from the file
                index = phys.subscripts(py, m.data.shape)
                form, key = spell(py, index)
                if (isinstance(key, tuple) and len(key) == 1
                        and isinstance(key[0], list)):
                    key = (key[0], ...)
                    if m.data.ndim == 1:
                        continue
                want = m.subscript(index)
                c = (case, form, repr(key))
                x = P[key]
                bad = want.judge(x)
                ck.check(bad is None, f'physical-{source}-{form}', c, bad)
                y = R[key]
                w = base.subscript(index)
                ck.check(tuple(y.dimensions) == m.names
                         and tuple(y.shape) == w.data.shape
                         and np.array_equal(np.array(y), w.data),
                         f'real-{source}-{form}', c, lambda: f'{y!r}')
                bad = m.judge(P)
                ck.check(bad is None, 'subscripted-kept', c, bad)
                # subscript the result again
                if 0 not in want.data.shape:
                    index = phys.subscripts(py, want.data.shape)
                    z = want.subscript(index)
                    bad = z.judge(x[tuple(index)] if len(index) > 1
                                  else x[index[0]])
                    ck.check(bad is None, 'again', (c, repr(index)), bad)
            # whole array in any form
            for key in (..., slice(None), (...,), (slice(None),) * P.ndim,
                        (..., *(slice(None),) * P.ndim)):
                if key == (..., *(slice(None),) * P.ndim):
                    key = (*(slice(None),) * P.ndim, ...)
                bad = m.judge(P[key])
                ck.check(bad is None, 'whole', (case, key), bad)
            # nothing selected
            index = phys.subscripts(py, m.data.shape)
            d, k = py.randrange(P.ndim), py.randint(0, 4)
            index[d] = slice(k, k) if py.random() < .7 else slice(
                P.shape[d], None)
            want = m.subscript(index)
            bad = want.judge(P[tuple(index)])
            ck.check(bad is None, 'nothing', (case, index), bad)
            ck.check(R[tuple(index)].shape == want.data.shape
                     and tuple(R[tuple(index)].dimensions) == m.names,
                     'nothing', (case, index))
            # containment, equality and iteration
            flat = base.data.ravel()
            v = float(flat[py.randrange(flat.size)])
            out = float(np.abs(flat).max()) * 1.5 + 1
            ck.check(v in R and R.contains(v) and R.contains(v * (1 + 1e-9))
                     and out not in R and not R.contains(out)
                     and not R.contains(-out), 'contains', (case, v, out))
            v = float(np.array(P).ravel()[py.randrange(flat.size)])
            out = float(np.abs(m.data).max()) * 1.5 + 1
            ck.check(v in P and out not in P and -out not in P,
                     'contains', (case, v, out))
            # measured numbers are there only in the unit of the array
            other = 's^5' if m.unit != 's^5' else 'm'
            for make in (physical.scalar, measured.value):
                ck.check(make(v, P.unit) in P and make(v, other) not in P
                         and make(out, P.unit) not in P, 'contains measured',
                         (case, v, make.__name__))
            each = list(P)
            ck.check(len(each) == P.size and each[-1] in P
                     and [float(i) for i in each] == np.array(
                         P, float).ravel().tolist()
                     and all(i.unit == P.unit for i in each[:3]),
                     'contains measured', case)
            ck.check(len(R) == len(P) == m.data.shape[0]
                     and R.size == P.size == flat.size
                     and np.array_equal([np.array(i) for i in R], base.data),
                     'iterate', case)
            Q = real.array(base.data.copy(), *m.names)
            other = base.data.copy()
            k = py.randrange(other.size)
            other.flat[k] = 2 * other.flat[k] + np.copysign(
                1, other.flat[k])
            ck.check(Q == R and not Q != R
                     and real.array(other, *m.names) != R
                     and real.array(base.data, *(f'{n}0' for n in m.names))
                     != R, 'equal', case)
            if P.ndim > 1:
                ck.check(real.array(base.data, *m.names[::-1]) != R,
                         'equal', case)
            # what is not there is refused
            d = py.randrange(P.ndim)
            n = P.shape[d]
            wrong = [slice(None)] * P.ndim
            wrong[d] = py.choice([n, n + 3, -n - 1])
            wrong = tuple(wrong)
            ck.rejects('outside', (case, wrong), lambda: P[wrong],
                       (IndexError, ValueError))
            ck.rejects('outside', (case, wrong), lambda: R[wrong],
                       (IndexError, ValueError))
            many = (0,) * (P.ndim + 1)
            ck.rejects('too-many', (case, many), lambda: P[many],
                       (IndexError, ValueError))
            ck.rejects('too-many', (case, many), lambda: R[many],
                       (IndexError, ValueError))
            if P.ndim > 1:
                ck.rejects('ellipses', case, lambda: P[..., 0, ...],
                           (IndexError,))
        if handle is not None:
            handle.close()
            path.unlink()
    # -- vectors, tensors and sequences have numbers and a unit, but no axes
    for k in range(ck.scale(250, 6000)):
        if not ck.budget(150, 700):
            break
        kind = py.choice(['vector', 'tensor', 'sequence'])
        shape = tuple(py.randint(1, 5) for _ in range(
            py.randint(1, 3) if kind == 'tensor' else 1))
        d = phys.values(rng, shape, py.choice(['float', 'int', 'positive']))
        u = py.choice(phys.UNITS)
        new = {'vector': physical.vector, 'tensor': physical.tensor,
               'sequence': measured.sequence}[kind]
        x = new(d.copy(), u)
        if py.random() < .5 and u not in ('K', 'W', '1'):
            w = py.choice(next(f for f in phys.FAMILIES if u in f))
            x, d, u = x.withunit(w), d * phys.factor(u, w), w
        case = (kind, d.tolist(), u)
        with ck.guard(f'{kind}-part', case):
            for _ in range(3):
                index = tuple(i if isinstance(i, (int, np.integer, slice)) else list(i)
                              for i in phys.subscripts(py, shape))
                if sum(isinstance(i, list) for i in index) > 1:
                    continue
                key = index[0] if len(index) == 1 else index
                want, got = d[key], x[key]
                # one number is a scalar, however it was selected
                one = want.size == 1
                ck.check(
                    got.unit == x.unit
                    and (one or type(got) is type(x)
                         and np.shape(got) == want.shape)
                    and np.allclose(np.array(got.data, float).ravel(),
                                    want.ravel(), rtol=1e-9, atol=0),
                    f'{kind}-part', (case, repr(key)), lambda: repr(got))
            flat = d.ravel()
            ck.check(len(x) == shape[0] and x.size == flat.size
                     and np.allclose([float(i) for i in x], flat, rtol=1e-9,
                                     atol=0)
                     and all(i.unit == x.unit for i in x),
                     f'{kind}-iterate', case)
            v = float(np.array(x).ravel()[py.randrange(flat.size)])
            out = float(np.abs(flat).max()) * 1.5 + 1
            other = 's^5' if u != 's^5' else 'm'
            if kind != 'sequence':
                ck.check(v in x and out not in x and -out not in x,
                         f'{kind}-contains', (case, v, out))
            for make in (physical.scalar, measured.value):
                ck.check(make(v, x.unit) in x and make(v, other) not in x
                         and make(out, x.unit) not in x, f'{kind}-contains',
                         (case, v, make.__name__))
            n = shape[0]
            for wrong in (n, n + 3, -n - 1, (0,) * (len(shape) + 1)):
                ck.rejects(f'{kind}-outside', (case, wrong),
                           lambda: x[wrong], (IndexError,))
            ck.check(np.allclose(np.array(x, float), d, rtol=1e-9, atol=0),
                     f'{kind}-kept', case)
    for e in ('vector-part', 'tensor-part', 'sequence-part',
              'vector-contains', 'tensor-contains', 'contains measured', 'physical-memory-full', 'physical-file-full', 'real-file-trim',
              'physical-memory-ellipsis', 'again', 'outside', 'too-many'):
        ck.require(e, 20)


if __name__ == '__main__':
    sys.exit(harness.main('C09', RULE, body))

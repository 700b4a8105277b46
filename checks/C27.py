"""C27: objects print, copy, store, and plot their true numbers and units."""
import copy
import os
import pickle
import re
import sys
from fractions import Fraction as F

from vlib import harness, phys, synth
from eprempy import (aliased, atomic, eprem, metric, physical, quantity,
                     symbolic, universal)

np = harness.numpy
RULE = (
    'random objects of every kind, after conversions, subscripts, and '
    'arithmetic, printed, copied, pickled, and plotted in random units '
    'against random quantities, with failing plots in between; distinct = '
    'distinct objects and ways of plotting'
)
NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf|nan'


def numbers(text):
    return [float(x) for x in re.findall(NUMBER, text)]


def head(text):
    """The bracketed or leading numbers of a printed object."""
    start = text.index('[') if '[' in text else 0
    depth = 0
    for k in range(start, len(text)):
        depth += (text[k] == '[') - (text[k] == ']')
        if text[k] == ']' and not depth:
            return text[start:k + 1]
    return text.split(',')[0]


def shows(text, data, digits=3, tiny=0.0):
    """Every printed number is one of these, and the ends are there."""
    data = np.ravel(data)
    got = numbers(head(text))
    if not len(data):
        return not got
    scale = np.abs(data[np.isfinite(data)]).max() if len(data) else 0.0
    near = 10.0 ** -digits * scale + tiny
    if len(got) > len(data) or not got:
        return False
    if len(got) < len(data) and '...' not in text:
        return False
    return (all(np.abs(data - g).min() <= near for g in got)
            and abs(got[0] - data[0]) <= near
            and abs(got[-1] - data[-1]) <= near)


def printed(ck, obj, data, unit, case, kind):
    for how, text in (('str', str(obj)), ('repr', repr(obj))):
        ck.check(isinstance(text, str) and shows(text, data), f'{how} numbers',
                 (kind, case), lambda: f'{text!r} for {data!r:.300}')
        if unit is not None:
            ck.check(str(metric.unit(unit)) in text, f'{how} unit',
                     (kind, case), text)
    ck.check(type(obj).__qualname__.split('.')[-1] in repr(obj), 'type',
             (kind, case), repr(obj))


COPIES = {
    'copy': copy.copy, 'deepcopy': copy.deepcopy,
    **{f'pickle {p}': (lambda x, p=p: pickle.loads(pickle.dumps(x, p)))
       for p in (2, 4, 5)},
}


def plain(x):
    """The numbers of a measured object."""
    return np.ravel(np.array(x, dtype=float))


def duplicate(py, obj):
    how = py.choice(list(COPIES))
    return how, COPIES[how](obj)


def arrays(ck):
    """Arrays, scalars, vectors, tensors, and axes."""
    py, rng = ck.py, ck.rng
    for n in range(ck.scale(350, 4000)):
        model = phys.Model.random(rng, py, maxlen=py.choice([2, 4, 7]))
        case = (n, model.key())
        with ck.guard('arrays', case):
            obj = model.build(py)
            family = next((f for f in phys.FAMILIES if model.unit in f), None)
            for _ in range(py.randint(0, 3)):
                op = py.choice(['unit', 'permute', 'subscript', 'copy'])
                if op == 'unit' and family:
                    u = py.choice(family)
                    obj, model = obj.withunit(u), model.withunit(u)
                elif op == 'permute' and model.data.ndim > 1:
                    order = py.sample(range(model.data.ndim),
                                      model.data.ndim)
                    obj, model = obj.transpose(*order), model.permute(order)
                elif op == 'subscript':
                    index = tuple(slice(0, py.randint(1, k))
                                  for k in model.data.shape)
                    obj, model = obj[index], model.subscript(index)
                elif op == 'copy':
                    how, other = duplicate(py, obj)
                    wrong = model.judge(other)
                    ck.check(wrong is None, 'copied', (case, how), wrong)
                    ck.check(model.judge(obj) is None, 'original', case)
                    ck.saw(how, case)
                    obj = other
            printed(ck, obj, model.data, model.unit, case, 'array')
            ck.check(all(re.search(rf'\b{d}\b', str(obj))
                         for d in model.names), 'names', case, str(obj))
            how, other = duplicate(py, obj)
            wrong = model.judge(other)
            ck.check(wrong is None, 'copied', (case, how), wrong)
            ck.check(bool(np.all(np.array(other == obj))), 'equal', case)
            if family:
                u = py.choice(family)
                wrong = model.withunit(u).judge(other.withunit(u))
                ck.check(wrong is None, 'converted copy', (case, how, u),
                         wrong)
            name = py.choice(model.names)
            ax = model.axes[model.names.index(name)]
            axis = obj.axes[name]
            for text in (str(axis), repr(axis)):
                if ax[0] == 'symbols':
                    ck.check(ax[1][0] in text and ax[1][-1] in text,
                             'axis text', (case, ax), text)
                else:
                    ck.check(shows(text, ax[1], 2, 1e-3) and (
                        ax[2] is None or str(metric.unit(ax[2])) in text),
                        'axis text', (case, repr(ax)), text)
            ck.check(all(n in str(obj.axes) for n in model.names),
                     'axes text', case, str(obj.axes))
            how, other = duplicate(py, axis)
            ck.check(phys.axis_ok(other, ax) and other == axis, 'copied axis',
                     (case, how), repr(other))
            how, other = duplicate(py, obj.axes)
            ck.check(other == obj.axes and all(
                phys.axis_ok(other[d], a)
                for d, a in zip(model.names, model.axes)), 'copied axes',
                (case, how), repr(other))
        u = py.choice(phys.UNITS)
        family = next((f for f in phys.FAMILIES if u in f), [u])
        data = phys.values(rng, (py.randint(1, 6),)).astype(float)
        with ck.guard('measured', (u, data.tolist())):
            for kind, make in (
                    ('scalar', lambda: physical.scalar(float(data[0]), u)),
                    ('vector', lambda: physical.vector(data, u)),
                    ('tensor', lambda: physical.tensor(data, u)),
                    ('measurement', lambda: quantity.measure(*data, u)),
                    ('measurement 1', lambda: quantity.measure(
                        float(data[0]), u))):
                x = make()
                want = data if kind in ('vector', 'tensor', 'measurement') \
                    else data[:1]
                v = py.choice(family)
                if 'measurement' not in kind and py.random() < 0.5:
                    x = x.withunit(v)
                    want = want * phys.factor(u, v)
                else:
                    v = u
                case = (kind, u, v, data.tolist())
                printed(ck, x, want, v, case, kind)
                how, y = duplicate(py, x)
                ck.check(np.allclose(plain(y), want, rtol=1e-9,
                                     atol=0)
                         and y.unit == metric.unit(v) and type(y) is type(x)
                         and bool(np.all(np.array(y == x))), 'copied',
                         (case, how), repr(y))
                ck.saw(how, case)
                if 'measurement' not in kind:
                    z = y.withunit(u)
                    ck.check(np.allclose(plain(z), want
                                         / phys.factor(u, v), rtol=1e-9,
                                         atol=0), 'converted copy',
                             (case, how), repr(z))
                if kind == 'scalar':
                    ck.check(str(float(x)) in str(x), 'every digit', case,
                             str(x))


def symbols(ck):
    """Units, expressions, and other things that are known by their text."""
    py = ck.py
    for n in range(ck.scale(600, 8000)):
        parts = [(py.choice(['m', 'km', 's', 'J', 'nT', 'keV', 'sr', 'kg']),
                  py.choice(['1', '2', '3', '-1', '-2', '1/2', '-3/2']))
                 for _ in range(py.randint(1, 4))]
        words = [b if e == '1' else f'{b}^{e}' for b, e in parts]
        text = ' '.join(words)
        swapped = list(words)
        py.shuffle(swapped)
        case = (text, ' * '.join(swapped))
        with ck.guard('symbols', case):
            a = symbolic.expression(text)
            b = symbolic.expression(' * '.join(swapped))
            ck.check(a == b and hash(a) == hash(b), 'hash', case)
            for t, s in ((a, b), ):
                terms = {repr(x): x for x in t}
                for x in s:
                    y = terms.get(repr(x))
                    ck.check(y is None or (y == x and hash(y) == hash(x)),
                             'hash of terms', case)
            ck.check(len({a, b, symbolic.expression(str(a))}) == 1, 'set',
                     case)
            for obj in (a, metric.unit(text), metric.unit(text).dimensions,
                        metric.system('mks'), universal.MKS['c']):
                how, other = duplicate(py, obj)
                ck.check(other == obj and str(other) == str(obj)
                         and repr(other) == repr(obj)
                         and type(other) is type(obj), 'copied', (case, how),
                         lambda: f'{other!r} of {obj!r}')
                ck.check(str(obj) in repr(obj), 'repr', case, repr(obj))
            u = metric.unit(text)
            how, v = duplicate(py, u)
            ck.check(metric.unit(v) == u and (v * u) == u ** 2
                     and (v / u) == metric.unit('1'), 'copied unit', (case,
                                                                      how))
            tex = {}
            number = py.choice([
                2, 3, 0.5, 2.5, 1.005, 1.0001, 1e-7, 1e20, 12345.678,
                float(f'{py.uniform(0.9, 3.1):.{py.randint(1, 9)}f}')])
            b = symbolic.expression(f'{number!r} * {text}')
            lead = F(repr(number))
            shown = str(b).split()[0]
            ck.check(lead == 1 or shown == str(lead), 'coefficient', (
                case, number), str(b))
            ck.check(symbolic.expression(str(b)) == b, 'coefficient again',
                     (case, number), str(b))
            ck.check(lead == 1 or b.format(style='tex').split()[0]
                     == str(lead), 'coefficient in TeX', (case, number),
                     b.format(style='tex'))
            for obj in (a, u):
                text = obj.format(style=py.choice(['tex', 'TeX']))
                got = {}
                for m in re.finditer(
                        r'\$\\mathrm\{([^}]*)\}(?:\^\{([^}]*)\})?\$', text):
                    got[m[1]] = m[2] or '1'
                want = {}
                for term in obj:
                    if term.base != '1':
                        want[term.base] = str(term.exponent)
                ck.check(got == want and (text == '1' or len(
                    text.split()) == len(want)), 'tex', (case, str(obj)),
                    text)
                ck.check(obj.format(separator=' * ') == ' * '.join(
                    str(t) for t in obj) and obj.format() == str(obj),
                    'format', case, obj.format(separator=' * '))
                tex[str(obj)] = text
    for pairs in (('km', 'm'), ('MeV', 'erg'), ('au / day', 'cm / s')):
        c = metric.conversion(*pairs)
        for how, f in COPIES.items():
            d = f(c)
            ck.check(float(d) == float(c) and str(d) == str(c)
                     and d.old == c.old and d.new == c.new, 'conversion',
                     (pairs, how), repr(d))
    for s in ('H+', 'He++', 'O6+' if False else 'Fe+'):
        a = atomic.species(s)
        for how, f in COPIES.items():
            b = f(a)
            ck.check((b.symbol, b.mass, b.charge) == (a.symbol, a.mass,
                                                      a.charge)
                     and str(b) == str(a) and s in repr(b), 'species',
                     (s, how), repr(b))
    for n in range(ck.scale(60, 600)):
        groups = {}
        free = list('abcdefgh')
        py.shuffle(free)
        while len(free) > 2:
            k = py.randint(1, 3)
            groups[tuple(free[:k])] = py.choice([1, 'x', None, [2]])
            del free[:k]
        m = aliased.Mapping(groups)
        for how, f in COPIES.items():
            with ck.guard('mapping', (n, how)):
                d = f(m)
                ck.check(d == m and all(
                    d[k] == v for g, v in groups.items() for k in g)
                    and all(k in str(d) for g in groups for k in g),
                    'mapping', (repr(groups), how),
                    repr(d))


class Figures:
    """What is on each figure when it is shown or saved."""

    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.seen = plt, []
        self.show, self.savefig = plt.show, Figure.savefig
        plt.show = lambda *args, **kwargs: self.look(plt.gcf(), None)

        def save(fig, path, *args, **kwargs):
            self.look(fig, str(path))
            return self.savefig(fig, path, *args, **kwargs)
        self.figure = Figure
        Figure.savefig = save

    def look(self, fig, path):
        self.seen.append((path, [{
            'lines': [(np.asarray(line.get_xdata()),
                       np.asarray(line.get_ydata(), dtype=float),
                       line.get_color(), line.get_linestyle())
                      for line in ax.lines],
            'x': ax.get_xlabel(), 'y': ax.get_ylabel(),
            'title': ax.get_title(), 'xscale': ax.get_xscale(),
            'yscale': ax.get_yscale(), 'xlim': ax.get_xlim(),
            'ylim': ax.get_ylim(), 'margins': ax.margins(),
            'xticks': list(ax.get_xticks()), 'yticks': list(ax.get_yticks()),
            'xticklabels': [t.get_text() for t in ax.get_xticklabels()],
            'xbound': ax.get_xbound(), 'ybound': ax.get_ybound(),
            } for ax in fig.axes]))

    def restore(self):
        self.plt.show, self.figure.savefig = self.show, self.savefig


def plots(ck):
    """Plots of arrays, one after another."""
    py, rng = ck.py, ck.rng
    folder = ck.scratch()
    figures = Figures()
    run = synth.make_run(rng, 'dist')
    synth.write_run(run, folder / 'obs000000.nc')
    synth.write_config(folder / 'eprem_input_file',
                       {'numNodesPerStream': 100})
    stream = eprem.stream(0, source=str(folder))
    try:
        for n in range(ck.scale(140, 1200)):
            plot(ck, figures, folder, n)
        for name in ('r', 'rho', 'br'):
            with ck.guard('observed', name):
                a = stream[name][:, 0]
                figures.seen.clear()
                a.plot(unit=None)
                (_, (axes,)), = figures.seen
                ck.check(np.array_equal(axes['lines'][0][1],
                                        np.array(a).squeeze())
                         and np.allclose(axes['lines'][0][0], np.array(
                             quantity.measure(a.axes['time'])))
                         and 'Time' in axes['x'], 'observed', name,
                         axes['x'])
    finally:
        figures.restore()
    ck.check(not figures.plt.get_fignums(), 'figures left', 'all',
             figures.plt.get_fignums())


def plot(ck, figures, folder, n):
    py, rng = ck.py, ck.rng
    ndim = py.choice([1, 1, 2, 3])
    names = py.sample(['x', 'time', 'shell', 'energy', 'mu'], ndim)
    shape = [1] * ndim
    main = py.randrange(ndim)
    shape[main] = size = py.randint(2, 7)
    u = py.choice(phys.UNITS)
    family = next((f for f in phys.FAMILIES if u in f), [u])
    data = rng.normal(size=shape)
    axes = [phys.axis(py, k, py.choice(['points', 'coordinates', 'range']))
            for k in shape]
    model = phys.Model(data, u, names, axes)
    obj = model.build(py)
    if py.random() < 0.4:
        v = py.choice(family)
        obj, model = obj.withunit(v), model.withunit(v)
    kwargs, args, want = {}, (), {}
    unit = model.unit
    if py.random() < 0.5:
        kwargs['unit'] = unit = py.choice(family)
        if py.random() < 0.3:
            kwargs['unit'] = metric.unit(unit)
    y = model.withunit(unit).data.ravel()
    label = metric.unit(unit).format(style='tex')
    kind, ref, refunit = axes[main]
    name = names[main]
    x, words = np.array(ref, dtype=float), [name.capitalize()]
    if kind == 'coordinates':
        words.append(str(metric.unit(refunit)))
    way = py.choice(['default', 'default', 'name', 'vector', 'coordinates',
                     'measurement'])
    if way == 'name':
        kwargs['x'], words = name, [name]
    elif way != 'default':
        x, words = rng.normal(size=size), []
        if way == 'vector':
            kwargs['x'] = physical.vector(x, 'km')
        elif way == 'measurement':
            kwargs['x'] = quantity.measure(*x, 'km')
        else:
            kwargs['x'] = physical.coordinates(quantity.measure(*x, 'km'))
            words = ['km']
    if py.random() < 0.4:
        kwargs['title'] = want['title'] = f'title {n}'
    if py.random() < 0.3:
        kwargs['xlabel'] = want['x'] = f'given {n}'
    if py.random() < 0.3:
        kwargs['ylabel'] = want['y'] = f'given y {n}'
    if py.random() < 0.2:
        kwargs['xlim'] = want['xlim'] = (-3.0, 8.0)
    if py.random() < 0.2:
        kwargs['yscale'] = want['yscale'] = 'symlog'
    if 'ylim' not in kwargs and py.random() < 0.2:
        kwargs['ylim'] = want['ylim'] = (-2.0, 9.0)
    for key, value in (('xticks', [0.0, 1.0, 3.0]), ('yticks', [-1.0, 2.5])):
        if py.random() < 0.15:
            kwargs[key] = want[key] = value
    if 'xticks' in want and py.random() < 0.5:
        kwargs['xticklabels'] = want['xticklabels'] = ['p', 'q', 'r']
    if not {'xlim', 'xticks'} & set(want) and py.random() < 0.2:
        kwargs['xbound'] = want['xbound'] = (-4.0, 5.0)
    if not {'ylim', 'yticks'} & set(want) and py.random() < 0.2:
        kwargs['ybound'] = want['ybound'] = (-4.0, 5.0)
    if not {'xbound', 'ybound'} & set(want) and py.random() < 0.2:
        kwargs.update(xmargin=0.25, ymargin=0.125)
        want['margins'] = (0.25, 0.125)
    style = ('#1f77b4', '-')
    if py.random() < 0.3:
        args, style = ('r--',), ('r', '--')
    if py.random() < 0.2:
        kwargs['color'], style = 'green', ('green', style[1])
        args = args and ('--',)
    path = None
    if py.random() < 0.4:
        path = folder / f'plot{n}.png'
        kwargs['path'] = py.choice([path, str(path)])
    case = (n, repr(model), way, repr(args), repr(kwargs))
    if py.random() < 0.15:
        bad = py.choice([
            lambda: obj.plot(x=physical.vector(np.ones(size + 1), 'm'),
                             title='failed', xscale='log'),
            lambda: obj.plot(nonsense=3, title='failed', ylim=(0, 1)),
            lambda: obj.plot(unit='K K', title='failed'),
            lambda: obj.plot(x=3, title='failed'),
            lambda: obj.plot(x='nothing', title='failed')])
        ck.rejects('bad plot', case, bad, (Exception,))
        ck.saw('failed plot', case)
    figures.seen.clear()
    with ck.guard('plot', case):
        before = repr(obj)
        ck.check(obj.plot(*args, **kwargs) is None, 'result', case)
        ck.check(len(figures.seen) == 1, 'once', case, len(figures.seen))
        where, drawn = figures.seen[0]
        ck.check(where == (str(path) if path else None), 'path', case, where)
        ck.check(len(drawn) == 1 and len(drawn[0]['lines']) == 1, 'one line',
                 case, lambda: repr(drawn)[:400])
        axes_, line = drawn[0], drawn[0]['lines'][0]
        ck.check(line[1].shape == y.shape and np.allclose(
            line[1], y, rtol=1e-9, atol=0), 'plotted', case,
            lambda: f'{line[1]}, not {y}')
        ck.check(np.allclose(np.asarray(line[0], dtype=float), x, rtol=1e-12,
                             atol=0), 'against', case,
                 lambda: f'{line[0]}, not {x}')
        ck.check(line[2:] == style, 'style', case, line[2:])
        for key, value in want.items():
            ck.check(axes_[key] == value, f'given {key}', case, axes_[key])
        if 'y' not in want:
            ck.check(label in axes_['y'], 'unit label', case,
                     lambda: f"{axes_['y']} for {unit}")
        if 'x' not in want:
            ck.check(all(w in axes_['x'] for w in words), 'x label', case,
                     axes_['x'])
        if 'title' not in want:
            ck.check(axes_['title'] == '', 'no title', case, axes_['title'])
        if 'yscale' not in want:
            ck.check(axes_['yscale'] == 'linear', 'no scale', case)
        ck.check(axes_['xscale'] == 'linear', 'no scale', case)
        if path:
            ck.check(path.stat().st_size > 500 and path.read_bytes()[:4]
                     == b'\x89PNG', 'file', case)
            os.remove(path)
        ck.check(not figures.plt.get_fignums(), 'closed', case)
        ck.check(repr(obj) == before and model.judge(obj) is None, 'unchanged',
                 case)
    if ndim > 1 and py.random() < 0.3:
        wide = phys.Model.random(rng, py, ndim=2)
        if min(wide.data.shape) > 1:
            before = len(figures.seen)
            ck.rejects('not a line', wide.key(),
                       lambda: wide.build(py).plot(), (Exception,))
            ck.check(len(figures.seen) == before, 'nothing drawn', case)


def body(ck):
    arrays(ck)
    symbols(ck)
    plots(ck)
    for event in ('str numbers', 'repr unit', 'copied', 'hash', 'tex',
                  'plotted', 'against', 'unit label', 'converted copy'):
        ck.require(event, 30)
    ck.require('failed plot', 2)


if __name__ == '__main__':
    sys.exit(harness.main('C27', RULE, body))

"""C20: observers and datasets read the files their names mean."""
import json
import os
import pathlib
import subprocess
import sys

import numpy as np

from eprempy import datafile, eprem, metric, parameter, paths
from vlib import harness, observe, synth

RULE = (
    'random output directories (streams, points, named points, other files, '
    'configuration files under every documented name); distinct = distinct '
    '(way to ask, kind of directory, file) observations'
)
CONFIGS = ['eprem_input_file', 'eprem.cfg', 'run.ini', 'config.in', 'a b.cfg']
NAMES = ['earth', 'PSP', 'solo', 'bepi', 'p_obspsp', 'stereo-a', 'mars1',
         'pointbypoint', 'p_obsp_obs2', 'point_p_obs1']
MISSING = (eprem.SourcePathError, FileNotFoundError, ValueError,
           paths.NonExistentPathError)
#: units of the axes of an observer
UNITS = {('time', 'mks'): 's', ('time', 'cgs'): 's', ('mu', 'mks'): '1',
         ('mu', 'cgs'): '1', ('egrid', 'mks'): 'J', ('egrid', 'cgs'): 'erg'}
SMALL = {'time': 3, 'shell': 4, 'mu': 2, 'energy': 3}


class Folder:
    """A directory of output and what it ought to contain."""

    def __init__(self, ck, root, *, config=None, extra=()):
        rng, py = ck.rng, ck.py
        self.root = root
        root.mkdir(parents=True, exist_ok=True)
        self.streams, self.points, self.named = {}, {}, {}
        self.kind = py.choice(['dist', 'flux'])
        prefixes = py.choice([['obs'], ['flux'], ['stream'],
                              ['obs', 'stream'], ['flux', 'obs'],
                              ['stream', 'flux']])
        ids = py.sample([0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 37, 99, 100, 110,
                         1000, 12345, 99999, 100000, 999999],
                        py.randint(1, 3))
        for i in ids:
            self.streams[i] = self.write(
                rng, f'{py.choice(prefixes)}{i:06}.nc')
        for i in py.sample([0, 1, 2, 3, 10, 11, 100, 999, 1000],
                           py.randint(0, 2)):
            prefix = py.choice(['p_obs', 'p_obs', 'point'])
            self.points[f'{i:03}'] = self.write(rng, f'{prefix}{i:03}.nc')
        for name in sorted({*py.sample(NAMES, py.randint(0, 2)),
                            *extra}):
            self.named[name] = self.write(rng, f'{name}.nc')
        for name in ('notes.txt', 'warnings000.txt', 'restart.bin',
                     'obs.log', 'point.txt', 'stream_list.dat', 'flux.png'):
            if py.random() < 0.3:
                (root / name).write_text('not output\n')
        self.lamo = {}
        self.config = config or py.choice(CONFIGS)
        self.add_config(py, self.config)
        if config is None and py.random() < 0.5:
            # another one, which only its name selects
            self.add_config(py, py.choice(
                [n for n in CONFIGS if n != self.config] + ['settings.txt']))

    def write(self, rng, name):
        run = synth.make_run(rng, kind=self.kind, nspecies=1, sizes=SMALL)
        run.path = synth.write_run(run, self.root / name)
        return run

    def add_config(self, py, name, where=None):
        value = round(py.uniform(0.1, 9.0), 3)
        synth.write_config((where or self.root) / name, {
            'numNodesPerStream': py.randint(10, 900), 'lamo': value})
        self.lamo[name] = value
        return value


def reads(o, run, system, lamo=None, probe=True):
    """None if this observer shows this file, or the difference."""
    path = pathlib.Path(run.path).resolve()
    if pathlib.Path(o.source) != path:
        return f"source is {o.source}, not {path}"
    if str(o) != str(path) or pathlib.Path(o.dataview.source) != path:
        return f"shown as {o}, viewing {o.dataview.source}"
    if o.system != metric.system(system):
        return f"system is {o.system}, not {system}"
    if not probe:
        return None
    for name in ('r', 'br', 'time'):
        got = np.array(o[name][:], float)
        want = run.si({'r': 'R', 'br': 'Br'}.get(name, name), system)
        if not harness.close(got, want):
            return f"{name}: {harness.describe(got, want)}"
    for axis, name in (('times', 'time'), ('energies', 'egrid'),
                       ('mus', 'mu')):
        got, want = getattr(o, axis), run.si(name, system)
        if name == 'egrid' and run.grid2d:
            continue
        if not harness.close(np.array(got.data, float), want):
            return f"{axis}: {harness.describe(np.array(got.data), want)}"
        unit = UNITS[name, system]
        if got.unit != metric.unit(unit):
            return f"{axis} are in {got.unit}, not {unit}"
    if list(o.species.data) != list(run.species):
        return f"species are {o.species}"
    if isinstance(o, eprem.Stream) and (
            [int(i) for i in o.shells.data] != list(range(run.sizes['shell']))):
        return f"shells are {o.shells}"
    if lamo is not None:
        truth = observe.Truth(run, {'lambda0': lamo})
        want = truth['mfp'] * observe.scale('mfp', system)
        got = np.array(o['mfp'][:], float)
        if not harness.close(got, want):
            return f"mfp with lamo={lamo}: {harness.describe(got, want)}"
    return None


def at(o, run, system):
    """None if a point observer knows where it is."""
    for name, raw in (('r', 'R'), ('theta', 'T'), ('phi', 'P')):
        got = getattr(o, name)
        want = run.si(raw, system)[0, 0]
        if not harness.close(float(got), want):
            return f"{name} is {got}, not {want}"
        if got.unit != o[name].unit:
            return f"{name} is in {got.unit}"
    return None


def spelled(py, system):
    """The name of a metric system, in some case."""
    if system == 'mks' and py.random() < 0.3:
        return {}
    return {'system': py.choice(
        [system, system.upper(), system.capitalize()])}


def ways(ck, f):
    """Ways to say which directory and which configuration file."""
    py = ck.py
    home = f.root.parent
    sources = [
        ('path', f.root), ('text', str(f.root)),
        ('slash', f'{f.root}/'), ('dots', f'{f.root}/../{f.root.name}'),
        ('relative', f.root.name), ('home', f'~/{f.root.name}'),
        ('here', None), ('dot', '.'),
    ]
    how, source = py.choice(sources)
    cwd = f.root if how in ('here', 'dot') else home
    f.chosen = name = py.choice(sorted(f.lamo))
    configs = [
        ('name', name), ('name-path', pathlib.Path(name)),
        ('full', f.root / name), ('full-text', str(f.root / name)),
        ('relative', os.path.relpath(f.root / name, cwd)),
    ]
    if len(f.lamo) == 1:
        configs.append(('guess', None))
    if cwd == home:
        # a relative path is relative to where we are
        configs.append(('elsewhere', py.choice(
            ['./other.cfg', 'deep/other.cfg', './deep/other.cfg'])))
    which, config = py.choice(configs)
    given = {}
    if source is not None:
        given['source'] = source
    if config is not None:
        given['config'] = config
    return (how, which), given, cwd


class inside:
    """A working (and home) directory, for a while."""

    def __init__(self, cwd, home):
        self.cwd, self.home = cwd, home

    def __enter__(self):
        self.old, self.oldhome = os.getcwd(), os.environ.get('HOME')
        os.chdir(self.cwd)
        os.environ['HOME'] = str(self.home)

    def __exit__(self, *args):
        os.chdir(self.old)
        if self.oldhome is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self.oldhome


def single(ck, f, n):
    """Single observers, named in every way."""
    py = ck.py
    other = f.add_config(py, 'other.cfg', where=f.root.parent)
    del f.lamo['other.cfg']
    for where in (f.root.parent, f.root):
        # the same relative path, here and in the directory of the output
        (where / 'deep').mkdir(exist_ok=True)
        f.add_config(py, 'other.cfg', where=where / 'deep')
        del f.lamo['other.cfg']
    (f.root.parent / 'deep' / 'other.cfg').write_bytes(
        (f.root.parent / 'other.cfg').read_bytes())
    for k in range(n):
        how, given, cwd = ways(ck, f)
        lamo = other if how[1] == 'elsewhere' else f.lamo[f.chosen]
        system = py.choice(['mks', 'cgs'])
        given.update(spelled(py, system))
        choice = py.choice(['stream', 'stream', 'point', 'named'])
        with inside(cwd, f.root.parent):
            if choice == 'stream':
                i, run = py.choice(sorted(f.streams.items()))
                call = py.choice([eprem.stream, eprem.stream, eprem.observer])
                case = ('stream', call.__name__, *how, i, f.kind, k)
                kind, ids = eprem.Stream, [i]
            elif choice == 'point' and f.points:
                name, run = py.choice(sorted(f.points.items()))
                call = py.choice([eprem.point, eprem.point, eprem.observer])
                case = ('point', call.__name__, *how, name, f.kind, k)
                kind = eprem.Point
                ids = [name] if call is eprem.observer else [name, int(name)]
            elif choice == 'named' and f.named:
                name, run = py.choice(sorted(f.named.items()))
                call = py.choice([eprem.point, eprem.point, eprem.observer])
                case = ('named', call.__name__, *how, name, f.kind, k)
                kind, ids = eprem.Point, [name]
            else:
                continue
            for i in ids:
                with ck.guard(choice, case):
                    o = call(i, **given)
                    if cwd != f.root and py.random() < 0.5:
                        # look-up may happen later, somewhere else
                        os.chdir('/')
                    why = (None if isinstance(o, kind) else type(o)) or reads(
                        o, run, system, lamo)
                    if why is None and kind is eprem.Point:
                        why = at(o, run, system)
                    ck.check(why is None, choice, case, why)
                    os.chdir(cwd)
        ck.saw('one observer', case)
        ck.saw(f'source as {how[0]}', case)
        ck.saw(f'config as {how[1]}', case)


def whole(ck, f, k):
    """Every observer of a dataset."""
    py = ck.py
    how, given, cwd = ways(ck, f)
    if how[1] == 'elsewhere':
        given['config'] = f.root / f.chosen
    system = py.choice(['mks', 'cgs'])
    given.update(spelled(py, system))
    case = ('dataset', *how, f.kind, k)
    with inside(cwd, f.root.parent), ck.guard('dataset', case):
        d = eprem.dataset(**given)
        os.chdir('/')
        ck.check(pathlib.Path(d.directory) == f.root.resolve()
                 and str(d) == str(f.root.resolve()), 'directory', case,
                 d.directory)
        ck.check(pathlib.Path(d.config.source) == f.root / f.chosen
                 and str(d.config) == str(f.root / f.chosen)
                 and float(d.config['lamo']) == f.lamo[f.chosen],
                 'dataset-config', case, d.config)
        ck.check(d.system == metric.system(system), 'dataset-system', case,
                 d.system)
        lamo = d.parameters['lambda0']
        ck.check(isinstance(d.parameters, parameter.Interface)
                 and float(lamo) == f.lamo[f.chosen] and lamo.unit == 'au',
                 'dataset-parameters', case, lamo)
        points = dict(f.points)
        for name, run in f.named.items():
            for prefix in ('p_obs', 'point'):
                if name.startswith(prefix):
                    points[name[len(prefix):]] = run
        ck.check(set(d.streams) == set(f.streams)
                 and all(type(i) is int for i in d.streams), 'streams',
                 case, (sorted(d.streams), sorted(f.streams)))
        ck.check(set(d.points) == set(points), 'points', case,
                 (sorted(d.points), sorted(points)))
        ck.check({**d.streams, **d.points} == dict(d.observers),
                 'observers', case, sorted(map(str, d.observers)))
        for known, kind, mapping in (
            (f.streams, eprem.Stream, d.streams),
            (points, eprem.Point, d.points),
        ):
            for i, run in known.items():
                with ck.guard('member', (*case, i)):
                    o = mapping[i]
                    why = (None if type(o) is kind else type(o)) or reads(
                        o, run, system, f.lamo[f.chosen])
                    if why is None and kind is eprem.Point:
                        why = at(o, run, system)
                    if why is None and d.observers[i] is not o:
                        why = 'another object among all observers'
                    ck.check(why is None, 'member', (*case, i), why)
                ck.saw('member of a dataset', (*case, i))
    ck.saw('dataset', case)


def mapping(ck, f, k):
    """An observer is a mapping of its observable quantities."""
    i, run = ck.py.choice(sorted(f.streams.items()))
    case = ('mapping', f.kind, k)
    with ck.guard('mapping', case):
        s = eprem.stream(i, f.config, f.root)
        names = list(s)
        ck.check(len(names) == len(s) and len(set(names)) == len(names)
                 and all(n in s for n in names)
                 and 'no such quantity' not in s, 'mapping', case,
                 (len(names), len(s)))
        for name in ck.py.sample(names, 4):
            with ck.guard('mapping', (*case, name)):
                a, b = s[name], s.get(name)
                ck.check(a.unit == b.unit and a.dimensions == b.dimensions,
                         'mapping', (*case, name), (a, b))
        ck.rejects('mapping', case, lambda: s['no such quantity'], KeyError)
        ck.check(hash(s) == hash(eprem.stream(i, f.config, f.root)),
                 'hash', case, 'equal sources hash differently')
    ck.saw('mapping', case)


def guesses(ck, root, k):
    """Which configuration file is used when none is named."""
    py = ck.py
    f = Folder(ck, root, config=py.choice(CONFIGS[:4]))
    names = py.sample([n for n in CONFIGS[:4] if n != f.config],
                      py.randint(0, 3))
    for name in names:
        f.add_config(py, name)
    (root / 'eprem.cfg.bak').write_text('lamo=77\n')
    (root / 'cfg').write_text('lamo=78\n')
    (root / 'settings.inp').write_text('lamo=79\n')
    i, run = py.choice(sorted(f.streams.items()))
    case = ('guess', f.config, tuple(sorted(names)))
    with ck.guard('guess', case):
        d = eprem.dataset(root)
        value = float(d.parameters['lamo'])
        ck.check(value in f.lamo.values(), 'guess', case, value)
        why = reads(eprem.stream(i, source=root), run, 'mks', value)
        ck.check(why is None, 'guess', case, why)
        ck.check(pathlib.Path(d.config.source).name in f.lamo,
                 'guess', case, d.config)
        # the documented names, in the documented order
        first = next(n for n in CONFIGS if n in f.lamo)
        ck.check(value == f.lamo[first], 'guess', case, (value, f.lamo))
    ck.saw('guessed configuration', case)


def refused(ck, root, k):
    """What cannot be found is refused."""
    py, rng = ck.py, ck.rng
    f = Folder(ck, root)
    case = ('refused', k)
    absent = next(i for i in (7, 8, 70, 700) if i not in f.streams)
    given = {'config': f.config, 'source': root}

    def no(what, call, allowed=MISSING):
        ck.rejects('refused', (*case, what), call, allowed)
        ck.saw('refusal', (*case, what))

    no('stream', lambda: eprem.stream(absent, **given),
       eprem.SourcePathError)
    no('observer', lambda: eprem.observer(absent, **given),
       eprem.SourcePathError)
    no('point', lambda: eprem.point(555, **given), eprem.SourcePathError)
    no('named', lambda: eprem.point('nowhere', **given),
       eprem.SourcePathError)
    # parts of names name nothing
    for name in f.named:
        for part in (name[1:], name[:-1], name[2:]):
            if part not in f.named and not part.isdigit():
                no('part of a name', lambda: eprem.point(part, **given),
                   eprem.SourcePathError)
    if absent < 10 and f.streams:
        longer = [i for i in f.streams if i % 10 != i]
        for i in longer:
            if i // 10 not in f.streams:
                no('part of a number', lambda: eprem.stream(i // 10, **given),
                   eprem.SourcePathError)
            if i % 10 not in f.streams:
                no('part of a number', lambda: eprem.stream(i % 10, **given),
                   eprem.SourcePathError)
    i = py.choice(sorted(f.streams))
    for bad in (str(i), float(i), None, [i]):
        no(f'stream {type(bad).__name__}',
           lambda: eprem.stream(bad, **given), TypeError)
    for bad in (1.5, None, (1,)):
        no(f'point {type(bad).__name__}',
           lambda: eprem.point(bad, **given), TypeError)
        no(f'observer {type(bad).__name__}',
           lambda: eprem.observer(bad, **given), TypeError)
    no('no directory', lambda: eprem.stream(
        i, config=root / f.config, source=root / 'absent'))
    no('no dataset', lambda: eprem.dataset(root / 'absent'))
    no('file as directory', lambda: eprem.stream(
        i, config=root / f.config, source=f.streams[i].path))
    for bad in ('absent.cfg', './absent.cfg', root / 'absent.cfg',
                pathlib.Path('absent.cfg')):
        no(f'config {type(bad).__name__}', lambda: eprem.stream(
            i, config=bad, source=root))
        no(f'dataset config {type(bad).__name__}', lambda: eprem.dataset(
            config=bad, source=root))
    # two files for one observer
    twin = pathlib.Path(f.streams[i].path).with_suffix('.txt')
    twin.write_text('?')
    no('two files', lambda: eprem.stream(i, **given),
       eprem.SourcePathError)
    twin.unlink()
    with ck.guard('refused', (*case, 'afterwards')):
        why = reads(eprem.stream(i, **given), f.streams[i], 'mks')
        ck.check(why is None, 'refused', (*case, 'afterwards'), why)
    for name in list(f.lamo):
        (root / name).unlink()
    no('nothing to guess', lambda: eprem.dataset(root))
    no('nothing to guess for', lambda: eprem.stream(i, source=root))


WORKER = '''
import json, pathlib, sys
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from eprempy import eprem
out = {}
for root in sys.argv[2:]:
    d = eprem.dataset(root, config='eprem.cfg')
    out[root] = {
        'streams': {str(i): pathlib.Path(o.source).name
                    for i, o in d.streams.items()},
        'points': {str(i): pathlib.Path(o.source).name
                   for i, o in d.points.items()},
        'stream': {str(i): pathlib.Path(
            eprem.stream(i, config='eprem.cfg', source=root).source).name
            for i in d.streams},
        'observer': {str(i): pathlib.Path(
            eprem.observer(i, config='eprem.cfg', source=root).source).name
            for i in d.streams},
        'point': {str(i): pathlib.Path(
            eprem.point(i, config='eprem.cfg', source=root).source).name
            for i in d.points},
    }
print(json.dumps(out))
'''


def steady(ck, base, seeds):
    """The same files give the same observers in every process."""
    py, rng = ck.py, ck.rng
    roots = []
    for k, (one, two) in enumerate([
        ('obs', 'flux'), ('stream', 'flux'), ('obs', 'stream'),
    ]):
        root = base / f'steady{k}'
        root.mkdir()
        for i in range(2):
            for prefix, kind in ((one, 'dist'), (two, 'flux')):
                run = synth.make_run(rng, kind=kind, nspecies=1, sizes=SMALL)
                synth.write_run(run, root / f'{prefix}{i:06}.nc')
        for prefix in ('p_obs', 'point'):
            run = synth.make_run(rng, nspecies=1, sizes=SMALL)
            synth.write_run(run, root / f'{prefix}003.nc')
        synth.write_config(root / 'eprem.cfg', {'lamo': 1.0})
        roots.append(str(root))
    procs = [subprocess.Popen(
        [sys.executable, '-W', 'ignore', '-c', WORKER,
         str(harness.REPO / 'src'), *roots],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        env={**os.environ, 'PYTHONHASHSEED': str(s)},
    ) for s in seeds]
    answers = []
    for seed, p in zip(seeds, procs):
        out, err = p.communicate(timeout=300)
        case = ('steady', seed)
        if p.returncode:
            ck.fail('steady', case, err[-400:])
            continue
        answers.append(json.loads(out))
        ck.check(answers[-1] == answers[0], 'steady', case,
                 (answers[-1], answers[0]))
        for root, a in answers[-1].items():
            ck.check(a['streams'] == a['stream'] == a['observer']
                     and a['points'] == a['point'], 'agree',
                     (*case, pathlib.Path(root).name), a)
        ck.saw('process', case)


def views(ck, base, k):
    """File views of relative paths depend on where they are asked for."""
    py, rng = ck.py, ck.rng
    case = ('view', k)
    runs = []
    for name in 'ab':
        folder = base / f'view{k}{name}'
        folder.mkdir()
        run = synth.make_run(rng, nspecies=1, sizes=SMALL)
        run.path = synth.write_run(run, folder / 'obs000000.nc')
        runs.append((folder, run))
    for folder, run in runs + runs[::-1]:
        with inside(folder, base), ck.guard('view', case):
            v = datafile.view(py.choice(
                ['obs000000.nc', './obs000000.nc', '~/' + folder.name
                 + '/obs000000.nc', pathlib.Path('obs000000.nc')]))
            got = np.array(v.arrays['R'].data[:])
            ck.check(pathlib.Path(v.source) == run.path.resolve()
                     and harness.close(got, run.raw['R']), 'view', case,
                     v.source)
        ck.saw('view', case)
    ck.rejects('view', case, lambda: datafile.view(base / 'absent.nc'),
               MISSING)


def body(ck):
    base = ck.scratch()
    for k in range(ck.scale(8, 120)):
        if not ck.budget(150, 700):
            break
        root = base / f'{k}' / ck.py.choice(
            ['run', 'with space', 'run.v2', 'a[1]'][:3])
        f = Folder(ck, root, extra=NAMES[-1 - k % 4:][:1])
        single(ck, f, ck.scale(9, 14))
        whole(ck, f, k)
        mapping(ck, f, k)
        if k % 2 == 0:
            guesses(ck, base / f'g{k}', k)
        if k % 3 == 0:
            refused(ck, base / f'r{k}', k)
        if k % 4 == 0:
            views(ck, base, k)
    steady(ck, base, range(1, 1 + ck.scale(7, 24)))
    ck.require('one observer', 40)
    ck.require('dataset', 8)
    ck.require('member of a dataset', 12)
    ck.require('guessed configuration', 3)
    ck.require('refusal', 40)
    ck.require('process', 7)
    ck.require('view', 2)


if __name__ == '__main__':
    sys.exit(harness.main('C20', RULE, body))

"""C24: what is observed never depends on what was observed before."""
import hashlib
import os
import subprocess
import sys

import numpy as np

from checks import _history
from vlib import harness, observe, synth

RULE = (
    'random histories of observations, conversions, combinations, reductions, '
    'and look-ups over several open observers and datasets, with objects '
    'reused at random; each answer against that of a new process with '
    'another hash seed that does nothing else, and again when the history '
    'is over; distinct = distinct (history, step) pairs'
)
UNITS = {'m': ['au', 'km', 'cm'], 's': ['day', 'hour', 'ms'],
         'J': ['MeV', 'keV', 'erg'], 'T': ['nT', 'G'],
         'm s^-1': ['km/s', 'cm / s'], 'rad': ['deg'],
         'm^-3': ['cm^-3'], 's^-1': ['hour^-1'],
         'kg': ['g', 'nuc'], 'C': ['e']}
TARGETS = {'t': ('day', 86400), 'e': ('MeV', synth.MEV_J),
           's': ('au', synth.AU_M)}


class Fresh:
    """Answers of processes that have done nothing before."""

    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.job = subprocess.Popen(
            [sys.executable, '-m', 'checks._history'], cwd=harness.VERIF,
            env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, chain):
        _history.send(self.job.stdin, chain)
        return _history.receive(self.job.stdout)

    def close(self):
        self.job.stdin.close()
        self.job.wait()


CASES = ['MeV', 'meV', 'Mm', 'mm', 'MJ', 'mJ', 'PJ', 'pJ', 'MT', 'mT', 'MW',
         'mW', 'mHz', 'MHz', 'PHz', 'pHz', 'Ms', 'ms', 'eV', 'J', 'erg', 'm',
         'cm', 'au', 's', 'day', 'G', 'T', 'W', 'Hz', 'Pa', 'PPa', 'pPa', 'mPa',
         'MPa', 'g', 'kg', 'Mg', 'mg', 'nuc', 'km / s', 'Mm / ms', 'mm / Ms',
         'mm / ms', 'Mm/Ms', 'MeV^2', 'meV^2', 'J^2', 'S', 'mS', 'MS', 'Gm',
         'gm', 'C', 'e', 'N', 'nT', 'nN', 'dyn', 'K', 'mK', 'MK', 'h', 'H',
         'hour', 'statC', 'V', 'mV', 'MV', 'ohm']
QUANTITIES = ['mass', 'mass number', 'mass density', 'charge', 'charge density',
              'energy', 'energy density', 'energy / mass', 'energy / charge',
              'energy / mass number', 'magnetic field',
              'magnetic field / length', 'charge / mass number', 'velocity',
              'velocity / length', 'flux', 'fluence', 'momentum', 'frequency',
              'potential', 'resistance', 'number density', 'number',
              'plane angle', 'solid angle', 'ratio', 'force', 'pressure']


class World:
    """Files to look at and the truth about them (to choose targets).

    Two folders hold files of the same names but with different content.
    """

    def __init__(self, ck, seed):
        py = self.py = ck.py
        self.base = ck.scratch()
        self.truths = {}
        for k in 'ab':
            folder = self.base / k / 'run'
            folder.mkdir(parents=True)
            for sid in (0, 3) if k == 'a' else (0,):
                run = synth.make_run(ck.rng, py.choice(['dist', 'flux']))
                synth.write_run(run, folder / f'obs{sid:06}.nc')
                self.truths[str(folder), sid] = observe.Truth(run)
            run = synth.make_run(ck.rng, 'dist')
            synth.write_run(run, folder / 'p_obs005.nc')
            self.truths[str(folder), 'p'] = observe.Truth(run)
            self.configure(folder / 'eprem_input_file')
        self.seal = self.contents()
        self.fresh = Fresh(seed)

    def configure(self, path):
        py = self.py
        synth.write_config(path, {
            'numNodesPerStream': py.choice([100, 200]),
            'lamo': py.choice([0.5, 1.0, 2.0]),
            'rigidityPower': py.choice([0.25, 0.5]),
            'flowMag': py.choice([2.0e7, 3.0e7])})

    def unseen(self, memory):
        """New steps on observers that were used already."""
        used = {c[:2] if c[0][0] == 'dataset' else c[:1] for c in memory
                if c[0][0] in ('stream', 'point', 'dataset')
                and c[-1][0] == 'observe'
                and type(memory[c]).__name__ != 'Refused'}
        out = []
        for root in sorted(used, key=repr):
            folder, key = root[0][1], root[0][2]
            if root[0][0] == 'dataset':
                key = root[1][2]
            truth = self.truths[folder, 'p' if key == 5 else key]
            for _ in range(3):
                name = self.py.choice([
                    k for k in observe.TABLE if truth.has(k)])
                chain = root + (('item', name),
                                ('observe', self.subscript(truth, name)))
                out.append((chain, self.fresh.ask(chain)))
            chain = root + (('attribute', 'times'),)
            out.append((chain, self.fresh.ask(chain)))
        return out

    def replace_data(self, ck):
        """Put new files in the place of those in one folder."""
        folder, _ = self.py.choice(sorted(self.truths, key=str))
        for where, sid in list(self.truths):
            if where == folder:
                name = 'p_obs005.nc' if sid == 'p' else f'obs{sid:06}.nc'
                new = self.base / 'new.nc'
                run = synth.make_run(ck.rng, 'dist')
                synth.write_run(run, new)
                os.replace(new, os.path.join(folder, name))
                self.truths[where, sid] = observe.Truth(run)
        return folder

    def replace_config(self, folder):
        """Put a new configuration in the place of the one in one folder."""
        self.configure(self.base / 'new')
        os.replace(self.base / 'new',
                   os.path.join(folder, 'eprem_input_file'))
        self.seal = self.contents()

    def contents(self):
        return {str(p): hashlib.sha256(p.read_bytes()).hexdigest()
                for p in sorted(self.base.rglob('*')) if p.is_file()}

    def subscript(self, truth, name):
        py, out = self.py, []
        for letter, n in zip(observe.TABLE[name][0], truth[name].shape):
            kind = py.choice(['all', 'all', 'int', 'slice', 'tuple', 'value'])
            if kind == 'value' and letter in TARGETS and n > 1:
                unit, f = TARGETS[letter]
                if letter == 's':
                    lo = truth['r'].min(1).max()
                    hi = truth['r'].max(1).min()
                else:
                    g = truth['time' if letter == 't' else 'energy']
                    lo, hi = g[0], g[-1]
                if lo < hi:
                    w = py.choice([0.0, 0.3, 0.5, 0.9])
                    out.append(((lo + w * (hi - lo)) / f, unit))
                    continue
            if kind == 'int':
                out.append(py.randrange(n))
            elif kind == 'slice':
                a = py.randrange(n)
                out.append(slice(a, py.randint(a + 1, n)))
            elif kind == 'tuple':
                out.append(tuple(sorted(py.sample(range(n),
                                                  py.randint(1, n)))))
            else:
                out.append(slice(None))
        return tuple(out) if len(out) > 1 else out[0]

    def root(self):
        """An observer and its truth."""
        py = self.py
        folder, sid = py.choice(list(self.truths))
        truth = self.truths[folder, sid]
        system = py.choice(['mks', 'cgs'])
        if sid == 'p':
            return truth, (('point', folder, 5, system),)
        if py.random() < 0.3:
            return truth, (
                ('dataset', folder, system), ('member', 'streams', sid))
        return truth, (('stream', folder, sid, system),)

    def quantity(self):
        truth, chain = self.root()
        py = self.py
        name = py.choice([k for k in observe.TABLE if truth.has(k)])
        chain += (('item', observe.spelled(py, name)),)
        text = observe.TABLE[name][1]
        if text in UNITS and py.random() < 0.4:
            chain += (('withunit', py.choice(UNITS[text])),)
        return truth, name, chain

    def axes(self):
        _, chain = self.root()
        return chain + (('attribute', self.py.choice(
            ['times', 'energies', 'species', 'mus'])),)

    def plan(self):
        out = [self.chain] * 32 + [self.axes] * 14 + [self.pure] * 60
        self.py.shuffle(out)
        return out

    def hinted(self):
        """A view of a file whose name does not tell its type."""
        path = os.path.join(self.where(), 'plain')
        if not os.path.exists(path):
            os.link(os.path.join(os.path.dirname(path), 'p_obs005.nc'), path)
            self.seal = self.contents()
        return (('view', path, self.py.choice([None, 'netcdf', 'NetCDF'])),
                ('attribute', 'sizes'))

    def where(self):
        return self.py.choice(sorted({k for k, _ in self.truths}))

    def pure(self):
        """A step that needs no file."""
        py = self.py
        kind = py.choice(['conversion'] * 5 + [
            'quantity conversion', 'get_unit', 'get_dimension', 'constant',
            'species', 'expression', 'format', 'named', 'same unit',
            'scalar', 'measure', 'unit'])
        system = py.choice(['mks', 'cgs'])
        if kind in ('conversion', 'same unit'):
            if py.random() < 0.5:
                # the same letters in another case
                u = py.choice([u for u in CASES if sum(
                    u.lower() == v.lower() for v in CASES) > 1])
                base = u.lstrip('MmPpGgNn') or u
                return ((kind, u, base),)
            return ((kind, py.choice(CASES), py.choice(CASES)),)
        if kind == 'quantity conversion':
            return ((kind, py.choice(CASES), py.choice(
                ['mks', 'cgs', *CASES[:12]]), py.choice(QUANTITIES)),)
        if kind == 'get_unit':
            if py.random() < 0.3:
                return ((kind, system, 'unit', py.choice(CASES)),)
            return ((kind, system, 'quantity', py.choice(QUANTITIES)),)
        if kind == 'get_dimension':
            if py.random() < 0.3:
                return ((kind, system, 'unit', py.choice(CASES)),)
            return ((kind, system, 'quantity', py.choice(QUANTITIES)),)
        if kind == 'constant':
            return ((kind, system, py.choice(
                ['k', 'e', 'G', 'g', 'h', 'H+', 'mu0', 'MeV', 'eV', 'me'])),)
        if kind == 'species':
            return ((kind, py.choice(['H+', 'He++', 'He+', 'H', 'O++++++',
                                      'C', 'Co+', 'CO', 'h+'])),)
        if kind == 'expression':
            options = py.choice([(), (('raising', '**'),),
                                 (('raising', '^'),)])
            return ((kind, py.choice(['a**2 * b', 'a^2 b / c', 'a * b / (c d)',
                                      'a b^-1', 'a^2', 'A^2', 'a**2']),
                     options),)
        if kind == 'format':
            return ((kind, py.choice(CASES), py.choice([None, 'tex'])),)
        if kind in ('named', 'unit'):
            return ((kind, py.choice(CASES)),)
        return ((kind, py.choice([1.5, 2.0]), py.choice(CASES)),)

    def chain(self):
        py = self.py
        kind = py.choice(['observe'] * 6 + ['array', 'numpy', 'combine',
                                            'expression', 'axis', 'parameter',
                                            'unit', 'keys', 'convert',
                                            'scalar', 'hint'])
        if kind == 'unit':
            return self.pure()
        if kind == 'parameter':
            return (('parameters', self.where()),
                    ('item', py.choice(['lamo', 'rigidityPower', 'flowMag',
                                        'numNodesPerStream'])))
        truth, chain = self.root()
        if kind == 'hint':
            return self.hinted()
        if kind == 'keys':
            return chain + (('keys',),)
        if kind == 'axis':
            return chain + (('attribute', py.choice(
                ['times', 'energies', 'species', 'mus'])),)
        if kind == 'scalar':
            return (('dataset', self.where(), py.choice(['mks', 'cgs'])),
                    ('attribute', 'parameters'),
                    ('item', py.choice(['lambda0', 'lamo', 'rigidityPower',
                                        'flowMag', 'mfpRadialPower'])))
        if kind == 'expression':
            text = py.choice(['br / bmag', 'ur * br', 'r**2 * rho', 'rho / r',
                              'rho * umag', 'mass * rho', 'flux / rho'])
            return chain + (('item', text), ('observe', py.choice(
                [slice(None), Ellipsis])))
        truth, name, chain = self.quantity()
        if kind == 'combine':
            op = py.choice('*/')
            _, other, c2 = self.quantity()
            if 'M' in (observe.TABLE[name][0] + observe.TABLE[other][0]):
                op = '**'
            if c2[:-1][:1] != chain[:1] or c2[1:2][0][0] != chain[1][0]:
                op = '**'
            return chain + (('combine', op, c2),
                            ('observe', Ellipsis))
        if kind == 'numpy':
            return chain + (('array',),)
        chain += (('observe', self.subscript(truth, name)),)
        if kind == 'convert':
            text = observe.TABLE[name][1]
            if text in UNITS:
                chain += (('withunit', py.choice(UNITS[text])),)
        elif kind == 'array':
            dims = observe.dims(name)
            if py.random() < 0.5:
                chain += (('reduce', py.choice(['mean', 'sum', 'max']),
                           py.randrange(len(dims))),)
            else:
                chain += (('transpose', tuple(reversed(range(len(dims))))),)
        return chain


def outcome(ck, world, memory, chain, case):
    got = _history.digest(_history.perform(
        memory, chain, lambda: ck.py.random() < 0.75))
    want = world.fresh.ask(chain)
    ck.check(_history.same(got, want), 'history', case,
             lambda: f'{got} after this history, {want} afresh')
    ck.saw('history', case)
    ck.saw('refused' if want[0] == 'refused' else 'answered', case)
    ck.saw(f'ends in {chain[-1][0]}', case)
    return want


def check_afterwards(ck, world, memory, steps, n):
    for k, (chain, want) in enumerate(steps):
        case = (n, k, 'afterwards', repr(chain))
        got = _history.digest(memory[chain])
        ck.check(_history.same(got, want), 'afterwards', case,
                 lambda: f'{got} when all was done, {want} before')
        ck.saw('afterwards', case)


def body(ck):
    n = 0
    while n < ck.scale(5, 60) and ck.budget(200, 600):
        n += 1
        world = World(ck, ck.py.randrange(1, 2 ** 32))
        memory, steps = {}, []
        plan = world.plan()
        turn = len(plan) * 2 // 3
        for k, make in enumerate(plan):
            if k == turn:
                check_afterwards(ck, world, memory, steps, n)
                old = world.unseen(memory)
                folder = world.replace_data(ck)
                for chain, want in old:
                    # what is open still shows the file that was opened
                    case = (n, 'open', repr(chain))
                    got = _history.digest(_history.perform(memory, chain))
                    ck.check(_history.same(got, want), 'open', case,
                             lambda: f'{got} from an observer opened before '
                                     f'its file was replaced, {want} then')
                    ck.saw('open while replaced', case)
                world.replace_config(folder)
                memory = {c: v for c, v in memory.items()
                          if folder not in repr(c)}
                steps = [s for s in steps if folder not in repr(s[0])]
                ck.saw('files replaced', n)
            chain = make()
            if steps and ck.py.random() < 0.2:
                chain = ck.py.choice(steps)[0]
            case = (n, k, repr(chain))
            want = outcome(ck, world, memory, chain, case)
            steps.append((chain, want))
            obj = memory.get(chain)
            if hasattr(obj, '__array__') and ck.py.random() < 0.3:
                # changing the numbers one was given changes nothing else
                mine = np.array(obj)
                if mine.dtype.kind == 'f' and mine.ndim:
                    mine[...] = -1.0
                    ck.saw('scribbled', case)
        check_afterwards(ck, world, memory, steps, n)
        ck.check(world.contents() == world.seal, 'files', n)
        ck.saw('files', n)
        world.fresh.close()
    for event in ('history', 'answered', 'afterwards'):
        ck.require(event, 100)
    ck.require('files replaced', 3)
    ck.require('open while replaced', 20)
    for event in ('scribbled', 'ends in observe', 'ends in item'):
        ck.require(event, 10)


if __name__ == '__main__':
    sys.exit(harness.main('C24', RULE, body))

"""C22: runtime parameters have the values that the run would use."""
import functools
import json
import math
import os
import pathlib
import re
import shutil
import subprocess
import sys

import numpy as np

from eprempy import parameter, paths, physical, quantity
from vlib import harness, params, phys

RULE = (
    'random configuration files and random EPREM source directories, every '
    'parameter and constant by every name; distinct = distinct (sources, '
    'name) observations'
)
P, CONST = params.PARAMETERS, params.CONSTANTS
TYPES = {'int': int, 'float': float, 'list': list, 'str': str}
READ = {'int': 'readInt', 'float': 'readDouble', 'list': 'readDoubleArray',
        'str': 'readString'}


@functools.lru_cache(maxsize=None)
def meaning(unit):
    return phys.unit_value(unit)


def near(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=0.0)


# --- what a C source says -------------------------------------------------

class Source:
    """Definitions of parameters and constants, and their evaluation."""

    def __init__(self, parameters, constants):
        self.parameters = parameters  # name -> (kind, default, low, high)
        self.constants = constants    # name -> text

    def constant(self, name, chain=()):
        assert name not in chain
        if name == 'third':
            return 1 / 3
        return self.evaluate(self.constants[name], {}, (*chain, name))

    def evaluate(self, text, given, chain=()):
        names = {'sqrt': math.sqrt}

        def swap(found):
            name = f'v{len(names)}'
            names[name] = self.value(found[1], given)
            return name
        clean = re.sub(r'config\.(\w+)', swap, text)
        for name in re.findall(r'[A-Za-z_]\w*', clean):
            if name in self.constants or name == 'third':
                names[name] = self.constant(name, chain)
        return eval(clean, {'__builtins__': {}}, names)

    def value(self, name, given):
        """The value of a parameter in a run that is given some values."""
        kind, default, *_ = self.parameters[name]
        if name in given:
            return given[name]
        if kind == 'str':
            return default
        if default == 'N_PROCS':
            return None
        if kind == 'list':
            inside = default.strip('[]')
            return [self.evaluate(t, given) for t in inside.split(',') if t]
        return self.evaluate(default, given)

    def leaves(self, name, given):
        """The parameters that a default depends on in the end."""
        if name in given:
            return {name}
        deps = re.findall(r'config\.(\w+)', self.parameters[name][1])
        if not deps:
            return {name}
        return set().union(*(self.leaves(d, given) for d in deps))


PACKAGE = Source({k: v[:4] for k, v in P.items()},
                 {k: v[1] for k, v in CONST.items()})


def number(py, positive=False):
    x = py.choice([
        py.randint(1, 400), round(py.uniform(0.01, 9), 3),
        float(f'{py.uniform(1, 9):.3f}e{py.randint(-9, 9)}'),
    ])
    return x if positive or py.random() < 0.7 else -x


def spell(py, x):
    if isinstance(x, int):
        return py.choice([f'{x}', f'{x}.0', f'{x}.'])
    return py.choice([repr(x), f'{x:e}', f'{x:.6E}', f'{x:.17g}'])


def random_source(py):
    """A random consistent set of definitions."""
    constants, done = {}, []
    for name in py.sample(list(CONST), len(CONST)):
        kind = CONST[name][0]
        if kind == 'int':
            constants[name] = str(py.randint(0, 1000))
            continue
        what = py.random()
        # operands with digits inside their names may be refused
        whole = [n for n in done if n.isalpha() or '_' in n]
        pick = [py.choice(whole) for _ in range(4)] if whole else ()
        small = f'{py.uniform(0.5, 4):.4f}'
        if what < 0.45 or not whole:
            constants[name] = small
        elif what < 0.60:
            constants[name] = f'({pick[0]}/{pick[1]})'
        elif what < 0.70:
            constants[name] = f'( {pick[0]} / ({small} * {pick[1]}) )'
        elif what < 0.80:
            constants[name] = f'({pick[0]}*{pick[1]}*{pick[2]}/{pick[3]})'
        elif what < 0.86:
            constants[name] = f'( sqrt({pick[0]}*{pick[1]}) * {pick[2]} )'
        elif what < 0.93:
            constants[name] = f'( {pick[0]} / (24.0 * 2.0 * {small}) )'
        else:
            constants[name] = f'({small}/{pick[0]})'
        done.append(name)
    floats = [n for n in constants if CONST[n][0] == 'float']
    parameters, scalars = {}, []
    order = py.sample(list(P), len(P))
    for name in order:
        kind = P[name][0]
        low, high = '0.0', 'LARGEFLOAT'
        what = py.random()
        if kind == 'str':
            default = py.choice(['', 'name.txt', 'some/path', 'XXX'])
            low = high = None
        elif kind == 'int':
            default = (str(py.randint(-3, 60)) if what < 0.9 else
                       py.choice(['LARGEINT', 'T', 'F', 'MAX_STRING_SIZE']))
            low, high = '0', 'LARGEINT'
        elif kind == 'list':
            default = (f'[{abs(number(py)):.3f}]' if what < 0.6 or not scalars
                       else f'[config.{py.choice(scalars)}]')
        else:
            whole = [n for n in scalars if n.replace('_', '').isalpha()]
            a, b = ((py.choice(whole), py.choice(whole)) if whole
                    else (None, None))
            if what < 0.45 or a is None:
                default = spell(py, number(py))
            elif what < 0.58:
                default = py.choice(floats + ['third'])
            elif what < 0.72:
                default = f'config.{a}'
            elif what < 0.80:
                default = py.choice(['config.{} + config.{}',
                                     'config.{}+config.{}']).format(a, b)
            elif what < 0.86:
                default = f'config.{a} - config.{b}'
            elif what < 0.92:
                default = py.choice(['config.{} * config.{}',
                                     'config.{}*config.{}']).format(a, b)
            elif a != b:
                default = py.choice(['config.{} / config.{}',
                                     'config.{}/config.{}']).format(a, b)
            else:
                default = f'config.{a}'
            if py.random() < 0.1 and a:
                low = f'config.{a}'
            if py.random() < 0.2 and a:
                # with plain numbers and constants
                k = py.choice([f'{py.uniform(.2, 6):.3f}', '2', '0.5', '4.0'])
                const = py.choice([n for n in floats if n.isalpha()
                                   or '_' in n] or ['third'])
                default = py.choice([
                    '{k} * config.{a}', '{k}*config.{a}', 'config.{a} * {k}',
                    'config.{a} / {k}', 'config.{a} * config.{b} / {k}',
                    '{k} / config.{a}', 'config.{a} + {k}', '{k} - config.{a}',
                    'config.{a} * config.{a}', '{k} * config.{a} * config.{a}',
                    '{c} * config.{a}', '{c}', 'config.{a} / {c}',
                    'config.{a} + {c}',
                ]).format(k=k, a=a, b=b, c=const)
        parameters[name] = (kind, default, low, high)
        if kind == 'float':
            scalars.append(name)
    if py.random() < 0.5:
        # definitions may come in any order
        names = py.sample(list(parameters), len(parameters))
        parameters = {name: parameters[name] for name in names}
        names = py.sample(list(constants), len(constants))
        constants = {name: constants[name] for name in names}
    # angles in degrees change the unit of given values
    parameters['useDegrees'] = ('int', py.choice('001'), '0', '1')
    return Source(parameters, constants)


def write_source(py, source, path):
    """Write the definitions the way EPREM does."""
    path.mkdir()
    lines = ['/* base types */', '#ifndef BASETYPES_H', '#define BASETYPES_H',
             '', '#include <float.h>']
    for name, text in source.constants.items():
        lines.append(f'#define {name}{py.choice([" ", "  ", chr(9)])}{text}')
        if py.random() < 0.2:
            lines.append(py.choice(
                ['', '/* comment */', 'typedef double Scalar_t;',
                 '#define FLAG', '// #define C 5.0']))
    lines.append('#endif')
    (path / 'baseTypes.h').write_text('\n'.join(lines) + '\n')
    lines = ['#include "configuration.h"', 'Config_t config;', '', 'void',
             'getParams( char* configFilename)', '{']
    for name, (kind, default, low, high) in source.parameters.items():
        pad = py.choice(['  ', '    ', '\t', ''])
        eq = py.choice([' = ', '=', '  = '])
        sep = py.choice([', ', ',', ' , ']) if kind != 'str' else ', '
        # the quoted key names the parameter, whatever it is stored in
        target = py.choice([f'config.{name}'] * 6
                           + [name, f'config.{name}_', 'config.value'])
        head = f'{pad}{target}{eq}'
        if kind == 'str':
            lines.append(f'{head}(char*)readString("{name}"{sep}"{default}");')
        elif kind == 'list':
            inside = default.strip('[]')
            lines.append(f'{pad}Scalar_t {name}_default[1]{eq}{{{inside}}};')
            args = [f'"{name}"', '1', f'&config.{name}_size',
                    f'{name}_default', low, high]
            lines.append(f'{head}readDoubleArray({sep.join(args)});')
        else:
            args = [f'"{name}"', default, low, high]
            lines.append(f'{head}{READ[kind]}({sep.join(args)});')
        if py.random() < 0.2:
            lines.append(py.choice(
                ['', '  // comment', '  if (config.idealShock > 0) {', '  }',
                 '  checkIntBounds("x", 1, 0, 2);',
                 '  // config.eMin = readDouble("eMin", 7.0, 0.0, 1.0);']))
    lines.append('}')
    (path / 'configuration.c').write_text('\n'.join(lines) + '\n')


# --- configuration files --------------------------------------------------

def random_config(py):
    """Values that a user gives: name -> (text, value)."""
    out = {}
    for name in py.sample(list(P), py.randint(0, 12)):
        kind = P[name][0]
        if kind == 'int':
            x = py.randint(-5, 100)
            text = str(x)
        elif kind == 'float':
            x = number(py)
            text = spell(py, x)
            x = float(text)
        elif kind == 'list':
            texts = [spell(py, number(py)) for _ in range(py.randint(1, 4))]
            if py.random() < 0.4:
                # several values may be the same
                texts = [py.choice(texts) for _ in range(py.randint(2, 5))]
            if py.random() < 0.3:
                texts.insert(py.randint(0, len(texts)),
                             py.choice(['0', '0.0', '0.', '-1', '1e0']))
            x = [float(t) for t in texts]
            text = '[' + py.choice([', ', ',', ' , ']).join(texts) + ']'
        else:
            x = text = py.choice(['one', 'a b', '/path/to/x', 'x.y'])
        out[name] = text, x
    if py.random() < 0.5:
        flag = py.randint(0, 1)
        out['useDegrees'] = str(flag), flag
    return out


def write_given(py, given, path):
    lines = [f'{name} = {text}' for name, (text, _) in given.items()]
    if py.random() < 0.4:
        lines.insert(py.randint(0, len(lines)), '# eMin = 77.0')
        lines.insert(py.randint(0, len(lines)), '')
        lines.insert(py.randint(0, len(lines)), 'notAParameter = 5')
    path.write_text('\n'.join(lines) + '\n')


def judge(ck, p, source, given, name, case):
    """One parameter by each of its names."""
    kind = P[name][0]
    unit = P[name][4]
    want = source.value(name, given)
    degrees = bool(source.value('useDegrees', given))
    if unit == 'rad' and degrees:
        free = source.leaves(name, given) - set(given)
        unit = None if free else 'deg'
        skip = bool(free)
    else:
        skip = False
    if name == 'idealShockScale':
        skip = True
    for alias in (name, *P[name][5]):
        with ck.guard('parameter', (*case, alias)):
            got = p[alias]
            if P[name][4] is None:
                if want is None or kind in ('str', 'int'):
                    ok = got == want and type(got) is type(want)
                else:
                    ok = near(got, want)
                ck.check(ok, 'value', (*case, alias), (got, want))
                continue
            ck.check(isinstance(got, parameter.Variable), 'type',
                     (*case, alias), type(got))
            data = np.asarray(got.data, float).ravel().tolist()
            flat = want if isinstance(want, list) else [want]
            ck.check(len(data) == len(flat) and got.data.ndim == 1
                     and all(near(a, b) for a, b in zip(data, flat)),
                     'value', (*case, alias), (got, flat))
            if not skip:
                ck.check(phys.same_unit(got.unit, meaning(unit)), 'unit',
                         (*case, alias), (got.unit, unit))
        ck.saw('observed', (*case, alias))
    if name in given:
        ck.saw('given value', (*case, name))
    elif 'config.' in source.parameters[name][1]:
        ck.saw('derived default', (*case, name))
        if source.leaves(name, given) & set(given):
            ck.saw('derived from given', (*case, name))


def finite(source, given):
    """Whether a run could evaluate everything."""
    try:
        for name in P:
            for some in (given, {}):
                x = source.value(name, some)
                if isinstance(x, (int, float)) and abs(x) > 1e60:
                    return False
        return all(source.constant(name) < 1e60 for name in CONST)
    except (OverflowError, ZeroDivisionError):
        return False


def interfaces(ck, folder, k):
    py = ck.py
    text = {}
    made = py.random() < 0.6
    if made:
        source, srcdir = random_source(py), folder / f'src{k}'
    else:
        source, srcdir = PACKAGE, None
    config = None
    given = {}
    if py.random() < 0.8:
        text = random_config(py)
        config = folder / f'run{k}.cfg'
        write_given(py, text, config)
        given = {name: x for name, (_, x) in text.items()}
    if not finite(source, given):
        return
    if made:
        write_source(py, source, srcdir)
    key = tuple(sorted((n, t) for n, (t, _) in text.items()))
    case = (k if made else 'package', key)
    s = None if srcdir is None else py.choice([srcdir, str(srcdir)])
    c = None if config is None else py.choice([config, str(config)])
    with ck.guard('interface', case):
        form = py.randrange(3)
        if form == 0:
            p = parameter.interface(c, s)
        elif form == 1:
            p = parameter.interface(config=c, srcdir=s)
        else:
            p = parameter.interface(c, srcdir=s)
    before = {f: f.read_bytes() for f in folder.rglob('*') if f.is_file()}
    names = set(P) | {'minimum_energy'}
    with ck.guard('names', case):
        keys = set(p)
        known = {a for n in names for a in (
            n, *(P[n][5] if n in P else ('Emin', 'minimum energy')))}
        ck.check(all(n in p for n in known), 'names', case,
                 [n for n in known if n not in p])
        ck.check({n for k in keys for n in (k if isinstance(k, (set, frozenset, tuple)) or
                 not isinstance(k, str) else (k,))} == known or keys == names,
                 'names', case, None)
        ck.rejects('unknown', case, lambda: p['notAParameter'], KeyError)
        ck.check('notAParameter' not in p, 'names', case, None)
        if py.random() < 0.5:
            m = p[py.choice(['minimum_energy', 'Emin', 'minimum energy'])]
            ck.check(m.unit == 'MeV' and float(m) == 0.0, 'minimum energy',
                     case, m)
        if config is None:
            ck.check(p.config is None, 'origin', case, p.config)
        else:
            ck.check(pathlib.Path(p.config) == config.resolve(), 'origin',
                     case, p.config)
        if srcdir is None:
            ck.check(str(p.source) == parameter.DB_PATH, 'origin', case,
                     p.source)
        else:
            ck.check(pathlib.Path(p.source)
                     == srcdir.resolve() / 'configuration.c', 'origin', case,
                     p.source)
    for name in py.sample(list(P), len(P)):
        judge(ck, p, source, given, name, case)
    for name in py.sample(list(P), 10):
        judge(ck, p, source, given, name, case)
    definitions(ck, source, srcdir, given, case)
    after = {f: f.read_bytes() for f in folder.rglob('*') if f.is_file()}
    ck.check(before == after, 'unchanged files', case, None)
    ck.saw('source read' if made else 'package defaults', case)
    for f in after:
        f.unlink()
    if srcdir:
        srcdir.rmdir()


def definitions(ck, source, srcdir, given, case):
    """Constants, metadata, and defaults as the source states them."""
    py = ck.py
    with ck.guard('definitions', case):
        b = parameter.BaseTypesH(srcdir)
        c = parameter.ConfigurationC(srcdir)
        if srcdir is not None and py.random() < 0.3:
            # a path may also name the file itself
            old = None
            files = srcdir / 'baseTypes.h', srcdir / 'configuration.c'
            if py.random() < 0.5:
                old = files
                files = [f.with_name(f'my-{f.name}') for f in old]
                for f, g in zip(old, files):
                    g.write_bytes(f.read_bytes())
            b = parameter.BaseTypesH(files[0])
            c = parameter.ConfigurationC(py.choice([files[1],
                                                    str(files[1])]))
            ck.check(pathlib.Path(b.origin) == files[0].resolve()
                     and pathlib.Path(c.origin) == files[1].resolve(),
                     'origin', case, (b.origin, c.origin))
            if old:
                for g in files:
                    g.unlink()
        d = parameter.defaults(srcdir)
        ck.check(set(b) == set(CONST) and len(b) == len(CONST),
                 'constant names', case, set(b) ^ set(CONST))
        for name in CONST:
            kind, _, unit = CONST[name]
            want = source.constant(name)
            ck.check(near(b[name], want) and near(d.basetypes[name], want)
                     and isinstance(b[name], TYPES[kind]), 'constant',
                     (*case, name), (b[name], want))
            full = b.get(name, format='full')
            ck.check(near(full['value'], want) and full['unit'] == unit
                     and full['type'] == kind, 'constant metadata',
                     (*case, name), full)
            ck.saw('constant', (*case, name))
        ck.rejects('unknown', case, lambda: b['NOT_THERE'], KeyError)
        ck.rejects('unknown', case, lambda: c['NOT_THERE'], KeyError)
        ck.rejects('unknown', case, lambda: d['NOT_THERE'], KeyError)
        ck.check(b.get('NOT_THERE') is None and c.get('NOT_THERE', 4) == 4,
                 'unknown', case, None)
        ck.check(set(c) == set(P) == set(d) and len(c) == len(d) == len(P),
                 'parameter names', case, set(c) ^ set(P))
        for name in P:
            kind, default, low, high = source.parameters[name]
            ref = c[name]
            want = {'type': TYPES[kind], 'defaultVal': default}
            if low is not None:
                want.update(minVal=low, maxVal=high)
            ck.check(dict(ref) == want, 'definition', (*case, name),
                     (ref, want))
            got, want = d[name], source.value(name, {})
            if isinstance(want, (str, type(None))):
                ok = got == want
            elif isinstance(want, list):
                ok = len(got) == len(want) and all(map(near, got, want))
            else:
                ok = near(got, want)
            ck.check(ok, 'default', (*case, name), (got, want))
        n = py.choice(list(P))
        full = c.get(n, format='full')
        ck.check(full.get('unit') == P[n][4] or n == 'idealShockScale',
                 'metadata', (*case, n), full)
        ck.check(sorted(full.get('aliases', ())) == sorted(P[n][5]), 'metadata',
                 (*case, n), full)
        # the text form is a program that says the same
        if py.random() < 0.3:
            space = {}
            sort = py.random() < 0.5
            exec(b.tostring(mode='full', sort=sort, indent=4), space)
            exec(c.tostring(mode='full', sort=sort, indent=4), space)
            bases, confs = space['BASETYPES_H'], space['CONFIGURATION_C']
            ck.check(set(bases) == set(CONST) and set(confs) == set(P),
                     'text form', case, None)
            ck.check(not sort or list(confs) == sorted(P), 'text form', case,
                     list(confs)[:5])
            ck.check(all(near(bases[i]['value'], source.constant(i))
                         and bases[i]['unit'] == CONST[i][2]
                         and bases[i]['type'] is TYPES[CONST[i][0]]
                         for i in CONST), 'text form', case, bases)
            ck.check(all(confs[i]['defaultVal'] == source.parameters[i][1]
                         and confs[i]['type'] is TYPES[P[i][0]]
                         and sorted(confs[i].get('aliases', ()))
                         == sorted(P[i][5])
                         for i in P), 'text form', case, None)
            ck.saw('text form', case)
        if srcdir is None:
            ref = parameter.reference
            ck.check(all(near(ref.BASETYPES_H[i]['value'],
                              source.constant(i)) for i in CONST)
                     and all(ref.CONFIGURATION_C[i]['defaultVal'] == P[i][1]
                             and ref.CONFIGURATION_C[i]['type']
                             is TYPES[P[i][0]] for i in P),
                     'reference', case, None)


# --- single variables -----------------------------------------------------

def variables(ck, k):
    """Values with units that act like numbers when they are single."""
    py = ck.py
    n = py.choice([1, 1, 2, 3, 5])
    unit = phys.FAMILIES[py.choice(sorted(phys.FAMILIES))][0] \
        if isinstance(phys.FAMILIES, dict) else 'm'
    unit = py.choice(['m', 'cm', 'au', 'MeV', 'J', 's', '1', 'G', 'km / s'])
    data = [py.choice([-1, 1]) * py.choice(
        [py.uniform(0, 9), py.uniform(0, 1e5), py.randint(0, 9) + 0.5,
         float(py.randint(0, 50))]) for _ in range(n)]
    case = (tuple(data), unit)
    form = py.choice(['list', 'tuple', 'array', 'vector', 'measurement',
                      'variable'] + (['number', 'scalar'] if n == 1 else []))
    with ck.guard('variable', (*case, form)):
        x = {
            'list': lambda: parameter.variable(data, unit=unit),
            'tuple': lambda: parameter.variable(tuple(data), unit=unit),
            'array': lambda: parameter.variable(np.array(data), unit=unit),
            'vector': lambda: parameter.variable(
                physical.vector(data, unit=unit)),
            'measurement': lambda: parameter.variable(
                quantity.measure(*data, unit)),
            'variable': lambda: parameter.variable(
                parameter.variable(data, unit=unit)),
            'number': lambda: parameter.variable(data[0], unit=unit),
            'scalar': lambda: parameter.variable(
                physical.scalar(data[0], unit=unit)),
        }[form]()
    with ck.guard('variable', (*case, form)):
        ck.check(isinstance(x, parameter.Variable) and x.unit == unit
                 and len(x) == n and np.array_equal(x.data, data), 'made',
                 (*case, form), x)
        for i in range(-n, n):
            one = x[i]
            ck.check(one.unit == unit and float(one) == data[i], 'item',
                     (*case, form, i), one)
        for i in (n, n + 3, -n - 1, -2 * n - 1):
            ck.rejects('item', (*case, form, i), lambda: x[i], IndexError)
        lo, hi = sorted(py.sample(range(-n, n + 1), 2))
        for s in (slice(None), slice(None, None, -1), slice(lo, None),
                  slice(None, 1), slice(None, None, 2)):
            if len(data[s]):
                part = x[s]
                ck.check(isinstance(part, parameter.Variable)
                         and part.unit == unit
                         and np.array_equal(part.data, data[s]), 'part',
                         (*case, form, s), part)
        ck.check([float(i) for i in x] == data, 'items', (*case, form), x)
        calls = {'int': int, 'float': float, 'complex': complex,
                 'round': round, 'floor': math.floor, 'ceil': math.ceil,
                 'trunc': math.trunc}
        digits = py.randint(0, 3)
        calls['digits'] = lambda y: round(y, digits)
        for name, call in calls.items():
            if n > 1:
                ck.rejects('single', (*case, form, name), lambda: call(x),
                           TypeError)
                continue
            got, want = call(x), call(data[0])
            if name in ('int', 'float', 'complex'):
                ok = type(got) is type(want) and got == want
            else:
                ok = got.unit == unit and near(float(got), float(want))
            ck.check(ok, 'single', (*case, form, name), (got, want))
        if n == 1:
            ck.saw('single', (*case, form))
        else:
            ck.saw('several', (*case, form))
        ck.check(np.array_equal(x.data, data) and x.unit == unit, 'unchanged',
                 (*case, form), x)
        if form not in ('list', 'tuple', 'array', 'number'):
            ck.rejects('unit given', (*case, form),
                       lambda: parameter.variable(x, unit='m'), ValueError)
        # conversions keep the physical value
        y = x.withunit(unit)
        ck.check(isinstance(y, parameter.Variable)
                 and np.allclose(y.data, data, rtol=1e-14), 'converted',
                 (*case, form), y)
    ck.rejects('two dimensions', case,
               lambda: parameter.variable([data, data], unit=unit), TypeError)


REPORT = '''
import json, sys
from eprempy import parameter
c, b, d = (parameter.ConfigurationC(), parameter.BaseTypesH(),
           parameter.defaults())
json.dump({
    'home': parameter.__file__,
    'parameters': {k: {i: getattr(j, '__name__', j) for i, j in v.items()}
                   for k, v in c.items()},
    'constants': dict(b),
    'defaults': dict(d),
}, sys.stdout)
'''


def database(ck, k):
    """Making the defaults of the package from a source."""
    py = ck.py
    folder = ck.scratch()
    package = folder / 'src' / 'eprempy'
    shutil.copytree(harness.REPO / 'src' / 'eprempy', package,
                    ignore=shutil.ignore_patterns('__pycache__'))
    script = folder / 'scripts' / 'default-parameters.py'
    shutil.copytree(harness.REPO / 'scripts', script.parent)
    env = {**os.environ, 'PYTHONPATH': str(folder / 'src'),
           'PYTHONDONTWRITEBYTECODE': '1'}
    db = package / 'parameter' / 'reference.json'
    source = random_source(py)
    while not finite(source, {}):
        source = random_source(py)
    write_source(py, source, folder / 'code')
    how = py.choice(['source', 'source', 'package', 'append']) \
        if k > 2 else ['source', 'append', 'package'][k]
    case = ('database', how, k)
    want = source
    args = ['-s', str(folder / 'code')]
    if how == 'package':
        # nothing changes when the package is its own source
        args, want = [], PACKAGE
    elif how == 'append':
        # what is there already stays as it is
        args.append('--append')
        now = json.loads(db.read_text())
        gone = py.sample([n for n in P if P[n][0] != 'list'], 8)
        lost = py.sample(list(CONST), 4)
        for name in gone:
            del now['CONFIGURATION_C'][name]
        for name in lost:
            del now['BASETYPES_H'][name]
        db.write_text(json.dumps(now))
        want = Source({**PACKAGE.parameters, **{
            n: source.parameters[n] for n in gone}}, {
                **PACKAGE.constants,
                **{n: source.constants[n] for n in lost}})
        if not soluble(want):
            return
    with ck.guard('database', case):
        p = subprocess.run(
            [sys.executable, str(script), *args], env=env, cwd=folder,
            capture_output=True, text=True, timeout=120)
        ck.check(p.returncode == 0, 'database', case, p.stderr[-600:])
        if p.returncode:
            return
        p = subprocess.run([sys.executable, '-c', REPORT], env=env,
                           cwd=folder, capture_output=True, text=True,
                           timeout=120)
        ck.check(p.returncode == 0, 'database', case, p.stderr[-600:])
        told = json.loads(p.stdout)
        if not told['home'].startswith(str(folder)):
            raise RuntimeError(told['home'])
        got = told['parameters']
        ck.check(set(got) == set(P), 'database names', case,
                 set(got) ^ set(P))
        for name in P:
            kind, default, low, high = want.parameters[name]
            this = {'type': kind, 'defaultVal': default}
            if low is not None:
                this.update(minVal=low, maxVal=high)
            ck.check(got.get(name) == this, 'database', (*case, name),
                     (got.get(name), this))
            value, one = told['defaults'].get(name), want.value(name, {})
            if isinstance(one, (str, type(None))):
                ok = value == one
            elif isinstance(one, list):
                ok = len(value) == len(one) and all(map(near, value, one))
            else:
                ok = near(value, one)
            ck.check(ok, 'database', (*case, name), (value, one))
        for name in CONST:
            ck.check(near(told['constants'][name], want.constant(name)),
                     'database', (*case, name), told['constants'][name])
        # the module says the same as the sources that it is made from
        space = {}
        exec((package / 'parameter' / 'reference.py').read_text(), space)
        made = PACKAGE if how == 'package' else source
        ck.check(how == 'append' or {n: v['defaultVal'] for n, v in
                  space['CONFIGURATION_C'].items()}
                 == {n: v[1] for n, v in made.parameters.items()}
                 and all(near(space['BASETYPES_H'][n]['value'],
                              made.constant(n)) for n in CONST),
                 'database module', case, None)
        ck.saw('database', case)
    shutil.rmtree(folder)


def soluble(source):
    """Whether definitions from two sources do not go in circles."""
    try:
        return finite(source, {})
    except (AssertionError, RecursionError):
        return False


def body(ck):
    folder = ck.scratch()
    for k in range(ck.scale(4, 30)):
        database(ck, k)
    n = ck.scale(80, 3000)
    for k in range(n):
        if not ck.budget(150, 600):
            break
        interfaces(ck, folder, k)
    for k in range(ck.scale(150, 5000)):
        if not ck.budget(200, 800):
            break
        variables(ck, k)
    ck.rejects('missing', 'config',
               lambda: parameter.interface(folder / 'absent.cfg'),
               (FileNotFoundError, paths.NonExistentPathError))
    ck.rejects('missing', 'source',
               lambda: parameter.interface(srcdir=folder / 'absent'),
               (FileNotFoundError, paths.NonExistentPathError))
    for event, least in [
        ('observed', 800), ('given value', 20), ('derived default', 50),
        ('derived from given', 3), ('source read', 3),
        ('package defaults', 2), ('constant', 150), ('text form', 1),
        ('single', 20), ('several', 20), ('database', 2),
    ]:
        ck.require(event, least)


if __name__ == '__main__':
    sys.exit(harness.main('C22', RULE, body))

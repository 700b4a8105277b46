"""C21: configuration files are read, compared, and generated faithfully."""
import contextlib
import io
import os
import pathlib
import re
import subprocess
import sys

import numpy as np

from eprempy import cli, parameter, paths
from vlib import harness, params

RULE = (
    'random configuration files (spacing, comments, repeats, blank lines, '
    'values with equals signs) and groups of them; distinct = distinct '
    '(file text or group, operation) observations'
)
WORDS = ['alpha', 'b', 'simStopTime', 'idw_p', 'x1', 'useDegrees', 'obsR',
         'mass', 'Name', 'name', 'long_name_with_1', 'a.b', 'key']
VALUES = ['1', '-3', '0', '0.0', '1e-5', '+2.5E+07', '[0.25, 0.50]', '[1,2]',
          "'text'", '"two words"', 'a b  c', '/path/to/dir', 'x=y', 'a==b',
          "'p=q; r'", '[a]', 'None', '',
          'run#3', '#fff', 'now!', '5 % 3', 'p;q', '//x',
          '1, # 2', "'# !'"]
MISSING = (FileNotFoundError, paths.NonExistentPathError)


class Text:
    """The text of a configuration file and what it says."""

    def __init__(self, py, marks=('#',)):
        lines, self.says = [], {}
        for _ in range(py.randint(0, 14)):
            what = py.random()
            if what < 0.08:
                lines.append('')
            elif what < 0.14:
                lines.append(py.choice([' ', '   ', '\t', ' \t ']))
            elif what < 0.24:
                lines.append(self.comment(py, marks))
            elif what < 0.30:
                lines.append(py.choice(['  ', '\t']) + self.comment(py, marks))
            else:
                key, value = py.choice(WORDS), self.value(py, marks)
                line = (py.choice(['', '', '  ', '\t']) + key
                        + py.choice(['=', ' = ', '= ', '  =', '\t=\t'])
                        + value + py.choice(['', '', ' ', '\t']))
                if py.random() < 0.25:
                    line += (py.choice(['', ' ', '  '])
                             + self.comment(py, marks))
                lines.append(line)
                self.says[key] = value
        self.text = '\n'.join(lines)
        if py.random() < 0.8:
            self.text += '\n'

    def comment(self, py, marks):
        return py.choice(list(marks)) + py.choice(
            ['', ' note', 'x=1', ' this=that', ' # more', ' = ', '==='])

    def value(self, py, marks):
        options = [v for v in VALUES if not any(m in v for m in marks)]
        return py.choice(options)


def parsed(ck, folder, k):
    """One file."""
    py = ck.py
    marks = py.choice([('#',), ('#',), ('!',), ('#', '!'), ('%', ';')])
    t = Text(py, marks)
    path = folder / py.choice(['eprem.cfg', 'a b.ini', 'x.in', 'plain'])
    path.write_text(t.text)
    given = {}
    if marks != ('#',) or py.random() < 0.3:
        given['comments'] = py.choice([list, tuple, set])(marks)
    case = (t.text, marks)
    with ck.guard('parsed', case):
        c = parameter.configfile(py.choice([path, str(path)]), **given)
        ck.check(dict(c) == t.says, 'parsed', case, (dict(c), t.says))
        ck.check(list(c) == list(t.says) and len(c) == len(t.says)
                 and dict(c.items()) == t.says
                 and list(c.values()) == list(t.says.values()),
                 'parsed', case, (list(c), list(t.says)))
        for key in WORDS:
            if key in t.says:
                ck.check(key in c and c[key] == t.says[key]
                         and c.get(key) == t.says[key], 'parsed',
                         (*case, key), c.get(key))
            else:
                ck.check(key not in c and c.get(key) is None
                         and c.get(key, 5) == 5, 'parsed', (*case, key),
                         c.get(key))
                ck.rejects('unknown', (*case, key), lambda: c[key], KeyError)
        ck.check(pathlib.Path(c.source) == path.resolve()
                 and str(c) == str(path.resolve()), 'source', case, c.source)
        ck.check(path.read_text() == t.text, 'unchanged', case, 'rewritten')
    ck.saw('file parsed', case)
    if '\t ' in t.text or '\n ' in t.text:
        ck.saw('odd spacing', case)
    return path, t, marks


def compared(ck, folder, k):
    """Two files."""
    py = ck.py
    marks = py.choice([('#',), ('#',), ('!',)])
    given = {} if marks == ('#',) else {'comments': list(marks)}
    texts = [Text(py, marks) for _ in range(2)]
    if py.random() < 0.5:
        # mostly the same
        both = dict(texts[0].says)
        for key in py.sample(WORDS, 3):
            if both.pop(key, None) is None:
                both[key] = py.choice(['7', '8'])
        texts[1].text = ''.join(f'{a} = {b}\n' for a, b in both.items())
        texts[1].says = both
    if py.random() < 0.1:
        texts[1] = texts[0]
    files = []
    for i, t in enumerate(texts):
        path = folder / f'{i}.cfg'
        path.write_text(t.text)
        files.append(path)
    a, b = texts[0].says, texts[1].says
    case = (texts[0].text, texts[1].text, marks)
    how = py.choice(['file', 'path', 'text'])
    with ck.guard('compared', (*case, how)):
        first = parameter.configfile(files[0], **given)
        second = {'file': lambda: parameter.configfile(files[1], **given),
                  'path': lambda: files[1],
                  'text': lambda: str(files[1])}[how]()
        more = {} if how == 'file' else given
        d = first.diff(second, **more)
        ck.check(d.keys == {0: set(a) - set(b), 1: set(b) - set(a)},
                 'compared', (*case, how), d.keys)
        ck.check(d.full == {0: a, 1: b}, 'compared', (*case, how), d.full)
        got = first.compare(second, **more)
        want = {key: (a.get(key), b.get(key)) for key in {*a, *b}}
        ck.check(got == want and list(got) == sorted(want), 'compared',
                 (*case, how), got)
        ck.check(dict(first) == a, 'compared', (*case, how), dict(first))
    ck.rejects('compared', (*case, 'type'),
               lambda: parameter.configfile(files[0]).diff(5), TypeError)
    ck.saw(f'comparison with {how}', (*case, how))


def expected(kind, text):
    if kind == 'str':
        return text
    if kind == 'int':
        return int(text)
    if kind == 'float':
        return float(text)
    return [float(x) for x in text.strip('[]').split(',') if x.strip()]


def setting(py, name):
    """A legal value of this parameter: text, and value."""
    kind = params.PARAMETERS[name][0]
    if kind == 'int':
        if params.PARAMETERS[name][2:4] == ('0', '1'):
            return py.choice(['0', '1'])
        return str(py.randint(1, 90))
    if kind == 'float':
        return py.choice(['0.5', '1.0', '2', '3.25e2', '1e-3', '0.125'])
    if kind == 'list':
        return py.choice(['[1.0]', '[0.25, 0.5]', '[1,2,3]'])
    return py.choice(['out', '/some/path', 'w.txt'])


def shown(text):
    """The number(s), words, and unit that the comparison shows."""
    text = text.strip()
    if text == '(default)':
        return ('default',)
    m = re.fullmatch(r"(.*?)(?:\s+'([^']*)')?", text)
    body, unit = m.group(1).strip(), m.group(2)
    body = re.sub(r'^(?:array|np\.float64|np\.int64)\((.*)\)$', r'\1', body)
    if body.startswith('['):
        return ([float(x) for x in re.split(r'[,\s]+', body.strip('[] '))
                 if x], unit)
    try:
        return (float(body), unit)
    except ValueError:
        return (body, unit)


def blocks(text):
    """The groups of lines that the comparison prints."""
    found = []
    for block in re.split(r'\n\s*\n', text.strip('\n')):
        lines = block.split('\n')
        if not ''.join(lines).strip():
            continue
        title = lines[0].strip()
        rule = lines[1].strip() if len(lines) > 1 else ''
        rows = [line for line in lines[2:] if line.strip()]
        found.append((title, rule, rows))
    return found


def run(ck, given, *, process):
    """Run the command line, here or in another process."""
    if process:
        done = subprocess.run(
            [sys.executable, '-W', 'ignore', '-m', 'eprempy', 'configfile',
             *given], capture_output=True, text=True, timeout=120)
        return done.returncode, done.stdout, done.stderr
    options = {'source': None, 'generate': None, 'files': None,
               'verbose': False, 'diff': False, 'names': False}
    files = []
    it = iter(given)
    for word in it:
        if word == '-g':
            options['generate'] = next(it)
        elif word == '-s':
            options['source'] = next(it)
        elif word == '-v':
            options['verbose'] = True
        elif word == '-c':
            options['files'] = files
        elif word in ('--diff', '--names'):
            options[word[2:]] = True
        else:
            files.append(word)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cli.run('configfile', options)
    return 0, out.getvalue(), ''


def group(ck, folder, k, process):
    """Compare a group of files to one another and to the defaults."""
    py = ck.py
    some = py.sample(sorted(params.PARAMETERS), py.randint(1, 8))
    if py.random() < 0.3:
        some.append('useDegrees')
    n = py.choice([1, 2, 2, 3, 4, 6, 8])
    alike = py.choice([0.4, 0.4, 0.95])
    base = folder / f'cli{k}'
    places = [base, base / 'one', base / 'two', base / 'one' / 'deep']
    files, says = [], []
    for i in range(n):
        place = py.choice(places)
        place.mkdir(parents=True, exist_ok=True)
        path = place / f'config-{i}.cfg'
        if says and py.random() < alike:
            mine = dict(says[-1])
            if mine and py.random() < 0.5:
                mine.pop(py.choice(sorted(mine)))
        else:
            mine = {name: setting(py, name)
                    for name in some if py.random() < 0.7}
        path.write_text(''.join(
            f'{a}{py.choice(["=", " = "])}{b}\n' for a, b in mine.items()))
        files.append(path)
        says.append(mine)
    diff = py.random() < 0.6
    names = py.random() < 0.4 and n > 1
    given = ['-c', *[str(f) for f in files]]
    given += ['--diff'] * diff + ['--names'] * names
    case = (tuple(tuple(sorted(s.items())) for s in says), diff, names,
            process, k)
    with ck.guard('group', case):
        code, out, err = run(ck, given, process=process)
        ck.check(code == 0 and not err, 'group', case, (code, err[-500:]))
        got = blocks(out)
        titles = {}
        for title, rule, rows in got:
            m = re.fullmatch(r'(\S+)\s+\(default: (.*)\)', title)
            if not ck.check(m and set(rule) == {'-'}
                            and m.group(1) not in titles, 'layout', case,
                            (title, rule)):
                return
            titles[m.group(1)] = (m.group(2), rows)
        ck.check(list(titles) == sorted(titles), 'order', case, list(titles))
        want = set()
        for name in params.PARAMETERS:
            told = [s.get(name) for s in says]
            if not diff or differ(name, told, says):
                want.add(name)
        ck.check(set(titles) == want, 'listed', case,
                 (sorted(set(titles) ^ want)))
        labels = [str(i) for i in range(n)]
        if names:
            common = os.path.commonpath([str(f) for f in files])
            labels = [os.path.relpath(f, common) for f in files]
        for name in sorted(set(titles) & want):
            default, rows = titles[name]
            kind, text, *_ = params.PARAMETERS[name]
            here = (*case, name)
            if not text.count('config') and text not in (
                    'N_PROCS', 'third', 'HALF_PI', 'RSAU'):
                d = shown(default)
                want_d = expected(kind, text)
                if kind == 'list' and len(want_d) == 1:
                    ok = d[0] in (want_d, want_d[0])
                else:
                    ok = d[0] == want_d
                ck.check(ok, 'default', here, (default, want_d))
            ck.check(len(rows) == n, 'rows', here, rows)
            for label, row, mine in zip(labels, rows, says):
                ck.check(row.startswith(label), 'label', here, (label, row))
                value = shown(row[len(label):])
                if name not in mine:
                    ck.check(value == ('default',), 'value', here, row)
                    continue
                v = expected(kind, mine[name])
                ok = value[0] == v or (
                    kind == 'list' and len(v) == 1 and value[0] == v[0])
                unit = params.PARAMETERS[name][4]
                if unit == 'rad' and mine.get('useDegrees') == '1':
                    unit = 'deg'
                if unit in (None, '1'):
                    ok = ok and value[1] is None
                elif name == 'idealShockScale':
                    pass
                else:
                    ok = ok and value[1] is not None and (
                        parameter.variable(1.0, unit=value[1]).unit
                        == parameter.variable(1.0, unit=unit).unit)
                ck.check(ok, 'value', here, (row, v, unit))
                ck.saw('value shown', here)
    ck.saw('group in a process' if process else 'group', case)
    ck.saw('differences' if diff else 'everything', case)


def differ(name, told, says):
    """Whether the comparison ought to show this parameter."""
    kind, _, _, _, unit, _ = params.PARAMETERS[name]
    keys = set()
    for text, mine in zip(told, says):
        if text is None:
            keys.add(None)
        else:
            v = expected(kind, text)
            deg = unit == 'rad' and mine.get('useDegrees') == '1'
            keys.add((tuple(v) if kind == 'list' else v, deg))
    return len(keys) > 1


def generated(ck, folder, k, process):
    """A generated file says what the defaults are."""
    py = ck.py
    path = folder / f'generated{k}.cfg'
    verbose = py.random() < 0.5
    case = ('generated', verbose, process, k)
    with ck.guard('generated', case):
        code, out, err = run(
            ck, ['-g', str(path)] + ['-v'] * verbose, process=process)
        ck.check(code == 0 and not err, 'generated', case, err[-500:])
        ck.check((str(path) in out) == verbose, 'generated', case, out)
        c = parameter.configfile(path)
        default = parameter.interface()
        ck.check(set(params.PARAMETERS) - set(c) <= {'numNodesPerStream'}
                 and set(c) <= set(params.PARAMETERS), 'complete', case,
                 set(params.PARAMETERS) ^ set(c))
        ck.check(list(c) == sorted(c), 'sorted', case, list(c))
        read = parameter.interface(path)
        for name in c:
            a, b = default[name], read[name]
            if isinstance(a, parameter.Variable):
                ok = (isinstance(b, parameter.Variable) and a.unit == b.unit
                      and np.shape(a.data) == np.shape(b.data)
                      and np.array_equal(np.array(a, float),
                                         np.array(b, float)))
            else:
                ok = type(a) is type(b) and a == b
            ck.check(ok, 'read back', (*case, name), (a, b))
            ck.saw('parameter read back', (*case, name))
        # the generated file does not differ from itself
        code, out, err = run(ck, ['-c', str(path), '--diff'],
                             process=process)
        ck.check(code == 0 and not out.strip() and not err, 'no difference',
                 case, (out[-300:], err[-300:]))
    ck.saw('generated', case)


def refused(ck, folder, k):
    case = ('refused', k)
    ck.rejects('refused', case,
               lambda: parameter.configfile(folder / 'absent.cfg'), MISSING)
    ck.rejects('refused', case, lambda: cli.compare_config_files(
        [folder / 'absent.cfg']), MISSING)
    ck.rejects('refused', case, lambda: cli.compare_config_files([]),
               cli.UserError)
    ck.rejects('refused', case, lambda: cli.run('absent', {}), cli.CLIError)
    bad = folder / 'bad.cfg'
    bad.write_text('a=1\nno equals sign here\n')
    ck.rejects('refused', case, lambda: dict(parameter.configfile(bad)),
               ValueError)
    ck.saw('refusal', case)


def body(ck):
    folder = ck.scratch()
    n = ck.scale(150, 3000)
    for k in range(n):
        if not ck.budget(120, 400):
            break
        parsed(ck, folder, k)
        compared(ck, folder, k)
    for k in range(ck.scale(14, 250)):
        if not ck.budget(180, 700):
            break
        group(ck, folder, k, process=False)
    for k in range(ck.scale(3, 12)):
        group(ck, folder, 10000 + k, process=True)
    for k in range(ck.scale(2, 3)):
        generated(ck, folder, k, process=bool(k % 2))
    refused(ck, folder, 0)
    ck.require('file parsed', 100)
    ck.require('odd spacing', 20)
    for how in ('file', 'path', 'text'):
        ck.require(f'comparison with {how}', 20)
    ck.require('group', 10)
    ck.require('group in a process', 3)
    ck.require('value shown', 20)
    ck.require('differences', 4)
    ck.require('everything', 3)
    ck.require('parameter read back', 110)
    ck.require('refusal', 1)


if __name__ == '__main__':
    sys.exit(harness.main('C21', RULE, body))

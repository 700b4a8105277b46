"""C23: a project's runs, directories and log tell one story."""
import contextlib
import datetime
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys

from eprempy import paths, project
from vlib import harness

RULE = (
    'random histories of project operations (including refused and failing '
    'ones) in one or several branches against a model of disk and log, log '
    'updates cut off at random points, and the command line; distinct = '
    'distinct (project, step, operation) observations'
)
RUNS = ['alpha', 'beta', 'run 1', 'x.y', 'run-2', 'zz', 'αβ']
BRANCHES = ['main', 'dev', 'b 1', 'old']
NOBODY = 65534
REFUSED = (paths.PathOperationError, paths.PathTypeError)
MPIRUN = '''#!/bin/sh
# stand-in for mpirun: --mca NAME VALUE -n N PROGRAM CONFIG
echo "{tag} $5 $6"
printf '%s\\n' "$#" "$5" "$6" "$7" "$PWD" > started.txt
exec "$6" "$7"
'''
EPREM = '''#!/bin/sh
echo "{tag} $1" >&2
echo result > data.txt
code=$(sed -n 's/^exit *= *//p' "$1")
exit ${{code:-0}}
'''


@contextlib.contextmanager
def unprivileged(folder):
    """Operate as a user who owns nothing but `folder`, if possible."""
    try:
        for path in (folder, *folder.rglob('*')):
            os.chown(path, NOBODY, NOBODY)
        groups = os.getgroups()
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, 0)
        os.setresuid(NOBODY, NOBODY, 0)
    except (PermissionError, OSError):
        yield False
        return
    try:
        yield True
    finally:
        os.setresuid(0, 0, 0)
        os.setresgid(0, 0, 0)
        os.setgroups(groups)


@contextlib.contextmanager
def guarded(ck, folder):
    """Never let a removal or a move leave the scratch folder."""
    real = {(shutil, 'rmtree'): shutil.rmtree, (os, 'rename'): os.rename,
            (os, 'unlink'): os.unlink, (os, 'rmdir'): os.rmdir}
    home = str(folder.resolve()) + os.sep

    def inside(path):
        return os.path.realpath(path).startswith(home)

    def rmtree(path, *args, **kwargs):
        if not inside(path):
            ck.fail('contained', str(path), 'removal outside of the project')
            raise PermissionError(path)
        return real[shutil, 'rmtree'](path, *args, **kwargs)

    def rename(a, b, *args, **kwargs):
        if not kwargs and not (inside(a) and inside(b)):
            ck.fail('contained', f'{a} {b}', 'move outside of the project')
            raise PermissionError(a)
        return real[os, 'rename'](a, b, *args, **kwargs)
    shutil.rmtree, os.rename = rmtree, rename
    try:
        yield
    finally:
        shutil.rmtree = real[shutil, 'rmtree']
        os.rename = real[os, 'rename']


def tree(folder, skip=()):
    """Everything below a folder: relative path -> contents."""
    out = {}
    for path in sorted(folder.rglob('*')):
        name = str(path.relative_to(folder))
        if any(name == s or name.startswith(s + os.sep) for s in skip):
            continue
        if '__pycache__' in name:
            continue
        out[name] = None if path.is_dir() else path.read_bytes()
    return out


def caching(folder):
    return {'PYTHONDONTWRITEBYTECODE': '',
            'PYTHONPYCACHEPREFIX': str(folder / 'pyc')}


def quiet(call):
    """Call and give the result or exception, and what was printed."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            result = call()
    except BaseException as err:
        if isinstance(err, (KeyboardInterrupt, SystemExit)):
            raise
        return err, out.getvalue()
    return result, out.getvalue()


class Model:
    """What a project should look like."""

    def __init__(self, root, attrs):
        self.root = root
        self.attrs = attrs
        self.branches = attrs['branches']
        #: (branch or None, run name) -> {file: bytes}
        self.disk = {}
        #: (branch or None, run name) -> log entry
        self.log = {}

    @property
    def where(self):
        return list(self.branches) or [None]

    def base(self, branch):
        home = self.root / branch if branch else self.root
        return home / self.attrs['rundir']

    def path(self, branch, run):
        return self.base(branch) / run

    def targets(self, branches):
        if branches is None:
            return self.where
        chosen = {branches} if isinstance(branches, str) else set(branches)
        return [b for b in self.where if b in chosen]


class History:
    """A random history of one project."""

    def __init__(self, ck, home, k):
        self.ck, self.py, self.home, self.k = ck, ck.py, home, k
        self.steps = []
        self.caching = caching(home.parent)
        py = self.py
        self.shared = home / 'shared'
        self.shared.mkdir()
        (home / 'bystander').mkdir()
        (home / 'bystander' / 'runs').mkdir()
        (home / 'bystander' / 'runs' / 'alpha').write_text('keep')
        self.tools = {}
        for tag in ('P', 'E'):  # on the path, given in the environment
            where = home / {'P': 'bin', 'E': 'given tools'}[tag]
            where.mkdir()
            self.programs(where, tag)
            self.tools[tag] = where
        self.counter = 0
        options = {}
        if py.random() < 0.6:
            options['branches'] = py.sample(BRANCHES, py.randint(1, 3))
        if py.random() < 0.4:
            options['config'] = py.choice(['my.ini', 'run cfg.in', 'e.cfg'])
        if py.random() < 0.4:
            options['inputs'] = py.choice(['cfgs', 'in puts'])
        if py.random() < 0.4:
            options['output'] = py.choice(['out.txt', 'the log'])
        if py.random() < 0.4:
            options['rundir'] = py.choice(['simulations', 'r'])
        if py.random() < 0.4:
            options['logname'] = py.choice(['log', 'log.json', 'my log.txt'])
        self.new(home / py.choice(['proj', 'my project']), options)

    def programs(self, where, tag):
        for name, text in (('mpirun', MPIRUN), ('eprem', EPREM)):
            path = where / name
            path.write_text(text.format(tag=f'{tag}:{name}'))
            path.chmod(0o755)

    def attributes(self, options):
        log = options.get('logname', 'runs')
        return {
            'branches': tuple(options.get('branches', ())),
            'config': options.get('config', 'eprem.cfg'),
            'inputs': options.get('inputs', 'inputs'),
            'output': options.get('output', 'eprem.log'),
            'rundir': options.get('rundir', 'runs'),
            'logname': str(pathlib.Path(log).with_suffix('.json')),
        }

    def new(self, root, options):
        self.options = options
        self.model = Model(root, self.attributes(options))
        case = self.step('create', options)
        with self.ck.guard('create', case):
            self.prj = project.Interface(
                self.py.choice([root, str(root)]), **options)
        self.programs_at = {None: 'P'}
        self.write_inputs()
        self.judge(case)

    def write_inputs(self):
        folder = self.model.root / self.model.attrs['inputs']
        self.configs = {}
        for name, code in [('good.cfg', 0), ('fine.ini', 0), ('bad.cfg', 3)]:
            text = f'# {name}\nexit = {code}\nnumber = {self.counter}\n'
            (folder / name).write_text(text)
            self.configs[name] = (name, text, code)
        path = self.shared / 'outside.cfg'
        path.write_text('exit = 0\n# elsewhere\n')
        self.configs['outside'] = (path, path.read_text(), 0)
        # a file in the current directory does not stand in for an input
        # a file in the current directory does not stand in for an input, but
        # serves when no input has its name
        text = 'exit = 0\n# not an input\n'
        for here in (pathlib.Path.cwd(), self.home):
            (here / 'good.cfg').write_text(text)
            (here / 'near.cfg').write_text(text)
        self.configs['near.cfg'] = ('near.cfg', text, 0)

    def step(self, *what):
        self.steps.append(what)
        return (self.k, len(self.steps), what)

    # -- judgements -----------------------------------------------------
    def judge(self, case):
        ck, m, prj = self.ck, self.model, self.prj
        with ck.guard('story', case):
            # attributes
            ck.check(prj.root == m.root and prj.name == m.root.name
                     and str(prj) == m.root.name and bool(prj), 'identity',
                     case, prj.root)
            # on disk
            for branch in m.where:
                want = {run: files for (b, run), files in m.disk.items()
                        if b == branch}
                base = m.base(branch)
                got = {p.name: tree(p) for p in base.iterdir()} \
                    if base.is_dir() else None
                ck.check(got == want, 'disk', (case, branch), (got, want))
                ck.saw('directory judged', (case, branch))
            # views
            runs = {}
            for branch, run in m.disk:
                runs.setdefault(run, set())
                if branch:
                    runs[run].add(branch)
            ck.check(prj.runs == runs, 'runs', case, (prj.runs, runs))
            if m.branches:
                owned = {b: {r for (x, r) in m.disk if x == b}
                         for b in m.branches}
            else:
                owned = {}
            ck.check(prj.branches == owned, 'branches', case,
                     (prj.branches, owned))
            ck.check(list(prj.directories) == [m.base(b) for b in m.where],
                     'directories', case, list(prj.directories))
            # log
            want = {str(m.path(*at)): entry for at, entry in m.log.items()}
            want.update(config=m.attrs['config'], output=m.attrs['output'])
            path = m.root / m.attrs['logname']
            raw = json.loads(path.read_text())
            ck.check(raw == want, 'log file', case, (raw, want))
            ck.check(dict(prj.log) == want and len(prj.log) == len(want)
                     and all(prj.log[key] == want[key] for key in want),
                     'log', case, (dict(prj.log), want))
            ck.check(pathlib.Path(prj.log.path) == path, 'log path', case,
                     prj.log.path)
            ck.rejects('unknown log entry', case,
                       lambda: prj.log[str(m.path(m.where[0], 'none'))],
                       project.LogKeyError)
            names = [p.name for p in m.root.iterdir()]
            known = {'.eprem.conf', '__main__.py', m.attrs['inputs'],
                     m.attrs['logname'], '__pycache__', 'mpirun', 'eprem',
                     *(m.branches or [m.attrs['rundir']])}
            ck.check(set(names) <= known, 'leftovers', case,
                     set(names) - known)
            ck.check((self.home / 'bystander' / 'runs' / 'alpha').read_text()
                     == 'keep', 'bystander', case, None)
        ck.saw('story judged', case)

    # -- operations -----------------------------------------------------
    def operate(self):
        py = self.py
        what = py.choices(
            ['run', 'mv', 'rm', 'reset', 'rename', 'reopen', 'copy', 'show',
             'refuse', 'crash', 'script', 'external'],
            [30, 16, 10, 2, 5, 5, 3, 4, 4, 4, 0.6, 3])[0]
        getattr(self, what)()

    def branches(self):
        py, m = self.py, self.model
        if not m.branches or py.random() < 0.5:
            return None
        if py.random() < 0.4:
            return py.choice(m.branches)
        some = py.sample(m.branches, py.randint(1, len(m.branches)))
        if py.random() < 0.15:
            some.append('unknown')
        return py.choice([list, tuple, set])(some)

    def flags(self, **given):
        """These options, sometimes left to their default, which is False."""
        return {k: v for k, v in given.items()
                if v or self.py.random() < 0.5}

    def run(self, script=False):
        ck, py, m = self.ck, self.py, self.model
        config = py.choice(sorted(self.configs))
        given, text, code = self.configs[config]
        name = py.choice(RUNS)
        branches = self.branches()
        nproc = py.choice([None, 1, 2, 7])
        errors = py.random() < 0.4
        silent = py.random() < 0.5
        env = {}
        tags = {}
        for tool in ('mpirun', 'eprem'):
            if py.random() < 0.5:
                env[tool] = str(self.tools['E'] / tool)
                tags[tool] = ['E'] * len(m.where)
            else:
                tags[tool] = [self.programs_at.get((b, tool), 'P')
                              for b in m.where]
        found = dict(zip(m.where, zip(tags['mpirun'], tags['eprem'])))
        at = {t: {b: (self.tools[tags[t][i]] if tags[t][i] in self.tools
                      else (m.root / b if b else m.root)) / t
                  for i, b in enumerate(m.where)} for t in tags}
        case = self.step('script run' if script else 'run', name, config,
                         branches, nproc, errors, sorted(env))
        before = datetime.datetime.now().replace(microsecond=0)
        if script:
            args = ['run', str(given), '-t', name]
            args += ['-n', str(nproc)] if nproc else []
            args += ['-b', *([branches] if isinstance(branches, str)
                             else branches)] if branches else []
            for tool in env:
                args += [f'--{tool}', env[tool]]
            args += ([] if errors else ['-f']) + ([] if silent else ['-v'])
            result, shown = self.call_script(args)
        else:
            result, shown = quiet(lambda: self.prj.run(
                py.choice([given, str(given)]), name=name, branches=branches,
                nproc=nproc, environment=py.choice([env, env or None]),
                **self.flags(errors=errors, silent=silent)))
        after = datetime.datetime.now()
        stopped = False
        told = []
        for branch in m.targets(branches):
            if (branch, name) in m.disk:
                if errors:
                    stopped = True
                    break
                continue
            # this run happened
            path = m.path(branch, name)
            mtag, etag = found[branch]
            with ck.guard('run', (case, branch)):
                files = tree(path)
                want = {
                    m.attrs['config']: text.encode(),
                    'data.txt': b'result\n',
                    'started.txt': '\n'.join(
                        ['7', str(nproc or 1), str(at['eprem'][branch]),
                         m.attrs['config'], str(path), '']).encode(),
                    m.attrs['output']: (
                        f'{mtag}:mpirun {nproc or 1} {at["eprem"][branch]}\n'
                        f'{etag}:eprem {m.attrs["config"]}\n').encode(),
                }
                ck.check(files == want, 'run', (case, branch), (files, want))
                told.append((name, branch, code))
                m.disk[branch, name] = files
                if code == 0:
                    entry = json.loads(
                        (m.root / m.attrs['logname']).read_text()
                    ).get(str(path))
                    ok = (isinstance(entry, dict)
                          and set(entry) == {'command', 'time'})
                    ck.check(ok, 'logged', (case, branch), entry)
                    if ok:
                        when = datetime.datetime.strptime(
                            entry['time'], '%Y-%m-%dT%H:%M:%S')
                        ck.check(before <= when <= after, 'time',
                                 (case, branch), entry)
                        ck.check(str(at['mpirun'][branch]) in entry['command']
                                 and str(at['eprem'][branch])
                                 in entry['command'], 'command',
                                 (case, branch), entry)
                        m.log[branch, name] = entry
                    ck.saw('successful run', (case, branch))
                else:
                    ck.saw('failed run', (case, branch))
        if script:
            ck.check((result != 0) == stopped, 'run status', case, shown)
        else:
            ck.check(isinstance(result, REFUSED) if stopped
                     else result is None, 'run status', case, result)
        if silent and not stopped and not script:
            ck.check(not shown, 'silent', case, shown)
        if not silent:
            for name, branch, code in told:
                ck.check(repr(name) in shown
                         and (branch is None or f'{branch!r}' in shown)
                         and (code == 0 or f'{code}' in shown), 'told', case,
                         shown)
        if stopped:
            ck.saw('refused run', case)
        self.judge(case)

    def call_script(self, args):
        # the script works without an installed package
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        env.update(self.caching)
        done = subprocess.run(
            [sys.executable, str(self.model.root / '__main__.py'), *args],
            capture_output=True, text=True, env=env, cwd=self.home,
            timeout=120)
        self.ck.saw('script', (self.k, len(self.steps)))
        return done.returncode, done.stdout + done.stderr

    def script(self):
        py = self.py
        getattr(self, py.choice(['run', 'mv', 'rm']))(script=True)

    def mv(self, script=False):
        ck, py, m = self.ck, self.py, self.model
        names = sorted({r for _, r in m.disk}) or RUNS
        source = py.choice(names) if py.random() < 0.85 else py.choice(RUNS)
        target = py.choice(RUNS)
        branches = self.branches()
        errors = py.random() < 0.5
        silent = py.random() < 0.5
        case = self.step('script mv' if script else 'mv', source, target,
                         branches, errors)
        if script:
            args = ['mv', source, target]
            args += ['-b', *([branches] if isinstance(branches, str)
                             else branches)] if branches else []
            args += ([] if errors else ['-f']) + ([] if silent else ['-v'])
            result, shown = self.call_script(args)
        else:
            result, shown = quiet(lambda: self.prj.mv(
                source, target, branches=branches,
                **self.flags(errors=errors, silent=silent)))
        stopped = False
        for branch in m.targets(branches):
            old, new = (branch, source), (branch, target)
            if old not in m.disk or new in m.disk:
                if errors:
                    stopped = True
                    break
                continue
            m.disk[new] = m.disk.pop(old)
            if old in m.log:
                m.log[new] = m.log.pop(old)
                ck.saw('logged run moved', (case, branch))
            else:
                ck.saw('unlogged run moved', (case, branch))
            if not silent:
                ck.check(repr(target) in shown, 'told', case, shown)
        if script:
            ck.check((result != 0) == stopped, 'mv status', case, shown)
        else:
            ck.check(isinstance(result, REFUSED) if stopped
                     else result is None, 'mv status', case, result)
        if stopped:
            ck.saw('refused move', case)
        self.judge(case)

    def rm(self, script=False):
        ck, py, m = self.ck, self.py, self.model
        names = sorted({r for _, r in m.disk}) or RUNS
        many = py.random() < 0.2
        if many:
            start = py.choice(names)[:1]
            pattern = start + '*'
        else:
            start = None
            pattern = (py.choice(names) if py.random() < 0.8
                       else py.choice(RUNS))
        branches = self.branches()
        errors, silent = py.random() < 0.5, py.random() < 0.5
        case = self.step('script rm' if script else 'rm', pattern, branches)
        if script:
            args = ['rm', pattern]
            args += ['-b', *([branches] if isinstance(branches, str)
                             else branches)] if branches else []
            args += ([] if errors else ['-f']) + ([] if silent else ['-v'])
            result, shown = self.call_script(args)
        else:
            result, shown = quiet(lambda: self.prj.rm(
                pattern, branches=branches,
                **self.flags(errors=errors, silent=silent)))
        gone = [at for at in m.disk if at[0] in m.targets(branches) and (
            at[1].startswith(start) if many else at[1] == pattern)]
        for at in gone:
            del m.disk[at]
            m.log.pop(at, None)
            ck.saw('run removed', (case, at))
            if not silent:
                ck.check(repr(at[1]) in shown, 'told', case, shown)
        if not gone:
            ck.saw('nothing removed', case)
        ck.check(result == 0 if script else result is None, 'rm status', case,
                 (result, shown))
        self.judge(case)

    def reset(self):
        ck, m = self.ck, self.model
        case = self.step('reset')
        result, _ = quiet(lambda: self.prj.reset(
            force=self.py.random() < 0.5, silent=True))
        ck.check(result is None, 'reset status', case, result)
        m.disk.clear()
        m.log.clear()
        ck.saw('reset', case)
        self.judge(case)

    def rename(self):
        ck, py, m = self.ck, self.py, self.model
        name = py.choice(['renamed', 'other name', 'proj', 'proj2', 'p'])
        target = self.home / name
        relative = py.random() < 0.3
        force = py.random() < 0.3
        case = self.step('rename', name, relative, force)
        old = m.root
        before = tree(self.home)
        if relative:
            # relative to the current directory
            given = os.path.relpath(target)
        else:
            given = py.choice([target, str(target)])
        result, shown = quiet(lambda: self.prj.rename(
            given, force=force, silent=py.random() < 0.5))
        if name in {p.split(os.sep)[0] for p in before}:
            ck.check(isinstance(result, REFUSED), 'rename status', case,
                     result)
            ck.check(tree(self.home) == before, 'refused rename', case, None)
            ck.saw('refused rename', case)
        else:
            ck.check(result is None, 'rename status', case, result)
            m.root = target
            for at, files in m.disk.items():
                ck.saw('run renamed with project', (case, at))
            ck.check(not old.exists(), 'renamed', case, old)
            ck.saw('renamed', case)
            self.programs_at = dict(self.programs_at)
        self.judge(case)
        if py.random() < 0.5:
            self.reopen()

    def reopen(self):
        ck, py, m = self.ck, self.py, self.model
        case = self.step('reopen')
        before = tree(self.home)
        with ck.guard('reopen', case):
            again = project.Interface(py.choice([m.root, str(m.root)]))
            ck.check(again == self.prj and not (again != self.prj), 'equal',
                     case, (again, self.prj))
            ck.check(tree(self.home) == before, 'unchanged', case, None)
            self.prj = again
        ck.saw('reopened', case)
        self.judge(case)

    def copy(self):
        ck, py, m = self.ck, self.py, self.model
        target = self.home / 'copied'
        changes = {}
        if py.random() < 0.4:
            changes['output'] = 'other.txt'
        if py.random() < 0.3:
            changes['branches'] = py.sample(BRANCHES, 2)
        if py.random() < 0.3:
            changes['rundir'] = 'elsewhere'
        if py.random() < 0.3:
            changes['inputs'] = 'given'
        case = self.step('copy', sorted(changes.items()))
        before = tree(m.root)
        with ck.guard('copy', case):
            new = project.Interface(target, copy=m.root, **changes)
            ck.check(tree(m.root) == before, 'original', case, None)
            attrs = dict(m.attrs, **changes)
            attrs['branches'] = tuple(attrs['branches'])
            old, opts = self.prj, self.options
            self.prj, model = new, self.model
            self.model = Model(target, attrs)
            ck.check(tree(target / attrs['inputs'])
                     == tree(m.root / m.attrs['inputs']), 'copied inputs',
                     case, None)
            self.judge((case, 'copy'))
            ck.check((new == old) is False, 'equal', case, None)
            ck.check(project.Interface(target) == new, 'equal', case, None)
            result, _ = quiet(lambda: new.remove(silent=True))
            ck.check(result is None and not target.exists() and not new,
                     'removed', case, result)
            self.prj, self.model, self.options = old, model, opts
        ck.saw('copied', case)
        self.judge(case)

    def show(self):
        ck, py, m = self.ck, self.py, self.model
        case = self.step('show')
        before = tree(m.root)
        names = sorted({r for _, r in m.disk})
        what = py.choice(['project', 'all', 'one', 'none'])
        if what == 'one' and not names:
            what = 'none'
        some = {'project': (), 'all': ('*',), 'none': ('no such run',),
                'one': tuple(py.sample(names, 1)) if names else ()}[what]
        result, shown = quiet(lambda: self.prj.show(*some))
        ck.check(result is None, 'show', case, result)
        lines = shown.splitlines()
        if what == 'project':
            ck.check(str(m.root) in shown and all(
                b in shown for b in m.branches) and all(
                n in lines for n in names), 'show', case, shown)
        elif what == 'none':
            ck.check('no such run' in shown, 'show', case, shown)
        else:
            chosen = names if what == 'all' else list(some)
            want = sorted(str(m.path(*at)) for at in m.disk
                          if at[1] in chosen)
            got = sorted(i for i in lines if i.startswith(str(m.root)))
            ck.check(got == want, 'show', case, (got, want))
        ck.check(tree(m.root) == before, 'unchanged', case, None)
        ck.saw('shown', case)

    def refuse(self):
        """Requests that must change nothing."""
        ck, py, m = self.ck, self.py, self.model
        case = self.step('refuse')
        before = tree(self.home)
        ck.rejects('exists', case, lambda: project.Interface(
            m.root, branches=['main', 'new']), project.ProjectExistsError)
        ck.rejects('exists', case, lambda: project.Interface(
            m.root, output='x'), project.ProjectExistsError)
        ck.rejects('no name', case, lambda: self.prj.rm(''), ValueError)
        # only runs are removed, whatever else a pattern reaches
        base = m.base(py.choice(m.where))
        up = py.choice(['..', '../..' if m.branches else '*/..', '*/..',
                        os.path.relpath(self.home / 'bystander', base),
                        os.path.relpath(m.root / m.attrs['inputs'], base)])
        result, _ = quiet(lambda: self.prj.rm(up, silent=True))
        ck.check(result is None, 'only runs', (case, up), result)
        if list(base.glob(up)):
            ck.rejects('only runs', (case, up), lambda: self.prj.rm(
                up, errors=True, silent=True), paths.PathOperationError)
            ck.saw('not runs', case)
        if py.random() < 0.3:
            link = base / 'a link'
            link.symlink_to(self.home / 'bystander')
            quiet(lambda: self.prj.rm('a link', silent=True))
            if link.is_symlink():
                link.unlink()
        ck.check(tree(self.home) == before, 'only runs', (case, up), None)
        ck.rejects('log exists', case, lambda: project.RunLog(
            m.root / m.attrs['logname'], config='x'), TypeError)
        ck.rejects('unknown', case, lambda: self.prj.log.append(
            m.path(m.where[0], 'none'), 'key', 1), project.LogKeyError)
        ck.rejects('unknown', case, lambda: self.prj.log.mv(
            m.path(m.where[0], 'none'), 'new'), project.LogKeyError)
        ck.rejects('unknown', case, lambda: self.prj.log.update_directory(
            self.home / 'absent'), paths.PathTypeError)
        ck.rejects('unknown', case, lambda: self.prj.log.update_directory(
            self.shared / 'outside.cfg'), paths.PathTypeError)
        for call in (lambda: self.prj.rm('alpha', branches='unknown'),
                     lambda: self.prj.mv('alpha', 'q', branches=['unknown']),
                     lambda: self.prj.run('good.cfg', name='new',
                                          branches='unknown', silent=True)):
            if m.branches:
                result, _ = quiet(call)
                ck.check(result is None, 'unknown branch', case, result)
        ck.check(tree(self.home) == before, 'refusal', case, None)
        ck.saw('refusals', case)
        # a run that cannot be set up is never logged
        if py.random() < 0.3:
            free = [n for n in RUNS if not any(n == r for _, r in m.disk)]
            if free:
                ck.rejects('missing config', case, lambda: self.prj.run(
                    'absent.cfg', name=free[0], silent=True),
                    (paths.NonExistentPathError, FileNotFoundError))
                for b in m.where:
                    with contextlib.suppress(FileNotFoundError):
                        m.path(b, free[0]).rmdir()
        self.judge(case)

    def external(self):
        """Programs in project directories take precedence over the path."""
        py, m = self.py, self.model
        branch = py.choice(m.where)
        case = self.step('programs', branch)
        where = m.root / branch if branch else m.root
        for name, text in (('mpirun', MPIRUN), ('eprem', EPREM)):
            path = where / name
            if (branch, name) in self.programs_at:
                path.unlink()
                del self.programs_at[branch, name]
            elif py.random() < 0.6:
                path.write_text(text.format(tag=f'B:{name}'))
                path.chmod(0o755)
                self.programs_at[branch, name] = 'B'
        self.judge(case)
        # a file among the runs is no run
        base = m.base(branch)
        stray = base / py.choice(['notes.txt', '.hidden', 'zz'])
        if base.is_dir() and not stray.exists():
            stray.write_text('notes')
            with self.ck.guard('stray', case):
                before = sorted(self.prj.runs)
                self.ck.check(stray.name not in before
                         and all(stray.name not in runs for runs in
                                 self.prj.branches.values()),
                         'stray', case, before)
                _, shown = quiet(lambda: self.prj.show('*'))
                self.ck.check(stray.name not in shown.split(), 'stray shown', case,
                         shown)
            stray.unlink()
            self.ck.saw('stray file', case)

    def crash(self):
        """A log update that is cut off at some point changes nothing."""
        ck, py, m = self.ck, self.py, self.model
        log = m.root / m.attrs['logname']
        kept = log.read_bytes()
        there = set(m.root.iterdir())
        cut = py.choice(['value', 'write', 'replace'])
        limit = py.randint(0, len(kept) + 50)
        case = self.step('crash', cut, limit)

        class Cut(BaseException):
            pass

        class Torn(io.TextIOBase):
            """A file that stops accepting text."""
            def __init__(self, file):
                self.file, self.left = file, limit

            def write(self, text):
                if len(text) > self.left:
                    self.file.write(text[:self.left])
                    self.file.flush()
                    raise Cut
                self.left -= len(text)
                return self.file.write(text)

        real_dump, real_open = json.dump, pathlib.Path.open
        real_replace = pathlib.Path.replace
        entries = [at for at in m.log]
        value = {'a': object()} if cut == 'value' else {'command': 'x' * 40}
        calls = [lambda: self.prj.log.create('/new', value)]
        if entries:
            target = m.path(*py.choice(entries))
            calls.append(lambda: self.prj.log.append(target, 'key', value))
            if cut != 'value':
                calls.append(lambda: self.prj.log.rm(target))
                calls.append(lambda: self.prj.log.mv(target, '/moved'))
        call = py.choice(calls)

        def torn(obj, fp, *args, **kwargs):
            return real_dump(obj, Torn(fp), *args, **kwargs)

        def stop(*args, **kwargs):
            raise Cut
        finished = False
        try:
            if cut == 'write':
                project.json.dump = torn
            if cut == 'replace':
                pathlib.Path.replace = stop
                os_replace, os.replace = os.replace, stop
            call()
            finished = True
        except (Cut, TypeError, ValueError):
            pass
        finally:
            project.json.dump = real_dump
            pathlib.Path.replace = real_replace
            if cut == 'replace':
                os.replace = os_replace
        if finished:
            # the update was small enough (or its code path differs)
            log.write_bytes(kept)
            ck.saw('update completed', case)
        else:
            ck.check(log.read_bytes() == kept, 'cut off', case,
                     log.read_bytes()[:200])
            ck.saw('update cut off', case)
        self.judge_log_only(case, kept)
        for path in set(m.root.iterdir()) - there:
            path.unlink()
        self.judge(case)

    def judge_log_only(self, case, kept):
        fresh = project.RunLog(self.model.root / self.model.attrs['logname'])
        self.ck.check(dict(fresh) == json.loads(kept), 'cut off', case,
                      str(fresh)[:300])


def logs(ck, home, k):
    """Histories of one log."""
    py = ck.py
    folder = home / f'log{k}'
    folder.mkdir()
    common = {key: py.choice(['x', 1, [1, 2], None, 2.5])
              for key in py.sample(['config', 'output', 'mode'],
                                   py.randint(0, 3))}
    path = folder / 'runs.json'
    want = dict(common)
    keys = [str(folder / n) for n in RUNS]
    steps = []
    with ck.guard('log', (k, 'create')):
        log = project.RunLog(py.choice([path, str(path)]), **common)
        for _ in range(py.randint(1, 14)):
            what = py.choice(['create', 'create', 'items', 'append', 'mv',
                              'rm', 'load', 'reopen', 'move'])
            key, value = py.choice(keys), {
                n: py.choice(['v', 3, 1.5, [1], {'a': None}])
                for n in py.sample(['a', 'b', 'time'], py.randint(1, 3))}
            given = py.choice([key, pathlib.Path(key)])
            steps.append((what, key))
            if what == 'create':
                log.create(given, value)
                want[key] = value
            elif what == 'items':
                log.create(given, **value)
                want[key] = value
            elif what == 'append' and key in want:
                log.append(given, 'extra', value)
                want[key] = dict(want[key], extra=value)
            elif what == 'mv' and key in want:
                new = py.choice(keys)
                log.mv(given, py.choice([new, pathlib.Path(new)]))
                entry = want.pop(key)
                want[new] = entry
            elif what == 'rm':
                log.rm(given)
                want.pop(key, None)
            elif what == 'load':
                source = folder / py.choice(['a.json', 'a.JSON'])
                source.write_text(json.dumps(value))
                log.load(given, py.choice([source, str(source)]))
                want[key] = value
            elif what == 'reopen':
                log = project.RunLog(path)
            elif what == 'move':
                other = home / f'log{k}-{len(steps)}'
                folder.rename(other)
                log.update_directory(py.choice([other, str(other)]))
                want = {n.replace(str(folder), str(other)): v
                        for n, v in want.items()}
                keys = [n.replace(str(folder), str(other)) for n in keys]
                folder, path = other, other / 'runs.json'
            raw = json.loads(path.read_text())
            case = (k, tuple(steps))
            ck.check(raw == want == dict(log) and len(log) == len(want)
                     and set(log) == set(want), 'log', case, (raw, want))
            ck.check(log.path == path and log.name == 'runs.json', 'log path',
                     case, log.path)
            for n in keys:
                ck.check((n in log) == (n in want), 'log', (case, n), None)
            ck.saw('log step', case)
    shutil.rmtree(folder)


def command_line(ck, home):
    """Projects made and changed from the command line."""
    py = ck.py
    env = dict(os.environ, **caching(home))

    def call(*args):
        done = subprocess.run(
            [sys.executable, '-m', 'eprempy.project', *args], env=env,
            capture_output=True, text=True, cwd=home, timeout=120)
        return done.returncode, done.stdout, done.stderr
    case = 'command line'
    with ck.guard('command line', case):
        code, out, err = call('create', 'cli', '-b', 'one', 'two', '-d',
                              'sims', '-v')
        ck.check(code == 0 and 'cli' in out, 'create', case, err[-500:])
        prj = project.Interface(home / 'cli')
        ck.check(set(prj.branches) == {'one', 'two'} and (
            home / 'cli' / 'one' / 'sims').is_dir(), 'create', case,
            prj.branches)
        (home / 'cli' / 'one' / 'sims' / 'here').mkdir()
        code, out, err = call('show', 'cli', '-a')
        ck.check(code == 0 and str(home / 'cli/one/sims/here') in out, 'show',
                 case, (out, err[-500:]))
        code, out, err = call('create', 'cli', '-b', 'three')
        ck.check(code != 0 and not (home / 'cli' / 'three').exists(),
                 'create', case, out)
        code, out, err = call('rename', 'cli', 'new')
        ck.check(code == 0 and (home / 'new/one/sims/here').is_dir()
                 and not (home / 'cli').exists(), 'rename', case, err[-500:])
        code, out, err = call('create', 'copy', '--copy', 'new')
        ck.check(code == 0 and set(project.Interface(home / 'copy').branches)
                 == {'one', 'two'}, 'copy', case, err[-500:])
        code, out, err = call('reset', 'new')
        ck.check(code == 0 and not (home / 'new/one/sims/here').exists()
                 and (home / 'new/one/sims').is_dir(), 'reset', case,
                 err[-500:])
        code, out, err = call('remove', 'new')
        ck.check(code == 0 and not (home / 'new').exists()
                 and (home / 'copy').is_dir(), 'remove', case, err[-500:])
        ck.saw('command line', case)


def workload(ck, folder):
    path = os.environ['PATH']
    for k in range(ck.scale(12, 200)):
        if not ck.budget(150, 700):
            break
        home = folder / f'h{k}'
        home.mkdir()
        os.environ['PATH'] = f'{home}/bin:/usr/bin:/bin'
        try:
            h = History(ck, home, k)
            for _ in range(ck.py.randint(15, 40)):
                h.operate()
            if k < ck.scale(2, 20):
                for _ in range(2):
                    h.script()
        finally:
            os.environ['PATH'] = path
        shutil.rmtree(home)
    for k in range(ck.scale(60, 2000)):
        if not ck.budget(180, 800):
            break
        logs(ck, folder, k)
    command_line(ck, folder)


def body(ck):
    folder = ck.scratch()
    here = os.getcwd()
    with unprivileged(folder) as alone:
        ck.saw('operated without privileges' if alone else 'operated guarded')
        with guarded(ck, folder):
            os.chdir(folder)
            saved = list(sys.path)
            try:
                workload(ck, folder)
            finally:
                sys.path[:] = saved
                os.chdir(here)
    for event, least in [
        ('story judged', 150), ('directory judged', 200),
        ('successful run', 30), ('failed run', 8), ('refused run', 3),
        ('logged run moved', 5), ('refused move', 3), ('run removed', 5),
        ('renamed', 3), ('run renamed with project', 3),
        ('update cut off', 3), ('reopened', 3), ('script', 2),
        ('log step', 100), ('command line', 1), ('not runs', 3),
    ]:
        ck.require(event, least)


if __name__ == '__main__':
    sys.exit(harness.main('C23', RULE, body))

"""Random small changes to the package, and which checks notice them.

usage: mutate.py map           measure which checks execute which lines
       mutate.py run SEED N [FILE...]   try N changes (in given files)

Works in scratch copies under $MUT (/tmp/mut).  A change that no check reports
is printed with its place; `odd` marks checks that end without an answer.
"""
import ast
import concurrent.futures
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import time

HERE = pathlib.Path(__file__).resolve().parent.parent
MUT = pathlib.Path(os.environ.get('MUT', '/tmp/mut'))
REPO = pathlib.Path('/repo')
JOBS = int(os.environ.get('MUT_JOBS', 8))
SRC = REPO / 'src' / 'eprempy'
BASE = MUT / 'base'
CHILD = (HERE / 'tools' / 'cover.py').read_text().split("CHILD = '''")[
    1].split("'''")[0]
CHECKS = sorted(p.stem for p in (HERE / 'checks').glob('C*.py'))


def measure(pid):
    out = MUT / f'cov-{pid}.json'
    env = dict(os.environ, PYTHONPATH=str(SRC.parent), PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', TZ='UTC',
               MPLCONFIGDIR='/opt/venv/mplconfig')
    start = time.time()
    subprocess.run(['/opt/venv/bin/python', '-c', CHILD, str(SRC), str(out),
                    f'checks.{pid}'], cwd=HERE, env=env, capture_output=True)
    return pid, time.time() - start, json.loads(out.read_text())


def lines():
    MUT.mkdir(exist_ok=True)
    cov, cost = {}, {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        for pid, wall, seen in pool.map(measure, CHECKS):
            cost[pid] = wall
            for f, n in seen:
                cov.setdefault(f'{pathlib.Path(f).relative_to(SRC)}:{n}',
                               []).append(pid)
    (MUT / 'map.json').write_text(json.dumps({'cov': cov, 'cost': cost}))
    print(len(cov), cost)


SMOKE = """
from eprempy import (aliased, atomic, cli, container, datafile, eprem, etc,
    metric, numeric, observable, parameter, paths, physical, project, quantity,
    real, symbolic, universal, measured)
metric.unit('km / s').norm['mks'] if hasattr(metric.Unit, 'norm') else 0
quantity.measure(1., 2., 'cm').withunit('m')
"""
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
         ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*', ast.BitOr: '&',
         ast.BitAnd: '|'}


class Finder(ast.NodeVisitor):
    """Collect (start, end, replacement) changes of a source text."""

    def __init__(self, text):
        self.text = text
        self.rows = [0]
        for row in text.splitlines(True):
            self.rows.append(self.rows[-1] + len(row))
        self.raw = text.splitlines(True)
        self.found = []
        self.inside = 0

    def at(self, line, col):
        row = self.raw[line - 1]
        return self.rows[line - 1] + len(row.encode()[:col].decode())

    def span(self, node):
        return (self.at(node.lineno, node.col_offset),
                self.at(node.end_lineno, node.end_col_offset))

    def src(self, node):
        a, b = self.span(node)
        return self.text[a:b]

    def add(self, node, new, kind):
        if self.inside:
            a, b = self.span(node)
            if self.text[a:b] != new:
                self.found.append((a, b, new, node.lineno, kind))

    def between(self, left, right, new, kind):
        if self.inside:
            a, b = self.span(left)[1], self.span(right)[0]
            gap = self.text[a:b]
            body = gap.strip(' ()\n')
            if body and gap.count(body) == 1 and '\n' not in body:
                i = gap.index(body)
                self.found.append((a + i, a + i + len(body), new,
                                   left.end_lineno, kind))

    def visit_FunctionDef(self, node):
        if node.name in ('__repr__', '__str__', 'display', 'show'):
            return
        self.inside += 1
        body = node.body
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for n in body:
            self.visit(n)
        self.inside -= 1

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Raise(self, node):
        if self.inside:
            self.add(node, 'pass', 'no raise')

    def visit_JoinedStr(self, node):
        pass

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.between(node.left, node.comparators[0],
                         SWAP[type(node.ops[0])], 'compare')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in ARITH:
            self.between(node.left, node.right, ARITH[type(node.op)], 'arith')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        new = 'or' if isinstance(node.op, ast.And) else 'and'
        self.between(node.values[0], node.values[1], new, 'bool')
        for v in node.values:
            self.add(node, self.src(v) if '\n' not in self.src(v)
                     else f'({self.src(v)})', 'one of bool')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.add(node, self.src(node.operand), 'unary')
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, 'True', 'if')
        self.add(node.test, 'False', 'if')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, f'({self.src(node.body)})', 'ifexp')
        self.add(node, f'({self.src(node.orelse)})', 'ifexp')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'constant')
        elif isinstance(v, int):
            self.add(node, str(v + 1), 'constant')
            if v:
                self.add(node, str(v - 1), 'constant')
        elif isinstance(v, float):
            self.add(node, repr(v * 2 + 1), 'constant')

    def visit_Call(self, node):
        args = node.args
        if len(args) >= 2 and not any(isinstance(a, ast.Starred)
                                      for a in args):
            (a, b), (c, d) = self.span(args[0]), self.span(args[1])
            if self.inside:
                self.found.append((
                    a, d, self.text[c:d] + self.text[b:c] + self.text[a:b],
                    node.lineno, 'swap arguments'))
        for k in node.keywords:
            if k.arg and self.inside:
                a, b = self.span(k)
                rest = self.text[b:].lstrip()
                if rest.startswith(','):
                    b = self.text.index(',', b) + 1
                    self.found.append((a, b, '', k.lineno, 'drop keyword'))
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, (ast.Call, ast.YieldFrom)):
            self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None:
            if not (isinstance(node.value, ast.Constant)):
                self.add(node.value, 'None', 'return')
        self.generic_visit(node)

    def visit_Assign(self, node):
        t = node.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, 'pass', 'drop statement')

    def visit_Continue(self, node):
        self.add(node, 'pass', 'drop statement')

    def visit_Slice(self, node):
        for part in (node.lower, node.upper, node.step):
            if part is not None:
                self.add(part, '', 'slice')
        self.generic_visit(node)


def changes(name):
    text = (BASE / 'src/eprempy' / name).read_text()
    finder = Finder(text)
    finder.visit(ast.parse(text))
    out = []
    for a, b, new, line, kind in finder.found:
        changed = text[:a] + new + text[b:]
        try:
            ast.parse(changed)
        except SyntaxError:
            continue
        out.append((name, a, b, new, line, kind))
    return out


def run_check(pid, repo, limit):
    env = dict(os.environ, VERIF_REPO=str(repo))
    p = subprocess.Popen([str(HERE / 'run'), pid], env=env, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ''
    return p.returncode, out


def attempt(job):
    (name, a, b, new, line, kind), pids, cost, slot = job
    repo = MUT / f'w{slot}' / 'repo'
    path = repo / 'src' / 'eprempy' / name
    text = (BASE / 'src/eprempy' / name).read_text()
    path.write_text(text[:a] + new + text[b:])
    odd = []
    try:
        env = dict(os.environ, PYTHONPATH=str(repo / 'src'),
                   PYTHONDONTWRITEBYTECODE='1')
        if subprocess.run(['/opt/venv/bin/python', '-c', SMOKE], env=env,
                          capture_output=True).returncode:
            return 'trivial', None, odd
        for pid in sorted(pids, key=cost.get):
            rc, out = run_check(pid, repo, 5 * cost[pid] + 60)
            if rc == 1 and f'VIOLATION property={pid}' in out:
                return 'caught', pid, odd
            if rc != 0:
                odd.append((pid, rc, out[-200:]))
        return 'MISSED', None, odd
    finally:
        path.write_text(text)


def tests(slot, change):
    sys.path.insert(0, str(HERE / 'tools'))
    import plant
    name, a, b, new, *_ = change
    repo, work = MUT / f'w{slot}' / 'repo', MUT / f'w{slot}' / 'work'
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir()
    path = repo / 'src' / 'eprempy' / name
    text = (BASE / 'src/eprempy' / name).read_text()
    path.write_text(text[:a] + new + text[b:])
    try:
        return plant.tests(repo, work)
    finally:
        path.write_text(text)


def show(change):
    name, a, b, new, line, kind = change
    text = (BASE / 'src/eprempy' / name).read_text()
    first, last = text.rfind('\n', 0, a) + 1, text.find('\n', b)
    old = text[first:last]
    now = text[first:a] + new + text[b:last]
    return (f'{name}:{line} {kind}\n    - {old.strip()}\n    + {now.strip()}')


def run(seed, count, files):
    data = json.loads((MUT / 'map.json').read_text())
    cov, cost = data['cov'], data['cost']
    py = random.Random(seed)
    shutil.rmtree(BASE, ignore_errors=True)
    subprocess.run(['cp', '-a', str(REPO), str(BASE)], check=True)
    pool = []
    for path in sorted(SRC.rglob('*.py')):
        name = str(path.relative_to(SRC))
        if files and name not in files:
            continue
        if name in ('base/__init__.py', 'typehelp.py', '__main__.py'):
            continue
        pool += [c for c in changes(name) if f'{name}:{c[4]}' in cov]
    print(len(pool), 'possible changes', flush=True)
    py.shuffle(pool)
    free = list(range(JOBS))
    for slot in free:
        shutil.rmtree(MUT / f'w{slot}', ignore_errors=True)
        (MUT / f'w{slot}').mkdir(parents=True)
        os.chmod(MUT / f'w{slot}', 0o755)
        subprocess.run(['cp', '-a', str(BASE), str(MUT / f'w{slot}/repo')],
                       check=True)
    seen = {}

    def one(change):
        slot = free.pop()
        try:
            key = f'{change[0]}:{change[4]}'
            verdict, pid, odd = attempt((change, cov[key], cost, slot))
            bad = tests(slot, change) if verdict == 'MISSED' else []
        finally:
            free.append(slot)
        return change, verdict, pid, odd, bad

    with concurrent.futures.ThreadPoolExecutor(JOBS) as threads:
        jobs = [threads.submit(one, c) for c in pool[:count]]
        for done in concurrent.futures.as_completed(jobs):
            change, verdict, pid, odd, bad = done.result()
            key = verdict if not bad else 'tests only'
            if sum(seen.values()) % 25 == 24:
                print(seen, flush=True)
            seen[key] = seen.get(key, 0) + 1
            if verdict == 'MISSED' or odd:
                print(key, pid or '', [(o[0], o[1]) for o in odd],
                      show(change), flush=True)
                for o in odd[:1]:
                    print('      ', o[2].strip().splitlines()[-1:], flush=True)
    print('total', seen, flush=True)
    for slot in range(JOBS):
        shutil.rmtree(MUT / f'w{slot}', ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'map':
        lines()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])

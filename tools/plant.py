"""Make or confirm planted changes.

usage: plant.py new SPEC.py...   write seeded/<id>/ from spec files
       plant.py confirm [ID...]  confirm each change and run its check

A spec file defines BUGS, a list of dicts with (or itself defines) ID, PROPERTY, FILE, EDITS [(old, new)...] (or EDITS as a
dict of file to such lists), NEEDS, BREAKS and DEMO (Python source).
"""
import concurrent.futures
import difflib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / 'seeded'
REPO = pathlib.Path('/repo')
JOBS = int(os.environ.get('PLANT_JOBS', 3))
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def git(*args, **kw):
    return subprocess.run(['git', '-C', str(REPO), *args], text=True,
                          capture_output=True, **kw)


def new(path):
    spec = {}
    exec(pathlib.Path(path).read_text(), spec)
    for bug in spec.get('BUGS', [spec]):
        write(bug)


def write(spec):
    edits = spec['EDITS']
    if not isinstance(edits, dict):
        edits = {spec['FILE']: edits}
    diff = ''
    for name, pairs in sorted(edits.items()):
        path = f'src/eprempy/{name}'
        before = text = (REPO / path).read_text()
        for old, new in pairs:
            assert text.count(old) == 1, (spec['ID'], name, old,
                                          text.count(old))
            text = text.replace(old, new)
        diff += ''.join(difflib.unified_diff(
            before.splitlines(True), text.splitlines(True),
            f'a/{path}', f'b/{path}'))
    d = SEEDED / spec['ID']
    d.mkdir(parents=True, exist_ok=True)
    (d / 'patch.diff').write_text(diff)
    (d / 'demo.sh').write_text(DEMO)
    (d / 'demo.sh').chmod(0o755)
    (d / 'demo.py').write_text(spec['DEMO'].lstrip('\n'))
    (d / 'meta.json').write_text(json.dumps({
        'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
        'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
    print('wrote', d.name)


def own_lines(diff):
    """Changed lines that are not from the original commit."""
    base = git('rev-list', '--max-parents=0', 'HEAD').stdout.strip()
    out, name, line = [], None, 0
    for row in diff.splitlines():
        if row.startswith('--- '):
            name = row[6:]
        elif m := re.match(r'@@ -(\d+)', row):
            line = int(m.group(1))
        elif row.startswith('-'):
            who = git('blame', '-l', '-L', f'{line},{line}', 'HEAD', '--',
                      name).stdout.split()[0].lstrip('^')
            if not base.startswith(who[:30]):
                out.append((name, line))
            line += 1
        elif row.startswith(' '):
            line += 1
    return out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', TZ='UTC', LC_ALL='C.UTF-8',
           MPLCONFIGDIR='/opt/venv/mplconfig',
           PATH='/opt/venv/bin:' + os.environ['PATH'])


def demo(d, repo):
    r = subprocess.run(['bash', str(d / 'demo.sh')], cwd=repo,
                       capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr).strip()[-200:]


def tests(repo, work):
    """The stable tests that do not pass in a copy of the repository."""
    (work / 'reports').mkdir()
    (work / 'home/Downloads').mkdir(parents=True)
    (work / 'cli').mkdir()
    env = dict(ENV, HOME=str(work / 'home'), PYTHONPATH=str(repo / 'src'))
    env.pop('PYTEST_ADDOPTS', None)
    for target in sorted((repo / 'tests').iterdir()):
        name, cwd = target.name, repo / 'tests'
        if not (re.fullmatch(r'test_.*\.py', name) or target.is_dir()):
            continue
        if name in ('__pycache__', 'data'):
            continue
        if name == 'test_cli':
            cwd = work / 'cli'
            for f in target.glob('expected-*.txt'):
                shutil.copy(f, cwd)
        subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
             'no:cacheprovider', '-c', str(repo / 'pyproject.toml'),
             f'--rootdir={repo}', '--timeout=300',
             '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
             f'--junitxml={work}/reports/{name}.xml', str(target)],
            cwd=cwd, env=env, capture_output=True)
    out = work / 'out.json'
    subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', str(out),
                    f'junit:{work}/reports/*.xml'], capture_output=True)
    got = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    pick = lambda o: o.get('passed', o.get('pass', o.get('stable')))
    return [t for t in pick(base) if t not in set(pick(got))]


def confirm_one(d):
    """Confirm one change in a scratch copy of the repository."""
    pid = json.load(open(d / 'meta.json'))['property']
    patch = d / 'patch.diff'
    notes = []
    with tempfile.TemporaryDirectory(prefix='plant-') as tmp:
        os.chmod(tmp, 0o755)
        tmp = pathlib.Path(tmp)
        repo, work = tmp / 'repo', tmp / 'work'
        work.mkdir()
        subprocess.run(['cp', '-a', str(REPO), str(repo)], check=True)
        subprocess.run(['git', '-C', str(repo), 'checkout', '-q', '--', '.'])
        if own := own_lines(patch.read_text()):
            notes.append(f'changes own lines {own}')
        before = demo(d, repo)
        if before[0]:
            notes.append(f'demo fails unchanged: {before[1]}')
        r = subprocess.run(['git', '-C', str(repo), 'apply', str(patch)],
                           capture_output=True, text=True)
        if r.returncode:
            return f'{d.name} DOES NOT APPLY {r.stderr[:200]}'
        if not demo(d, repo)[0]:
            notes.append('demo passes with the change')
        if bad := tests(repo, work):
            notes.append(f'tests fail: {bad[:3]}')
        env = dict(os.environ, VERIF_REPO=str(repo))
        c = subprocess.run(['./run', pid], cwd=ROOT, capture_output=True,
                           text=True, env=env)
        line = f'VIOLATION property={pid}'
        caught = c.returncode == 1 and line in c.stdout
        why = next((l for l in c.stdout.splitlines() if line in l), '')
    return ' '.join([d.name, pid,
                     'CAUGHT' if caught else f'MISSED rc={c.returncode}',
                     '; '.join(notes) or 'ok', '|', why[-150:]])


def confirm(ids):
    picked = [d for d in sorted(SEEDED.iterdir())
              if not ids or any(re.fullmatch(i, d.name) for i in ids)]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        for text in pool.map(confirm_one, picked):
            print(text, flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for p in sys.argv[2:]:
            new(p)
    else:
        confirm(sys.argv[2:])

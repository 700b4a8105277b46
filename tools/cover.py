"""Report package lines that no check executes: cover.py [C01 C02 ...]

Runs each named check under sys.monitoring (each line reported once, then
switched off, so the overhead is small) and prints the lines left over.
"""
import ast
import json
import os
import pathlib
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path(os.environ.get('VERIF_REPO', '/repo')) / 'src' / 'eprempy'
CHILD = '''
import sys, json, runpy, atexit
seen = set()
root = sys.argv[1]; out = sys.argv[2]; mod = sys.argv[3]
m = sys.monitoring
m.use_tool_id(3, "cover")
def line(code, n):
    if code.co_filename.startswith(root):
        seen.add((code.co_filename, n))
    return m.DISABLE
m.register_callback(3, m.events.LINE, line)
m.set_events(3, m.events.LINE)
atexit.register(lambda: open(out, "w").write(json.dumps(sorted(seen))))
sys.argv = [mod]
runpy.run_module(mod, run_name="__main__")
'''


def executable(path):
    code = compile(path.read_text(), str(path), 'exec')
    lines, todo = {}, [(code, '')]
    while todo:
        c, name = todo.pop()
        for _, _, n in c.co_lines():
            if n and name:
                lines[n] = name
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                todo.append((k, f'{name}.{k.co_name}'.strip('.')))
    return lines


def main(ids):
    seen = set()
    jobs = []
    tmp = tempfile.mkdtemp()
    for i in ids:
        out = f'{tmp}/{i}.json'
        env = dict(os.environ, PYTHONPATH=str(SRC.parent),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        jobs.append((i, out, subprocess.Popen(
            ['/opt/venv/bin/python', '-c', CHILD, str(SRC), out,
             f'checks.{i}'], cwd=HERE, env=env, stdout=subprocess.DEVNULL)))
    for i, out, job in jobs:
        job.wait()
        try:
            seen |= {tuple(x) for x in json.load(open(out))}
        except OSError:
            print('no answer', i)
    total = missed = 0
    for path in sorted(SRC.rglob('*.py')):
        text = path.read_text().splitlines()
        lines = executable(path)
        skip = set()
        for node in ast.walk(ast.parse(path.read_text())):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                skip.add(node.lineno)
        left = [n for n in sorted(lines) if (str(path), n) not in seen
                and n not in skip]
        total += len(lines)
        missed += len(left)
        if left:
            print(f'== {path.relative_to(SRC)} {len(left)}/{len(lines)}')
            for n in left:
                print(f'{n:5} {lines[n][-40:]:40} {text[n-1].strip()[:70]}')
    print('total', total, 'missed', missed)


main(sys.argv[1:] or [p.stem for p in sorted((HERE / 'checks').glob('C*.py'))])

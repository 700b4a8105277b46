"""Rewrite the `fixed:` lines of known-findings.txt from /repo's history.

usage: python3 tools/fixed.py   (reads tools/fixed.map: <property> <subject>)
"""
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
log = subprocess.run(
    ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True,
    capture_output=True, check=True).stdout.splitlines()
where = {}
for line in (ROOT / 'tools' / 'fixed.map').read_text().splitlines():
    pid, subject = line.split(' ', 1)
    where[subject] = pid
path = ROOT / 'known-findings.txt'
keep = [i for i in path.read_text().splitlines()
        if i and not i.startswith('fixed:')]
new = []
for line in log:
    commit, subject = line.split(' ', 1)
    if subject.startswith('fix: '):
        what = subject[5:]
        if what not in where:
            print('unassigned:', what)
            continue
        new.append(f'fixed: property={where[what]} {commit} could not {what}')
path.write_text('\n'.join(keep + new) + '\n')
print(len(new), 'fixed')

"""Regenerate the tables at the end of DESIGN.md (planted changes, repairs)."""
import json
import pathlib
import re

HERE = pathlib.Path(__file__).resolve().parent.parent
MARK = '<!-- generated by tools/design.py -->'


def main():
    path = HERE / 'DESIGN.md'
    text = path.read_text().split(MARK)[0]
    out = [MARK, '', '### Planted changes', '',
           '| change | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted((HERE / 'seeded').iterdir()):
        meta = json.loads((d / 'meta.json').read_text())
        needs = re.sub(r'\s+', ' ', meta['needs']).replace('|', '/')
        out.append(f"| {d.name} | {meta['property']} | {needs} | "
                   f"{meta['property']} |")
    fixed = [line.split(' ', 3) for line in (
        HERE / 'known-findings.txt').read_text().splitlines()
        if line.startswith('fixed:')]
    out += ['', f'### Genuine defects repaired ({len(fixed)})', '']
    for _, prop, commit, what in fixed:
        out.append(f"- {prop.split('=')[1]} `{commit}` {what}")
    path.write_text(text + '\n'.join(out) + '\n')


if __name__ == '__main__':
    main()

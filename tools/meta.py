"""Write properties.jsonl and MANIFEST.json from one table.

usage: python3 tools/meta.py
"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = 'src/eprempy/'


def at(name):
    """Scripts lie beside the package."""
    return name if name.startswith('scripts/') else P + name


#: id -> dict(title, statement, over, text, why, files, mech[(name, where)],
#:            observe, technique, note)
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, observe,
         technique, note):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why,
        files=files, mech=mech, observe=observe, technique=technique,
        note=note)


exec((ROOT / 'tools' / 'table.py').read_text())

lines = []
checks = []
for pid, p in sorted(PROPS.items()):
    lines.append(json.dumps({
        'id': pid,
        'title': p['title'],
        'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': [at(f) for f in p['files']],
            'mechanism': [
                {'name': n, 'where': at(w)} for n, w in p['mech']],
            'observe_at': p['observe'],
            'hook_needed': 'none: the public interface is observable',
        },
    }, ensure_ascii=False))
    checks.append({
        'property': pid,
        'quick_cmd': f'./run {pid}',
        'thorough_cmd': f'VERIF_TIER=thorough ./run {pid}',
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    })
(ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
(ROOT / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': [],
    'notes': 'Each check imports the package from /repo/src (nothing is '
             'built), drives it with generated workloads, and judges every '
             'observation with an independent oracle.',
}, indent=1) + '\n')
print(len(lines), 'properties')

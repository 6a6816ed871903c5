"""write MANIFEST.json for the properties that have a suite"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from suites import SUITES, TRACE, MODELS, GENERATE  # noqa: E402

NOTES = {}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid not in SUITES:
        continue
    note = 'Every event recorded from the real code is checked by TLC against spec/%s.tla' % TRACE.get(pid, '-')
    if MODELS.get(pid):
        note += '; laws of the specification model-checked: ' + ', '.join(c[:-4] for _, c, _ in MODELS[pid])
    if GENERATE.get(pid):
        note += '; state graph generated by TLC and replayed into the real code: ' + ', '.join(c[:-4] for _, c, _ in GENERATE[pid])
    note += '. Exhaustive for small sizes, seeded sampling for large ones (bounds in DESIGN.md).'
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 run.py {pid} quick',
        'thorough_cmd': f'python3 run.py {pid} thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'TLA+ specification, TLC; trace validation of and behaviour replay into the implementation',
        'level': 'model_checking',
        'level_note': note,
    })
have = {c['property'] for c in checks}
missing = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
manifest = {
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {'guard': '', 'enable': '', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in missing if p not in have],
    'notes': 'Checks only import the packages under /repo; no instrumentation is needed.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')

"""writes MANIFEST.json from properties.jsonl and the drivers present (run by hand, not by checks)"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'model_checking': 'TLA+ state machine: TLC judges recorded histories of the real code, following Wiz.tla, against the reference semantics',
        'exploration': 'TLA+ reference semantics (Kernels.tla/KernelSpec.tla) evaluated by TLC on traces recorded from the real code'}
EXTRA = {}
exec(open(os.path.join(ROOT, 'harness', 'manifest_notes.py')).read()) if os.path.exists(os.path.join(ROOT, 'harness', 'manifest_notes.py')) else None
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(l)
    pid = d['id']
    f = os.path.join(ROOT, 'harness', 'props', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=pid, reason='not built yet'))
        continue
    src = open(f).read()
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    rule = re.search(r"^RULE = '(.*)'$", src, re.M)
    checks.append(dict(property=pid, technique=TECH[level] + EXTRA.get(pid, ''), level=level,
                       level_note=(rule.group(1) if rule else d['title']) + '; thorough: more seeds, histories and parameter sets of the same families',
                       quick_cmd='VERIF_TIER=quick bin/check ' + pid, thorough_cmd='VERIF_TIER=thorough bin/check ' + pid, evidence_file='evidence/%s.json' % pid))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

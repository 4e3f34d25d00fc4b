"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.json."""
import glob
import json
import os
import sys

import jsonschema

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for path in sorted(glob.glob(os.path.join(HERE, 'tools', 'props', '*.json'))):
    with open(path) as f:
        props.append(json.load(f))
na = []
checks = []
lines = []
for p in props:
    man = p.pop('manifest')
    if 'not_applicable' in man:
        na.append({'property': p['id'], 'reason': man['not_applicable']})
    else:
        pid = p['id']
        checks.append({'property': pid, 'quick_cmd': 'bash run.sh %s --tier quick' % pid,
                       'thorough_cmd': 'bash run.sh %s --tier thorough' % pid,
                       'technique': man['technique'], 'level': man.get('level', 'exploration'),
                       'level_note': man['level_note']})
    lines.append(p)
with open('/root/.vp/PROPERTIES.schema.json') as f:
    ps = json.load(f)
with open('/root/.vp/MANIFEST.schema.json') as f:
    ms = json.load(f)
for p in lines:
    jsonschema.validate(p, ps)
    for fn in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', fn)), fn
manifest = {'version': 1, 'setup_cmd': 'bash setup.sh',
            'hooks': {'guard': 'SVGPY_VERIF', 'source_commits': [],
                      'enable': 'no hooks are compiled into /repo: the monitors attach from outside '
                                '(public API, sys.monitoring, valgrind); the variable is reserved and unused'},
            'checks': checks, 'not_applicable': na}
jsonschema.validate(manifest, ms)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in lines:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(lines), 'properties', len(checks), 'checks')
import subprocess
subprocess.check_call([sys.executable, os.path.join(HERE, 'tools', 'design.py')])

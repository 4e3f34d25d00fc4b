"""python3 tools/addprop.py < block : writes tools/props/<ID>.json from 'Key: value' paragraphs."""
import json, re, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
for block in re.split(r'^====\s*$', sys.stdin.read(), flags=re.M):
    if not block.strip():
        continue
    d = {}
    key = None
    for line in block.strip().splitlines():
        mt = re.match(r'(ID|Title|Statement|Over|For|Why|Files|Mech|Observe|Tech|Note):\s*(.*)', line)
        if mt:
            key = mt.group(1)
            if key == 'Mech':
                d.setdefault('Mech', []).append(mt.group(2))
            else:
                d[key] = mt.group(2)
        elif key == 'Mech':
            d['Mech'][-1] += ' ' + line.strip()
        else:
            d[key] += ' ' + line.strip()
    mech = []
    for x in d['Mech']:
        n, w = x.split(' @ ')
        mech.append({'name': n.strip(), 'where': w.strip()})
    p = {'id': d['ID'], 'title': d['Title'], 'statement': d['Statement'],
         'quantifier': {'over': d['Over'].split(', '), 'text': d['For']}, 'why_tests_cant': d['Why'],
         'anchors': {'files': d['Files'].split(), 'mechanism': mech,
                     'observe_at': [x.strip() for x in d.get('Observe', 'return values').split(';')], 'hook_needed': None},
         'manifest': {'technique': d['Tech'], 'level_note': d['Note']}}
    with open(os.path.join(HERE, 'props', d['ID'] + '.json'), 'w') as f:
        json.dump(p, f, indent=1)
        f.write('\n')

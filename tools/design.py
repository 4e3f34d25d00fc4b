"""Generates DESIGN.md from tools/design_head.md, tools/props, the Spec() calls of the checks, known_findings.json,
tools/design_tail.md and tools/caught.json."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(HERE, 'tools/design_head.md')).read()]
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
caught = {}
p = os.path.join(HERE, 'tools/caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
specs = {}
for fn in glob.glob(os.path.join(HERE, 'checks', '*.py')):
    for node in ast.walk(ast.parse(open(fn).read())):
        if isinstance(node, ast.Call) and getattr(node.func, 'attr', '') == 'Spec':
            kw = {}
            for k in node.keywords:
                try:
                    kw[k.arg] = ast.literal_eval(k.value)
                except ValueError:
                    pass
            specs[ast.literal_eval(node.args[0])] = (os.path.basename(fn), kw, ast.get_docstring(ast.parse(open(fn).read())))
out.append('\n## Properties\n')
for fn in sorted(glob.glob(os.path.join(HERE, 'tools/props/*.json'))):
    d = json.load(open(fn))
    pid, man = d['id'], d['manifest']
    out.append('\n### %s %s\n\n' % (pid, d['title']))
    if 'not_applicable' in man:
        out.append('Not applicable: %s\n' % man['not_applicable'])
        continue
    file, kw, doc = specs[pid]
    rows = [('Specified', d['statement']),
            ('Decided by', man['technique'] + ' (`checks/%s`)' % file),
            ('Workload', '%s; %s cases quick, %s thorough' % (kw.get('rule', ''), kw.get('quick'), kw.get('thorough'))),
            ('Monitors that must have observed something', ', '.join(kw.get('required', []))),
            ('Observed at', '; '.join(d['anchors']['observe_at'])),
            ('Why tests do not settle it', d['why_tests_cant']),
            ('Bounds', man['level_note'] + (' Assumed: ' + '; '.join(kw['assumptions']) + '.' if kw.get('assumptions') else ''))]
    for a, b in rows:
        out.append('* **%s:** %s\n' % (a, b))
    for e in kf:
        if e['property'] == pid:
            out.append('* **%s:** %s\n' % ('Known finding' if e['status'] == 'open' else 'Repaired',
                                         e['what'] if e['status'] == 'open' else e['what'].replace('fixed: property=%s ' % pid, '')))
    for k in sorted(caught):
        if caught[k]['property'] == pid:
            out.append('* **Planted `%s`:** %s (%s)\n' % (k, caught[k]['verdict'], caught[k]['needs']))
out.append('\n')
out.append(open(os.path.join(HERE, 'tools/design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))

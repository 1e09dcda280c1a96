#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from props.py"""
import os, sys, json
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/engine'); sys.path.insert(0, V)
import props
TECH = 'symbolic execution of the real code (instrumented LLVM IR of /repo sources), every assertion and branch decided by an SMT solver (Z3) within stated bounds; counterexamples replayed on a plain g++ build'
with open(V + '/properties.jsonl', 'w') as f:
    ids = sorted(set(props.PROPS) | set(props.NA)) if hasattr(props, 'NA') else sorted(props.PROPS)
    for i in ids:
        p = props.PROPS.get(i) or props.NA[i]
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=p['quantifier'], why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
checks = []
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s quick' % i, thorough_cmd='python3-vt /verif/check.py %s thorough' % i, evidence_file='/verif/evidence/%s.json' % i, technique=TECH, level='other', level_note='bounded: %s; %s' % (p['quantifier']['text'], p['explanation'])))
m = dict(version=1, setup_cmd='python3-vt /verif/setup.py', checks=checks, not_applicable=[dict(property=i, reason=p['reason']) for i, p in sorted(getattr(props, 'NA', {}).items())], notes='No hooks in /repo: instrumentation happens in a compiler pass. See DESIGN.md.')
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
L = []
for i in ids:
    p = props.PROPS.get(i) or props.NA[i]
    L.append('### %s %s\n%s\n' % (i, p['title'], p['statement']))
    if i in props.PROPS:
        q, t = p['jobs']('quick'), p['jobs']('thorough')
        L.append('* Decided by: %s.' % p['explanation'])
        L.append('* Bounds: %s.' % p['quantifier']['text'])
        L.append('* Beyond tests: %s' % p['why'])
        L.append('* Cost: quick %d symbolic jobs, thorough %d; harnesses %s.\n' % (len(q), len(t), ', '.join(sorted({os.path.basename(j.harness) for j in q + t}))))
    else: L.append('* Not applicable: %s\n' % p['reason'])
a, b = '<!-- generated by gen.py from props.py -->', '<!-- end generated -->'
d = open(V + '/DESIGN.md').read()
d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(L) + d[d.index(b):]
open(V + '/DESIGN.md', 'w').write(d)
print(len(checks), 'checks')

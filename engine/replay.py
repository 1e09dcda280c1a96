"""Replays a recorded counterexample on the plain builds of the real code."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, explore, props
r = json.load(open(sys.argv[1]))
for tier in ('quick', 'thorough'):
    for j in props.PROPS[r['property']]['jobs'](tier):
        if j.name == r['job']:
            ev = explore.confirm(j, r['label'], {k: int(v, 16) for k, v in r['input'].items()}, r['how'], {}, build.executable(j.harness, 'sym', opencl=j.opencl, sources=j.sources, extra=j.extra, wraps=j.wraps, ui=j.ui) if r['how'] == 'race' else None)
            print(('reproduced: ' + ev) if ev else 'not reproduced'); sys.exit(1 if ev else 0)

#!/usr/bin/env python3-vt
"""check.py PROPERTY TIER: decide one property by symbolic execution of the code under /repo and SMT solving."""
import os, sys, time, json, shutil, multiprocessing.connection, atexit, tempfile, signal, fnmatch
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V)

STOP = [None]
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tmp = tempfile.mkdtemp(prefix='vsym')
    os.environ['SYM_TMP'] = tmp; tempfile.tempdir = tmp
    atexit.register(shutil.rmtree, tmp, True)
    
    import build, explore, props
    t0 = time.time()
    P = props.PROPS[prop]
    jobs = P['jobs'](tier)
    budget = P.get('budget', {}).get(tier, 720 if tier == 'quick' else 10000)
    only = os.environ.get('SYM_ONLY')
    ev = dict(property=prop, tier=tier, seed=seed, level='other', assumptions=list(props.COMMON_ASSUMPTIONS) + list(P.get('assumptions', [])), violations=0, wall_s=0)
    cov = dict(explanation=P['explanation'], technique='symbolic execution of the instrumented code (LLVM IR of /repo sources), path conditions and assertions decided by Z3', jobs=[], bounds=P.get('bounds', ''))
    tot = dict(paths=0, queries=0, solver_s=0.0, asserts=0, unsat=0, sat=0, unknown=0, undecided=0, exhaustive_jobs=0, unconfirmed=0)
    fns = set(); viol = []; missing = []; fail = []
    known = load_known()
    jobs = [j for j in jobs if not only or fnmatch.fnmatch(j.name, only)]
    ok = {}
    for j in jobs:
        k = (j.harness, j.opencl, tuple(j.sources or ()), tuple(j.extra), tuple(j.wraps))
        if k not in ok:
            try: build.executable(j.harness, 'sym', opencl=j.opencl, sources=j.sources, extra=j.extra, wraps=j.wraps, ui=j.ui); ok[k] = None
            except build.BuildError as e: ok[k] = str(e); print('BUILD', j.name, str(e)[-1500:])
        if ok[k]: fail.append('%s: build failed: %s' % (j.name, ok[k][-800:]))
        j.buildok = not ok[k]
    for j, o in parallel([j for j in jobs if j.buildok], t0 + budget):
        if o is None: cov['jobs'].append(dict(name=j.name, skipped='time budget')); print('%s: skipped, time budget' % j.name); continue
        if isinstance(o, str): fail.append('%s: %s' % (j.name, o[:800])); print(j.name, o[-1500:]); continue
        print('%s: %d paths%s, %d assertions, %d queries (%.1f s solver), %d undecided, %.1f s' % (j.name, o.paths, '' if o.exhaustive else ' (bounded)', o.asserts, o.queries, o.solver_s, sum(o.undecided.values()), o.wall), flush=True)
        for e in o.errors[:2]: print('   error:', e[:1500])
        if o.unconfirmed and os.environ.get('SYM_VERBOSE'):
            for u in o.unconfirmed[:5]: print('   unconfirmed:', u)
        tot['paths'] += o.paths; tot['queries'] += o.queries; tot['solver_s'] += o.solver_s; tot['asserts'] += o.asserts; tot['unsat'] += o.unsat; tot['sat'] += o.sat; tot['unknown'] += o.unknown
        tot['undecided'] += sum(o.undecided.values()); tot['exhaustive_jobs'] += bool(o.exhaustive); tot['unconfirmed'] += len(o.unconfirmed)
        fns |= o.fns
        miss = [l for l in j.expect if l not in o.reached and l not in o.labels]
        if miss: missing.append((j.name, miss)); print('   not reached:', miss)
        cov['jobs'].append(dict(name=j.name, mode=j.mode, params=j.params, bounds=j.bounds, paths=o.paths, exhaustive=o.exhaustive, pending_paths=o.pending, longest_path_condition=o.maxlen, assertions=o.asserts,
            discharged_by_normal_form_and_linear_query=o.structural, queries=o.queries, unsat=o.unsat, sat=o.sat, unknown=o.unknown, solver_s=round(o.solver_s, 3), wall_s=round(o.wall, 2), labels=o.labels,
            undecided=o.undecided, branch_sides_unknown=o.flips_unknown, replays_not_confirmed=len(o.unconfirmed), native_calls_seeing_symbolic_values=sorted(o.leaks)[:40], limits=o.limits, diverged=o.diverged,
            unsupported=o.unsupported, races=sorted(o.races)[:10], errors=len(o.errors), samples=o.samples, not_reached=miss))
        for v in o.violations:
            k = next((k for k in known if k['property'] == prop and fnmatch.fnmatch(j.name, k['job']) and fnmatch.fnmatch(v['label'], k['label'])), None)
            if k:
                if not k.get('printed'): print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); k['printed'] = True
                continue
            viol.append((j, v)); STOP[0] = min(STOP[0] or 1e18, time.time() + 60)
        if o.errors and not o.paths: fail.append('%s: %s' % (j.name, o.errors[0][:400]))
    rep = []
    for n, (j, v) in enumerate(viol[:8]):
        d = '%s/build/replay/%s-%d' % (V, prop, n)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        with open(d + '/input', 'w') as f: f.write(explore.hexin(v['input']))
        with open(d + '/replay.json', 'w') as f: json.dump(dict(property=prop, job=j.name, harness=j.harness, params=j.params, label=v['label'], how=v['how'], evidence=v['evidence'], input={k: '%x' % x for k, x in v['input'].items()}), f, indent=1)
        with open(d + '/run.sh', 'w') as f: f.write('#!/bin/sh\n# replays the counterexample on the real code\nexec python3-vt %s/engine/replay.py "$(dirname "$0")/replay.json"\n' % V)
        os.chmod(d + '/run.sh', 0o755)
        print('VIOLATION property=%s replay=%s' % (prop, d))
        print('   %s: %s -- %s' % (j.name, v['label'], v['evidence']))
        rep.append(dict(job=j.name, label=v['label'], evidence=v['evidence']))
    cov.update(tot); cov['solver_s'] = round(tot['solver_s'], 3); cov['functions_encoded'] = sorted(f for f in demangle(fns) if 'nbody' in f or 'summation' in f or 'vertex' in f or 'tree' in f)[:400]
    cov['n_functions_encoded'] = len(fns); cov['known_findings_seen'] = [k['what'] for k in known if k.get('printed')]
    if missing: cov['expected_but_not_reached'] = missing
    if fail: cov['failed'] = fail
    if rep: cov['violations'] = rep
    ev['coverage'] = cov; ev['violations'] = len(viol); ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: %s in %.0f s' % (prop, tier, 'VIOLATED' if viol else 'held', time.time() - t0))
    if viol: return 1
    if fail: print('\n'.join(fail)); return 2
    return 0

def parallel(jobs, deadline):
    """explore several jobs at once, each in a process of its own; yields (job, outcome) in order of completion"""
    import multiprocessing as mp, explore, traceback
    ctx = mp.get_context('fork'); cpus = os.cpu_count() or 4
    slots = max(1, cpus//2) if len(jobs) > 1 else 1
    workers = cpus if slots == 1 else max(2, cpus//slots)
    verbose = os.environ.get('SYM_VERBOSE')
    def child(j, c):
        os.setpgid(0, 0)
        try: r = explore.explore(j, log=lambda *a: print('  ', j.name, *a, flush=True) if verbose else None, workers=workers, deadline=deadline)
        except BaseException as e: r = '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:])
        c.send(r); c.close()
    queue = list(jobs); run = []
    while queue or run:
        while queue and len(run) < slots:
            j = queue.pop(0)
            if time.time() > min(deadline, STOP[0] or deadline): yield j, None; continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b)); p.start(); b.close(); run.append((j, p, a))
        if STOP[0] and time.time() > STOP[0] + 20:
            # a violation is established: the rest does not matter any more
            for j, p, a in run:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                p.join(); yield j, None
            run = []; continue
        done = mp.connection.wait([a for _, _, a in run], timeout=1)
        for x in list(run):
            j, p, a = x
            if a in done:
                try: r = a.recv()
                except EOFError: r = 'worker died'
                p.join(); run.remove(x); yield j, r

def demangle(fns):
    import subprocess
    try: return set(subprocess.run(['c++filt'], input='\n'.join(sorted(fns)), text=True, stdout=subprocess.PIPE).stdout.split('\n'))
    except Exception: return fns

def load_known():
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            out.append(json.loads(l))
    return out

if __name__ == '__main__': sys.exit(main())

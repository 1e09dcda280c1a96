"""Which harnesses, bounds and configurations decide which property; and the text of the properties."""
import os
from explore import Job
H = os.path.dirname(os.path.abspath(__file__)) + '/harness/'
COMMON_ASSUMPTIONS = [
    'real mode: values are compared over the real numbers (rounding, NaN and overflow are outside; coefficients are compared up to 1e-12 relative); fp mode: bit-precise IEEE-754/bit-vector semantics',
    'clang -O2 code generation of the current sources (no vectorisation, no FP contraction) stands for the project build; counterexamples are replayed on a plain g++ build before they are reported',
    'Qt library code runs natively; values handed to it are listed as native_calls_seeing_symbolic_values and are concrete on each path unless a model exists',
]
PROPS = {}
def prop(id, **kw):
    def d(f): PROPS[id] = dict(jobs=f, **kw); return f
    return d
def J(h, name, mode='real', expect=(), bounds='', **kw):
    jk = {k[1:]: kw.pop(k) for k in list(kw) if k.startswith('_')}
    return Job(H + h, mode=mode, params=kw, name=name, expect=list(expect), bounds=bounds, **jk)
def quick(t): return t == 'quick'

SCHED = {'over': ['inputs', 'configurations'], 'text': ''}

@prop('P01', title='Direct engines compute softened Newtonian gravity',
  statement='For every configuration of positive-mass bodies, the derivative computed by each directly summing engine is, for every body, its velocity and the sum over all other bodies of the gravitational acceleration with the distance floored at the softening length. The input state and masses are not modified, and the result does not depend on the number of threads or on whether the body count is a multiple of an internal block size.',
  quantifier=dict(over=['inputs', 'configurations'], text='all positions, velocities (up to 100 in modulus) and masses (0..1000) of up to 16 fully symbolic bodies (block engine: up to 128 bodies), including coincident and nearly coincident bodies; 1 to 4 threads'),
  why='The tests compare engines on a handful of generated galaxies with a tolerance, at body counts that are multiples of 64; they never cover softening boundaries, odd counts or every pair term.',
  files=['nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp', 'nbody/nbody_engine_block.cpp', 'nbody/nbody_engine_ah.cpp', 'nbody/nbody_data.cpp'],
  mech=[('pairwise force', 'nbody/nbody_data.cpp'), ('fcompute', 'nbody/nbody_engine_*.cpp')], observe=['fcompute result buffer'],
  explanation='fcompute of every directly summing CPU engine is executed on symbolic positions, velocities and masses; each derivative component is compared with the softened gravitation sum')
def p01(tier):
    js = []
    for eng, name in ((0, 'simple'), (1, 'openmp'), (2, 'block'), (3, 'ah')):
        for ax in (1, 2, 3): js.append(J('h_force.cpp', 'contact-%s-%d' % (name, ax), engine=eng, n=1 + ax, nsym=0, threads=3, line=ax, expect=['force evaluated'], bounds='%d bodies on an axis, one moving through the others' % (1 + ax)))
    for eng, name in ((0, 'simple'), (1, 'openmp'), (3, 'ah')):
        for n in ((1, 2, 3, 5) if quick(tier) else (1, 2, 3, 5, 8, 16)):
            for th in (((1, 4) if eng else (1,)) if n in (3, 5) else (4,)):
                js.append(J('h_force.cpp', 'force-%s-n%d-t%d' % (name, n, th), engine=eng, n=n, nsym=n, threads=th, expect=['force evaluated'], bounds='%d bodies, all coordinates/velocities in [-100,100], masses in [0,1000] symbolic, %d threads' % (n, th)))
    for n, ns in ((1, 1), (2, 2), (3, 3), (63, 63), (64, 64), (65, 3), (128, 5)) + (() if quick(tier) else ((127, 127), (128, 128), (200, 8))):
        js.append(J('h_force.cpp', 'force-block-n%d' % n, engine=2, n=n, nsym=ns, threads=4, expect=['force evaluated'], bounds='%d bodies, %d symbolic' % (n, ns)))
    return js

@prop('P02', title='Engine state plumbing is lossless',
  statement='Whatever positions, velocities, masses, time and step number a data set carries, an engine initialised from it exposes exactly those bits, hands back exactly the bits of its current state, and shares one clock with the data set. Advancing time by dt adds dt once and counts exactly one step.',
  quantifier=dict(over=['inputs', 'configurations'], text='all bit patterns (including infinities, NaN, signed zeros) of state, mass, time and all 64-bit step numbers, for 1..4 bodies and the simple, openmp, block, ah and Barnes-Hut engines'),
  why='Tests round-trip a few finite doubles for one body count per engine; a swapped or dropped component, or a conversion that loses low bits, only shows on other values.',
  files=['nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine.cpp', 'nbody/nbody_engine_block.cpp', 'nbody/nbody_data.cpp'], mech=[('init/get_data', 'nbody/nbody_engine_simple.cpp'), ('advise_time', 'nbody/nbody_data.cpp')], observe=['init', 'get_data', 'advise_time'],
  explanation='init, get_data, set_time/set_step/advise_time executed on arbitrary bit patterns; equality of bit-vectors decided by the solver')
def p02(tier):
    js = []
    for eng, name in ((0, 'simple'), (1, 'openmp'), (2, 'block'), (3, 'ah'), (4, 'simple_bh')):
        for n in ((1, 2) if quick(tier) else (1, 2, 3, 4)):
            js.append(J('h_bits.cpp', 'state-%s-n%d' % (name, n), 'fp', engine=eng, n=n, what=0, threads=2, expect=['done'], bounds='%d bodies, every field an arbitrary bit pattern' % n))
    return js

@prop('P03', title='Engine buffer algebra is exact and elementwise',
  statement='For every buffer content and every coefficient (zero included), copy, fill, write/read, scaled addition, linear combination, compensated accumulation and maximum norm produce elementwise the mathematically defined result in the destination only. Results do not depend on aliasing of destination and first operand, on stale destination content or on the number of threads.',
  quantifier=dict(over=['inputs', 'configurations'], text='all buffer contents in [-100,100] (transfers: all bit patterns), all coefficients in [-10,10] incl. zero, 0..3 summands, 1..4 threads, engines simple/openmp/block/ah'),
  why='Tests use fixed ramps with non-zero coefficients; stale destinations, zero coefficients and every index/coefficient pairing are not sampled.',
  files=['nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp', 'nbody/nbody_engine.cpp'], mech=[('fmadd*, fmaxabs, copy/fill', 'nbody/nbody_engine_simple.cpp, nbody/nbody_engine_openmp.cpp')], observe=['buffer contents'],
  explanation='every buffer primitive executed on symbolic contents and coefficients; linear combinations decided over the reals, transfers/maximum norm/compensated summation bit-precisely')
def p03(tier):
    js = []
    for eng, name in ((0, 'simple'), (1, 'openmp')) + (() if quick(tier) else ((2, 'block'), (3, 'ah'))):
        for k in (1, 2, 3):
            js.append(J('h_buf.cpp', 'algebra-%s-k%d' % (name, k), engine=eng, n=1 if quick(tier) else 2, k=k, threads=4, expect=['elementary operations', 'linear combinations'], bounds='problem size 6/12, %d summands, all contents and coefficients symbolic' % k))
        js.append(J('h_bits.cpp', 'transfer-%s' % name, 'fp', engine=eng, n=2, what=1, threads=4, expect=['done'], bounds='12 elements, all bit patterns'))
        for th in (1, 3):
            js.append(J('h_bits.cpp', 'maxnorm-%s-t%d' % (name, th), 'fp', engine=eng, n=1, what=2, live=3 if quick(tier) else 6, threads=th, expect=['done'], bounds='6 elements, 3 or 6 symbolic in [-1000,1000]', _seconds=200 if quick(tier) else 1200))
        for at in (0, 5):
            js.append(J('h_bits.cpp', 'kahan-%s-%d' % (name, at), 'fp', engine=eng, n=1, what=3, at=at, threads=4, expect=['done'], bounds='two compensated accumulations of two terms, one element symbolic'))
    return js

@prop('P08', title='Fixed-step methods apply their defining formula',
  statement='For every right-hand side, state, start time and step size, one step of the Euler, midpoint, Stetter midpoint, classical Runge-Kutta and trapeze methods yields exactly the state their defining formula prescribes, with every derivative evaluated at the time the formula prescribes. The clock advances by exactly the step and the step counter by one, and consecutive steps compose.',
  quantifier=dict(over=['inputs', 'programs', 'histories'], text='arbitrary right-hand side (uninterpreted function of time and whole state), arbitrary initial state, time and per-step step sizes; up to 4 consecutive steps'),
  why='Tests integrate two-body orbits and check drift below a tolerance; an autonomous force hides wrong evaluation times and small coefficient errors.',
  files=['nbody/nbody_solver_euler.cpp', 'nbody/nbody_solver_midpoint.cpp', 'nbody/nbody_solver_midpoint_stetter.cpp', 'nbody/nbody_solver_rk4.cpp', 'nbody/nbody_solver_trapeze.cpp'], mech=[('advise', 'nbody/nbody_solver_*.cpp')], observe=['state buffer, time and step after advise'],
  explanation='advise() of each method executed over an engine whose force is an uninterpreted function; the resulting state is compared with the method\'s formula over the same function')
def p08(tier):
    js = []
    st = 2 if quick(tier) else 4
    for k, name in enumerate(('euler', 'midpoint', 'midpoint-st', 'rk4')):
        for vary in (0, 1):
            js.append(J('h_step.cpp', '%s-vary%d' % (name, vary), kind=k, steps=st + (k == 2), live=2, vary=vary, expect=['steps done'], bounds='%d steps, 2 live components' % (st + (k == 2))))
    for rf in (0, 1, 2, 3):
        js.append(J('h_step.cpp', 'trapeze-refine%d' % rf, kind=4, steps=2, live=2, refine=rf, vary=1, expect=['steps done'], bounds='2 steps, %d refinements' % rf))
    return js

RKN = ['rkck', 'rkdp', 'rkdverk', 'rkf', 'rkfeagin10', 'rkfeagin12', 'rkfeagin14', 'rkgl', 'rklc']
@prop('P09', title='Runge-Kutta solvers execute their Butcher tables',
  statement='For every right-hand side, state, start time and step size, a Runge-Kutta step evaluates each stage at the time and state given by the method\'s coefficient table and combines the stages with the table\'s weights. Implicit methods perform exactly the configured number of fixed-point refinements, warm-started from the previous step. With or without compensated summation the result is the same over the reals.',
  quantifier=dict(over=['inputs', 'programs', 'histories', 'configurations'], text='arbitrary right-hand side (uninterpreted), arbitrary state, time and step sizes; 9 methods, up to 3 consecutive steps, correction on and off'),
  why='Tests check orbit drift against loose tolerances; stage times never matter there because gravity is autonomous, and one wrong stage coefficient stays below the tolerance.',
  files=['nbody/nbody_solver_rk_butcher.cpp', 'nbody/nbody_butcher_table.cpp', 'nbody/nbody_solver_rk*.cpp'], mech=[('compute_step / sub_step', 'nbody/nbody_solver_rk_butcher.cpp')], observe=['state buffer, time and step after advise'],
  explanation='advise() of each table-driven solver executed with an uninterpreted force; result compared with the table applied literally')
def p09(tier):
    js = []
    for k, name in enumerate(RKN):
        for corr in (0, 1):
            js.append(J('h_rk.cpp', '%s-corr%d' % (name, corr), kind=k, steps=2 if quick(tier) or k in (4, 5, 6) else 3, live=1, vary=1, corr=corr, refine=2 if k >= 7 and not quick(tier) else 1, expect=['steps done', 'step was accepted'], bounds='2 or 3 steps with varying step size'))
    for k in (7, 8):
        for rf in (0, 2, 3): js.append(J('h_rk.cpp', '%s-refine%d' % (RKN[k], rf), kind=k, steps=2, live=1, refine=rf, expect=['steps done'], bounds='2 steps, %d refinements' % rf))
    return js

@prop('P10', title='Each integration method has its documented order',
  statement='For every smooth right-hand side and step size, one step of each integration method agrees with the exact solution up to the order of accuracy documented for it; for embedded methods the same holds for both rows of weights, and every stage time equals the sum of its stage coefficients.',
  quantifier=dict(over=['programs', 'inputs'], text='all smooth autonomous right-hand sides, through the rooted-tree order conditions: all trees up to order 9 (up to order 14 for the chains and bushes of the tall methods), all step sizes'),
  why='Order is a statement about every smooth problem; the tests measure drift on one two-body problem with tolerances that a method of lower order also meets.',
  files=['nbody/nbody_solver_rk*.cpp', 'nbody/nbody_butcher_table.cpp', 'nbody/nbody_solver_bulirsch_stoer.cpp', 'README.md'], mech=[('coefficient tables', 'nbody/nbody_solver_rk*.cpp')], observe=['state buffer after advise'],
  explanation='each solver integrates the universal rooted-tree system with a symbolic step size; order conditions are assertions over the resulting polynomials')
def p10(tier):
    js = []
    q = quick(tier)
    for kind, name, order, full in ((0, 'rkck', 5, 5), (1, 'rkdp', 5, 5), (2, 'rkdverk', 5, 5), (3, 'rkf', 8, 7 if q else 8), (4, 'rkfeagin10', 10, 7 if q else 9), (5, 'rkfeagin12', 12, 7), (6, 'rkfeagin14', 14, 7), (9, 'euler', 1, 1), (10, 'midpoint', 2, 2), (11, 'midpoint-st', 2, 2), (12, 'rk4', 4, 4), (13, 'trapeze', 2, 2), (15, 'butcher-rk4', 4, 4)):
        js.append(J('h_order.cpp', 'step-' + name, kind=kind, order=order, full=full, expect=['order conditions evaluated'], bounds='all rooted trees up to order %d, chains and bushes up to order %d, symbolic step size' % (full, order)))
    js.append(J('h_order.cpp', 'step-rkgl', kind=7, order=6, full=6, refine=6, expect=['order conditions evaluated']))
    js.append(J('h_order.cpp', 'step-rklc', kind=8, order=4, full=4, refine=4, expect=['order conditions evaluated']))
    for lv, o, f in ((3, 6, 6),) + (() if q else ((4, 8, 6),)):
        js.append(J('h_order.cpp', 'step-bs-level%d' % lv, kind=14, level=lv, order=o, full=f, expect=['order conditions evaluated'], bounds='level %d: order %d' % (lv, o)))
    for kind, name, o1, o2 in ((0, 'rkck', 5, 4), (1, 'rkdp', 5, 4), (2, 'rkdverk', 6, 5), (3, 'rkf', 7, 8), (4, 'rkfeagin10', 8, 8), (5, 'rkfeagin12', 8, 8), (6, 'rkfeagin14', 8, 8), (7, 'rkgl', 6, 2), (8, 'rklc', 4, 2)):
        for row, o in ((1, o1), (2, o2)):
            js.append(J('h_order.cpp', 'table-%s-row%d' % (name, row), kind=kind, table=row, order=o, full=min(o, 7 if q else 8), expect=['order conditions evaluated'], bounds='row %d of weights, order %d' % (row, o)))
    return js

@prop('P11', title='Adaptive step subdivision obeys the error estimate',
  statement='With recursion enabled, an embedded Runge-Kutta step is accepted exactly when its error estimate is within the threshold, the step is already at the minimum size, or the recursion limit is reached; otherwise it is replaced by the configured number of equal substeps. In every case the step covers exactly the requested interval, advances the clock by the requested step and counts one step.',
  quantifier=dict(over=['inputs', 'programs', 'configurations'], text='arbitrary right-hand side, state, time, step, threshold and minimum step; recursion depth up to 2, 2 or 3 subdivisions'),
  why='Tests use one threshold on smooth orbits; which substeps are taken depends on every estimate, and the acceptance boundary is never hit.',
  files=['nbody/nbody_solver_rk_butcher.cpp'], mech=[('sub_step', 'nbody/nbody_solver_rk_butcher.cpp')], observe=['state buffer, time and step after advise'],
  explanation='advise() with recursion executed with an uninterpreted force and symbolic threshold/minimum step; all accept/split paths explored')
def p11(tier):
    js = []
    ex = ['steps done', 'step was subdivided', 'step was accepted']
    for k in range(7):
        js.append(J('h_rk.cpp', '%s-rec1' % RKN[k], kind=k, bigdt=int(k in (5, 6)), steps=1, live=1, maxrec=1, subdiv=2, expect=ex, bounds='recursion 1, 2 substeps'))
    js.append(J('h_rk.cpp', 'rkck-rec1-sub3', kind=0, steps=1, live=1, maxrec=1, subdiv=3, expect=ex, bounds='recursion 1, 3 substeps'))
    js.append(J('h_rk.cpp', 'rkck-rec1-corr', kind=0, steps=2, live=1, maxrec=1, subdiv=2, corr=1, expect=ex, bounds='recursion 1, compensated, 2 steps'))
    js.append(J('h_rk.cpp', 'rkck-rec2', kind=0, steps=1, live=1, maxrec=2, subdiv=2, expect=ex, bounds='recursion 2, 2 substeps', _seconds=200 if quick(tier) else 1500))
    js.append(J('h_rk.cpp', 'rklc-rec1', kind=8, steps=1, live=1, maxrec=1, subdiv=2, expect=ex, bounds='implicit, recursion 1'))
    if not quick(tier):
        js.append(J('h_rk.cpp', 'rkck-rec1-live2', kind=0, steps=1, live=2, maxrec=1, subdiv=2, expect=ex, bounds='recursion 1, 2 live components', _seconds=1500))
        js.append(J('h_rk.cpp', 'rkdp-rec2-sub3', kind=1, steps=1, live=1, maxrec=2, subdiv=3, expect=ex, bounds='recursion 2, 3 substeps', _seconds=1500))
    return js

@prop('P12', title='Adams-Bashforth applies the right coefficients to the right history',
  statement='After its start-up phase, an Adams-Bashforth step of rank 1 to 5 adds the step size times the standard coefficients applied to the derivatives at the last states in order of age, for every right-hand side and every history length, so that the derivative ring buffer never serves a stale entry. During start-up the configured one-step method determines the state.',
  quantifier=dict(over=['inputs', 'programs', 'histories', 'configurations'], text='arbitrary right-hand side, state, time, step; ranks 1..5; histories of start-up plus at least rank+1 full steps; starters euler, rk4, Stetter midpoint'),
  why='A stale or rotated history entry changes the orbit by less than the drift tolerance for smooth forces; tests run one rank set on one problem.',
  files=['nbody/nbody_solver_adams.cpp'], mech=[('derivative ring buffer', 'nbody/nbody_solver_adams.cpp')], observe=['state buffer after advise'],
  explanation='sequences of advise() executed with an uninterpreted force, compared with the Adams-Bashforth formula on the explicit history')
def p12(tier):
    js = []
    for rank in (1, 2, 3, 4, 5):
        for starter in ((0,) if quick(tier) else (0, 1, 2)) if rank not in (2, 3) else (0, 1, 2):
            for corr in (0, 1) if starter == 0 else (0,):
                js.append(J('h_step.cpp', 'adams%d-start%d-corr%d' % (rank, starter, corr), kind=5, rank=rank, starter=starter, corr=corr, live=1, steps=(2 * rank + 2 if quick(tier) else 3 * rank + 3) if starter == 0 else rank + 3, expect=['steps done'], bounds='rank %d' % rank, _seconds=200 if quick(tier) else 900))
    return js

@prop('P13', title='Bulirsch-Stoer extrapolates modified-midpoint results to zero step',
  statement='A Bulirsch-Stoer step equals the polynomial extrapolation in the squared substep of the modified-midpoint results over the first levels of its substep sequence, stopping at the first level at which the extrapolation changes by less than the threshold or at the last level. The extrapolation tables reproduce the polynomial (or Berrut rational) interpolant for arbitrary data and may be reused for the next step.',
  quantifier=dict(over=['inputs', 'programs', 'configurations'], text='arbitrary right-hand side, state, time, step and threshold; up to 5 levels; extrapolators on arbitrary data, orders 1..2, two sequences'),
  why='Tests extrapolate one known function and integrate one orbit; wrong weights at one level vanish within the tolerance once the sequence converges.',
  files=['nbody/nbody_solver_bulirsch_stoer.cpp', 'nbody/nbody_extrapolator.cpp', 'nbody/nbody_solver_midpoint_stetter.cpp'], mech=[('advise', 'nbody/nbody_solver_bulirsch_stoer.cpp'), ('update_table/extrapolate', 'nbody/nbody_extrapolator.cpp')], observe=['state buffer after advise', 'extrapolate'],
  explanation='the solver with an uninterpreted force and the extrapolators on symbolic data, compared with Lagrange/Berrut weights')
def p13(tier):
    js = []
    for lv in (3, 4) if quick(tier) else (3, 4, 5):
        js.append(J('h_bs.cpp', 'bs-level%d' % lv, kind=0, level=lv, live=1, steps=2 if lv == 3 else 1, expect=['done', 'last level'] + (['converged'] if lv > 3 else []), bounds='%d levels' % lv))
    for kind, name in ((1, 'neville'), (2, 'berrut')):
        for order in (1, 2):
            for alt in (0, 1):
                js.append(J('h_bs.cpp', '%s-order%d-seq%d' % (name, order, alt), kind=kind, level=4 if quick(tier) else 6, order=order, altseq=alt, live=1, expect=['done'], bounds='4 or 6 levels, two rounds', _seconds=200 if quick(tier) else 900))
    return js

@prop('P14', title='Resetting a solver forgets its history',
  statement='After a reset, a solver behaves from the next state on exactly like a freshly created one: nothing computed from earlier states (derivative history, stage values, auxiliary states) influences any later step.',
  quantifier=dict(over=['histories', 'inputs', 'programs'], text='arbitrary right-hand side, arbitrary earlier steps, arbitrary new state after the reset; all multi-step and implicit solvers'),
  why='Needs a reset in the middle of a run with an unrelated state afterwards; no test does that.',
  files=['nbody/nbody_solver_adams.cpp', 'nbody/nbody_solver_midpoint_stetter.cpp', 'nbody/nbody_solver_rk_butcher.cpp', 'nbody/nbody_solver_bulirsch_stoer.cpp'], mech=[('reset', 'nbody/nbody_solver_*.cpp')], observe=['state buffer after advise following reset'],
  explanation='advise, reset, overwrite the state with fresh symbols, advise again; compared with the method started from scratch')
def p14(tier):
    js = [J('h_step.cpp', 'reset-midpoint-st', kind=2, steps=4, live=1, reset=2, expect=['steps done'], bounds='reset after 2 of 4 steps')]
    for rank, starter, at in ((1, 0, 3), (2, 2, 2), (2, 0, 5), (3, 2, 2), (3, 2, 5), (4, 0, 6)):
        js.append(J('h_step.cpp', 'reset-adams%d-start%d-at%d' % (rank, starter, at), kind=5, rank=rank, starter=starter, live=1, reset=at, steps=at + (rank + 2 if starter == 0 else 2), expect=['steps done'], bounds='reset after %d steps' % at, _seconds=200 if quick(tier) else 900))
    for k in (0, 2, 7, 8):
        js.append(J('h_rk.cpp', 'reset-' + RKN[k], kind=k, steps=3 if k < 7 else 2, live=1, reset=1, expect=['steps done'], bounds='reset after the first step'))
    for k in range(16):
        v = {5: ((3, 0), (5, 1), (2, 2), (4, 3), (1, 4))}.get(k, ((3, 0),))
        for rank, st in v: js.append(J('h_reset.cpp', 'again-%d%s' % (k, '-rank%d-start%d' % (rank, st) if k == 5 else ''), 'fp', kind=k, rank=rank, starter=st, before=rank + 4 if k == 5 else 2, after=rank + 3 if k == 5 else 2, at=k % 6, corr=1, expect=['steps done'], bounds='one element of the state symbolic, all bits of every result', _seconds=20 if quick(tier) else 300, _ftimeout=300 if quick(tier) else 3000, _flip=False))
    for k in (6, 9, 14): js.append(J('h_reset.cpp', 'again-%d-split' % k, 'fp', kind=k, maxrec=1, before=2, after=2, at=1, corr=1, expect=['steps done'], bounds='one element of the state symbolic, subdivided steps', _seconds=20, _flip=False))
    for k in (0, 1, 3, 4): js.append(J('h_step.cpp', 'reset-one-step-%d' % k, kind=k, steps=2, live=1, reset=1, expect=['steps done'], bounds='reset after the first of 2 steps'))
    return js

@prop('P22', title='Conservation statistics report the true totals and drift',
  statement='For every state, the reported total impulse, angular momentum, mass centre and energy are those of the current bodies, only the selected quantities are computed, the values recorded at the first report are kept as the initial ones, and the reported drifts are the change relative to them in per cent.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all positions, velocities, masses of 1..3 bodies, all selections of quantities, a first and a later report'),
  why='Tests look at drift bounds after integration, which hold also for wrong totals as long as they are constant.',
  files=['nbody/nbody_data.cpp'], mech=[('print_statistics', 'nbody/nbody_data.cpp')], observe=['get_last_*/get_initial_*/get_*_err'],
  explanation='print_statistics executed on symbolic states, compared with the defining sums')
def p22(tier):
    js = []
    for lst in (1, 2, 4, 8, 3, 5, 9, 6, 10, 12):
        js.append(J('h_stat.cpp', 'stat-%d' % lst, n=2 if lst in (1, 2, 4, 8) else 1, nsym=2 if lst in (1, 2, 4, 8) else 1, list=lst, moved=1, expect=['done'], bounds='2 bodies'))
    js.append(J('h_stat.cpp', 'stat-all-n3', n=3, nsym=3, list=15, moved=0, expect=['done'], bounds='3 bodies'))
    js.append(J('h_stat.cpp', 'stat-all-noengine', n=2, nsym=2, list=15, moved=0, engine=-1, expect=['done'], bounds='2 bodies, no engine'))
    for lst in (7, 11, 15, 0): js.append(J('h_stat.cpp', 'stat-sel%d' % lst, n=1, nsym=1, list=lst, moved=1, expect=['done'], bounds='1 body'))
    if not quick(tier):
        for lst in range(1, 16): js.append(J('h_stat.cpp', 'stat-n2-%d' % lst, n=2, nsym=2, list=lst, moved=0, expect=['done'], bounds='2 bodies'))
        js.append(J('h_stat.cpp', 'stat-all-n4', n=4, nsym=4, list=15, moved=0, expect=['done'], bounds='4 bodies', _seconds=900))
    return js

@prop('P15', title='The simulation loop steps, reports and stores exactly when due',
  statement='A run advances the state by whole time steps and stops at the first step whose time reaches the end time; it makes no step if the start time is already there. Observers are called, and frames are written, exactly at the first step at which the respective interval has elapsed since the previous one (less a tenth of a step), a frame also at the start of a run that begins at time zero or before, and each sees the time, step number and state of that moment. Intervals of zero or less switch the activity off; with box wrapping the positions are wrapped before each step. The first failing write ends the run with an error; otherwise it reports success.',
  quantifier=dict(over=['inputs', 'histories', 'fault_sequences'], text='all start times, step sizes, end times, dump and report intervals (positive, zero, negative) for runs of up to 6 steps; a write failure at any of the first frames; with and without stream, wrapping and several observers'),
  why='Tests run with one set of intervals and count frames; which steps are due depends on every combination of interval and step, including negative times, boundaries and failures in the middle.',
  files=['nbody/nbody_solver.cpp', 'nbody/nbody_data.cpp', 'nbody/nbody_engine.cpp'], mech=[('nbody_solver::run', 'nbody/nbody_solver.cpp')], observe=['calls of step visitors, stream writes and clamp', 'return value of run'],
  explanation='run() executed with symbolic times and intervals; every feasible schedule of reports, frames and failures becomes a path whose event history is compared with the specified one')
def p15(tier):
    js = []
    ex = ['run finished', 'report made', 'frame written']
    js.append(J('h_run.cpp', 'run-plain', clamp=0, stream=1, fail=0, live=1, expect=ex, bounds='up to 4 steps'))
    js.append(J('h_run.cpp', 'run-clamp', clamp=1, stream=1, fail=0, live=1, visitors=2, expect=ex, bounds='up to 4 steps, wrapping, 2 observers'))
    js.append(J('h_run.cpp', 'run-nostream', clamp=0, stream=0, fail=0, live=1, long=1, expect=['run finished', 'report made'], bounds='up to 6 steps'))
    for k in (1, 2, 3): js.append(J('h_run.cpp', 'run-fail%d' % k, clamp=0, stream=1, fail=k, live=1, expect=['run finished', 'write failure'] if k > 1 else ['run finished'], bounds='write %d fails' % k))
    js.append(J('h_run.cpp', 'run-long', clamp=0, stream=1, fail=0, live=1, long=1, visitors=1, expect=ex, bounds='up to 6 steps', _seconds=200 if quick(tier) else 1500, _max_paths=6000))
    if not quick(tier): js.append(J('h_run.cpp', 'run-long-fail3', clamp=1, stream=1, fail=3, live=2, long=1, visitors=2, expect=ex, bounds='up to 6 steps', _seconds=1500, _max_paths=10000))
    return js

@prop('P21', title='Box wrapping keeps positions inside the periodic box',
  statement='Wrapping a state into a box maps every coordinate to the value inside [-b, b] that differs from it by a whole multiple of the box length 2b, leaves coordinates already inside and all velocities untouched, for every coordinate within three half box lengths of the centre and every box size.',
  quantifier=dict(over=['inputs', 'configurations'], text='all coordinates with |x| < 2.999 b, all b in [0.5, 100], every coordinate index of up to 4 bodies, engines simple/openmp/block/ah, 1..4 threads'),
  why='Tests wrap a few fixed positions; each axis, body index, boundary value and thread chunk has to be right.',
  files=['nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp'], mech=[('clamp', 'nbody/nbody_engine_simple.cpp, nbody/nbody_engine_openmp.cpp')], observe=['state buffer after clamp'],
  explanation='clamp() executed on symbolic coordinates and box size; all below/inside/above combinations explored')
def p21(tier):
    js = []
    ex = ['wrapped down', 'wrapped up', 'kept', 'done']
    for eng, name in ((0, 'simple'), (1, 'openmp'), (2, 'block'), (3, 'ah')):
        for n in (1, 2) if quick(tier) else (1, 2, 3, 4):
            for first in range(0, 3 * n, 2):
                js.append(J('h_clamp.cpp', 'clamp-%s-n%d-%d' % (name, n, first), engine=eng, n=n, live=2, first=first, own=int(first == 0), threads=1 + first % 4, expect=ex, bounds='%d bodies, 2 symbolic coordinates' % n))
        js.append(J('h_clamp.cpp', 'clamp-%s-n1-all' % name, engine=eng, n=1, live=3, first=0, threads=3, expect=ex, bounds='1 body, 3 symbolic coordinates'))
    return js

LAYS = ['tree', 'heap', 'heap_stackless']; TRVS = ['cycle', 'nested']
BHB = '%d bodies, one or two bodies moving on a line or in space (coordinates in [-100,100]), opening ratio %s'
@prop('P05', title='Barnes-Hut groups bodies only when the opening criterion allows',
  statement='For every configuration and every opening ratio above one, each acceleration computed by the Barnes-Hut engine is the sum over disjoint groups that together contain every other body exactly once and never the body itself; each group acts with its total mass from its centre of mass under the softened law, and a group of several bodies is used only if its centre is farther away than the opening ratio times the group radius (half the diagonal of its bounding box plus the offset of its centre of mass from the box centre). This holds for all tree layouts, traversals, body counts (powers of two or not) and for coincident bodies.',
  quantifier=dict(over=['inputs', 'configurations'], text='1..5 bodies; positions of one body (3 axes) or two bodies (1 axis) arbitrary among generic, clustered, coincident and stretched others; ratios 1.1 to 10; 3 layouts, 2 traversals'),
  why='Tests compare with the direct sum on one cluster with a tolerance of the order of the approximation error, at power-of-two counts; a body lost, counted twice or grouped too early hides below that tolerance.',
  files=['nbody/nbody_engine_simple_bh.cpp', 'nbody/nbody_space_tree.cpp', 'nbody/nbody_space_heap.cpp', 'nbody/nbody_space_heap_stackless.cpp', 'nbody/nbody_space_heap_func_priv.h'], mech=[('tree build', 'nbody/nbody_space_tree.cpp, nbody/nbody_space_heap.cpp'), ('traverse', 'nbody/nbody_space_*.cpp')], observe=['fcompute result buffer'],
  explanation='build and traversal executed with symbolic positions: every ordering of the bodies and every open/accept decision is a path; the witness partition is chosen from the concrete run and the equality and criterion are proved for the whole path')
def p05(tier):
    js = []; q = quick(tier); sec = 40 if q else 600
    ex = ['force evaluated']; exg = ex + ['a distant group acted as one mass']
    for l in range(3):
        for t in range(2):
            nm_ = '%s-%s' % (LAYS[l], TRVS[t])
            for n, pat, r, who, ax in ((1, 0, 20, 1, 7), (2, 0, 20, 1, 1), (3, 0, 15, 1 << (t + l) % 3, 1), (4, 1, 15, 1 << (l + t) % 4, 1), (4, 1, 11, 1 << (l + 2 * t + 1) % 4, 2), (5, 3, 20, 1 << (l + t) % 5, 1), (4, 2, 20, 1, 1)):
                js.append(J('h_bh.cpp', 'bh-%s-n%d-p%d-r%d-who%d' % (nm_, n, pat, r, who), n=n, layout=l, traverse=t, who=who, axes=ax, ratio10=r, pattern=pat, expect=exg if pat in (1, 3) else ex, bounds=BHB % (n, r / 10), _seconds=sec))
        js.append(J('h_bh.cpp', 'bh-%s-n4-two' % LAYS[l], n=4, layout=l, traverse=l % 2, who=3, axes=1, ratio10=15, pattern=1, expect=exg, bounds=BHB % (4, 1.5), _seconds=sec))
        js.append(J('h_bh.cpp', 'bh-%s-n4-space' % LAYS[l], n=4, layout=l, traverse=(l + 1) % 2, who=2, axes=7, ratio10=20, pattern=1, expect=exg, bounds=BHB % (4, 2), _seconds=sec, _qtimeout=4000, _ftimeout=1500))
        js.append(J('h_bh.cpp', 'bh-%s-n5-r100' % LAYS[l], n=5, layout=l, traverse=0, who=4, axes=4, ratio10=100, pattern=3, expect=ex, bounds=BHB % (5, 10), _seconds=sec))
        if not q:
            for who in range(5): js.append(J('h_bh.cpp', 'bh-%s-n5-who%d' % (LAYS[l], who), n=5, layout=l, traverse=who % 2, who=1 << who, axes=3, ratio10=13, pattern=1, expect=exg, bounds=BHB % (5, 1.3), _seconds=sec))
            js.append(J('h_bh.cpp', 'bh-%s-mass' % LAYS[l], n=3, layout=l, traverse=1, who=0, symmass=1, ratio10=12, pattern=3, expect=exg, bounds='3 bodies, symbolic masses', _seconds=sec))
    return js

@prop('P06', title='Tree traversals agree with each other and with the direct sum',
  statement='For every configuration and opening ratio, evaluating the forces body by body or along the tree leaves gives the same accelerations, stack-based and stackless heap traversal give the same accelerations, and with an opening ratio so large that no group can be accepted the result is the direct softened sum. The evaluation leaves the state unchanged and writes every component of the result, for any body count and number of threads.',
  quantifier=dict(over=['inputs', 'configurations', 'schedules'], text='pairs of configurations with the same tree, 3..140 bodies with one body moving arbitrarily, ratios from 0.5 upwards, 1..4 threads with task-parallel construction'),
  why='Tests check each configuration against a tolerance for a couple of sizes; skipped or repeated nodes at particular heap shapes need every count and every open/accept pattern.',
  files=['nbody/nbody_engine_simple_bh.cpp', 'nbody/nbody_space_tree.h', 'nbody/nbody_space_heap.h', 'nbody/nbody_space_heap_stackless.cpp', 'nbody/nbody_space_heap_func_priv.h'], mech=[('traverse', 'nbody/nbody_space_*.cpp/.h'), ('heap index arithmetic', 'nbody/nbody_space_heap_func_priv.h')], observe=['fcompute result buffers of two engines'],
  explanation='two engines evaluated on the same symbolic state in one execution; equality of the accelerations decided per path')
def p06(tier):
    js = []; q = quick(tier); sec = 40 if q else 600
    ex = ['force evaluated']
    for a, b, name in (((0, 0), (0, 1), 'tree-cycle-nested'), ((1, 0), (1, 1), 'heap-cycle-nested'), ((1, 0), (2, 0), 'heap-stackless'), ((2, 0), (2, 1), 'stackless-cycle-nested'), ((1, 1), (2, 1), 'nested-heap-stackless')):
        for n, r in ((3, 5), (5, 20), (6, 8), (7, 15), (9, 30)) + (() if q else ((8, 12), (11, 20), (13, 7), (17, 30))):
            js.append(J('h_bhrel.cpp', 'rel-%s-n%d' % (name, n), n=n, la=a[0], ta=a[1], lb=b[0], tb=b[1], ratio10=r, who=n // 2, axes=1, twins=n % 2, expect=ex, bounds='%d bodies, ratio %.1f, one moving body' % (n, r / 10), _seconds=sec, _qtimeout=4000, _ftimeout=1500))
        for n in (70, 131): js.append(J('h_bhrel.cpp', 'rel-%s-n%d' % (name, n), n=n, la=a[0], ta=a[1], lb=b[0], tb=b[1], ratio10=20, who=0, axes=0, expect=ex, bounds='%d bodies, symbolic velocity' % n, _seconds=sec))
    for l in range(3):
        for t in range(2):
            for n in (3, 6, 8) if q else (3, 4, 5, 6, 7, 8, 12):
                js.append(J('h_bhrel.cpp', 'direct-%s-%s-n%d' % (LAYS[l], TRVS[t], n), n=n, la=l, ta=t, direct=1, ratio10=10000000, who=n - 1, axes=1 << t, expect=ex, bounds='%d bodies, one moving' % n, _seconds=sec, _qtimeout=4000, _ftimeout=1500))
            for n in (70, 140): js.append(J('h_bhrel.cpp', 'direct-%s-%s-n%d' % (LAYS[l], TRVS[t], n), n=n, la=l, ta=t, direct=1, ratio10=10000000, who=0, axes=0, threads=4, expect=ex, bounds='%d bodies, task-parallel build' % n, _seconds=sec))
    return js

@prop('P07', title='A reused Barnes-Hut tree follows the bodies',
  statement='With a tree build rate above one, evaluations between full builds use boxes, centres of mass and opening radii of the current positions: however the bodies moved since the tree was built, every acceleration still satisfies the grouping and opening rules for the current state, and the tree is rebuilt from scratch at the steps divisible by the rate and whenever there is none yet.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'], text='a build followed by 1 or 2 moves to states with one arbitrarily placed body, 3..9 bodies, rates 0..5 and starting steps, 3 layouts, 2 traversals'),
  why='Tests run many smooth steps and look at drift; stale boxes or centres only matter after large or unusual moves.',
  files=['nbody/nbody_engine_simple_bh.cpp', 'nbody/nbody_space_tree.cpp', 'nbody/nbody_space_heap.cpp'], mech=[('rebuild', 'nbody/nbody_space_tree.cpp, nbody/nbody_space_heap.cpp')], observe=['fcompute result buffer'],
  explanation='fcompute, move, fcompute with symbolic new positions; same oracle as P05/P06 at the new state')
def p07(tier):
    js = []; q = quick(tier); sec = 40 if q else 600
    ex = ['force evaluated', 'tree updated']
    for l in range(3):
        for t in range(2):
            for n, pat, r, who, jump, rate, s0, s1 in ((3, 0, 15, 1, 1, 5, 0, 1), (4, 1, 15, 2, 0, 5, 0, 1), (5, 1, 12, 4, 1, 3, 1, 2), (5, 3, 20, 1, 1, 2, 3, 4), (4, 2, 15, 8, 1, 0, 0, 1)):
                js.append(J('h_bh.cpp', 'move-%s-%s-n%d-rate%d-step%d' % (LAYS[l], TRVS[t], n, rate, s0), n=n, layout=l, traverse=t, who=who, axes=1 << (l + t) % 3, ratio10=r, pattern=pat, moved=1, jump=jump, rate=rate, step0=s0, step1=s1, expect=ex, bounds='%d bodies, rate %d, steps %d,%d' % (n, rate, s0, s1), _seconds=sec))
    for a, b, name in (((0, 0), (0, 1), 'tree-cycle-nested'), ((1, 0), (2, 1), 'heap-stackless')):
        for n in (6, 9): js.append(J('h_bhrel.cpp', 'moverel-%s-n%d' % (name, n), n=n, la=a[0], ta=a[1], lb=b[0], tb=b[1], ratio10=15, who=1, rounds=2 if q else 3, rate=5, jump=1, expect=['force evaluated'], bounds='%d bodies, 2 or 3 evaluations' % n, _seconds=sec, _qtimeout=4000, _ftimeout=1500))
    for l in range(3):
        for n in (5, 8): js.append(J('h_bhrel.cpp', 'movedirect-%s-n%d' % (LAYS[l], n), n=n, la=l, ta=l % 2, direct=1, ratio10=10000000, who=n - 1, rounds=2, rate=4, step0=l, jump=1, expect=['force evaluated'], bounds='%d bodies, 2 evaluations' % n, _seconds=sec, _qtimeout=4000, _ftimeout=1500))
        js.append(J('h_bhrel.cpp', 'movedirect-%s-n70' % LAYS[l], n=70, la=l, ta=1 - l % 2, direct=1, ratio10=10000000, who=0, axes=0, rounds=3, rate=4, jump=1, expect=['force evaluated'], bounds='70 bodies, 3 evaluations', _seconds=sec))
    return js

@prop('P16', title='A written stream reads back losslessly',
  statement='Every sequence of frames written to a stream is read back in order, with positions, velocities, step numbers, masses and colours bit for bit and the time to 15 significant digits; frame count, body count, coordinate size, last step and last time match what was written. This holds however the stream is split into parts, whether it was written in one go or continued by appending, when the name or the writer and reader objects were used for another stream before, and for every destination object the frames are read into.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all bit patterns of coordinates, velocities, masses, all 64-bit steps, all finite times up to 1e9; 1..3 bodies, 1..5 frames, every part size from 1 byte to more than the stream, appended zero or more times'),
  why='Tests write a few frames with one part size and compare with a tolerance; lost low bits of time, stale headers, masses delivered only once, offsets wrong after a roll-over in an appended stream need other histories.',
  files=['nbody/nbody_data_stream.cpp', 'nbody/nbody_data_stream_reader.cpp'], mech=[('write/open/append', 'nbody/nbody_data_stream.cpp'), ('load/seek/read', 'nbody/nbody_data_stream_reader.cpp')], observe=['nbody_data after read()', 'reader header accessors'],
  explanation='writer and reader executed on real files whose bytes and printed numbers carry their symbolic meaning (by path and offset, by token); equality of bit-vectors decided by the solver, part boundaries are paths')
def p16(tier):
    js = []; q = quick(tier); ex = ['read back']
    for n, fr, first, app, part, again, live in ((1, 3, 3, 0, -2, 0, 0), (2, 3, 3, 0, -1, 1, 1), (2, 4, 2, 1, -2, 2, 1), (1, 4, 1, 3, -2, 0, 2), (3, 3, 2, 2, 1, 3, 0), (1, 1, 1, 0, 1, 0, 0), (1, 5, 2, 1, 96, 1, 3)):
        js.append(J('h_stream.cpp', 'stream-n%d-f%d-append%d-part%d-again%d' % (n, fr, app, part, again), 'fp', n=n, frames=fr, first=first, append=app, part=part, again=again, live=live, what=0, expect=ex, bounds='%d bodies, %d frames' % (n, fr), _seconds=90))
    for n, fr, first, app, part, again in ((1, 3, 3, 0, -2, 0), (1, 4, 2, 1, -2, 2), (1, 3, 1, 3, 48, 1)):
        js.append(J('h_stream.cpp', 'time-f%d-append%d-part%d' % (fr, app, part), n=n, frames=fr, first=first, append=app, part=part, again=again, what=1, expect=ex, bounds='%d frames, symbolic times' % fr, _seconds=90))
    if not q:
        for live in range(6): js.append(J('h_stream.cpp', 'stream-long-live%d' % live, 'fp', n=2, frames=6, first=1 + live % 4, append=3 if live % 2 else 1, part=-2, live=live, what=0, expect=ex, bounds='2 bodies, 6 frames', _seconds=400))
    return js

@prop('P17', title='The stream reader always stands at the frame it says',
  statement='For every sequence of seeks, reads, reloads and refused requests, a read delivers exactly the frame reported as current and moves on by one; seeking to any stored frame succeeds, seeking elsewhere fails and changes nothing. Reading past the last frame, from a missing or truncated part, into a destination of another size or into no destination is reported as an error, never delivered as data, and does not prevent later valid seeks and reads.',
  quantifier=dict(over=['histories', 'inputs', 'fault_sequences'], text='all sequences of 3 (thorough: 4) operations from read / seek to any 64-bit frame / wrong destination / reload, on 3 or 4 frames in 1..4 parts, intact, with a part missing, or with the last part cut anywhere'),
  why='Tests go through one sequence per situation; a stale file position or an off-by-one at a part boundary needs a particular sequence.',
  files=['nbody/nbody_data_stream_reader.cpp'], mech=[('seek/read/load/close', 'nbody/nbody_data_stream_reader.cpp')], observe=['return codes, get_current_frame, nbody_data after read()'],
  explanation='the operations of a history are symbolic; every feasible sequence is a path of the real reader checked against a model of the position')
def p17(tier):
    js = []; ops = 3 if quick(tier) else 4; ex = ['history done', 'a lost frame is reported', 'seek out of range']; kw = dict(_seconds=100 if quick(tier) else 900, _max_paths=30000)
    for fr, per in ((3, 1), (3, 2), (3, 5)): js.append(J('h_reader.cpp', 'history-f%d-per%d' % (fr, per), 'fp', frames=fr, per=per, ops=ops, expect=ex, bounds='%d frames, %d per part, %d operations' % (fr, per, ops), **kw))
    for fr, per, mi in ((4, 1, 2), (4, 2, 1), (3, 1, 1)): js.append(J('h_reader.cpp', 'missing-f%d-per%d-part%d' % (fr, per, mi), 'fp', frames=fr, per=per, ops=ops, missing=mi, expect=ex, bounds='%d frames, part %d missing' % (fr, mi), **kw))
    for fr, per in ((3, 1), (3, 2)): js.append(J('h_reader.cpp', 'torn-f%d-per%d' % (fr, per), 'fp', frames=fr, per=per, ops=ops - 1, torn=1, expect=ex, bounds='%d frames, last part cut short at 7 places' % fr, **kw))
    return js

@prop('P18', title='A failing disk or a crash never corrupts stored frames silently',
  statement='Wherever a write to the stream files fails, writing the frame reports an error, and saving a state to a text file reports success exactly when all of it was written. Whenever the process dies between two writes, the stream on disk loads if at least one frame had been reported written, contains every frame reported written, and every frame its index names is completely stored with the data, masses and colours that were written. A failing read is never delivered as a good frame with wrong content.',
  quantifier=dict(over=['crash_points', 'fault_sequences'], text='every write call (up to the 10th) made while writing 3 or 4 frames with part roll-over failing, cut short (data files) or being the crash point; every read call failing or returning short; contents symbolic'),
  why='No test injects a fault; a missing flush or an index entry written before its data is invisible while everything succeeds.',
  files=['nbody/nbody_data_stream.cpp', 'nbody/nbody_data_stream_reader.cpp', 'nbody/nbody_data.cpp'], mech=[('write', 'nbody/nbody_data_stream.cpp'), ('save', 'nbody/nbody_data.cpp')], observe=['return codes of write()/save(), what a reader finds afterwards'],
  explanation='the harness stands in for the write and read system calls; which call fails and how is symbolic; the files left behind are read by the real reader')
def p18(tier):
    js = []; ex = ['done', 'fault', 'no fault']; f = (3, 4) if quick(tier) else (3, 4, 6)
    for fr in f:
        for per in (1, 2, 9): js.append(J('h_fault.cpp', 'stream-f%d-per%d' % (fr, per), 'fp', what=0, frames=fr, per=per, n=1 + fr % 2, calls=2 * fr + 3, expect=ex, bounds='%d frames, fault at any of %d write calls' % (fr, 2 * fr + 4), _max_paths=9999))
    js.append(J('h_fault.cpp', 'stream-large', 'fp', what=0, frames=2, per=1, n=400, calls=11, expect=ex, bounds='400 bodies per frame (more than one write per frame)', _max_paths=9999))
    js.append(J('h_fault.cpp', 'save', 'fp', what=1, n=2, calls=3, expect=['done', 'fault', 'saved'], bounds='2 bodies'))
    js.append(J('h_fault.cpp', 'save-large', 'fp', what=1, n=300, calls=6, expect=['done', 'fault', 'saved'], bounds='300 bodies (several writes)'))
    for per in (1, 2): js.append(J('h_fault.cpp', 'read-per%d' % per, 'fp', what=2, frames=2, per=per, calls=5, expect=['done', 'fault', 'read fault'], bounds='fault at any of 6 read calls'))
    return js

@prop('P19', title='Text states round-trip and load in every documented format',
  statement='Saving a state to text and loading it again restores every position, velocity, mass and radius exactly. Loading a table takes position, velocity and mass of each body from the first seven columns of its line, whatever comments, blank lines, extra spaces or extra columns the file contains; in SI or astronomical units the mass is scaled by the gravitational constant of that unit system. Loading a Zeno file yields its masses, positions and velocities. Loading replaces what the data set held before.',
  quantifier=dict(over=['inputs', 'configurations'], text='all finite numbers (save/load: up to 1.7e308; tables: up to 1e30), 1..3 bodies, 7 layouts per line, 3 unit systems, direct and by type name'),
  why='Tests load a few fixed files and compare with the same code; digits lost in printing or swapped columns of rarely used formats need other values.',
  files=['nbody/nbody_data.cpp', 'nbody/nbtype.h'], mech=[('save/load/load_zeno_ascii/load_initial', 'nbody/nbody_data.cpp')], observe=['nbody_data after load'],
  explanation='printed and parsed numbers carry their symbolic meaning by token; equality decided bit-precisely (units: relative over the reals)')
def p19(tier):
    js = []; ex = ['done']
    for n in (1, 2) + (() if quick(tier) else (3,)):
        js.append(J('h_text.cpp', 'save-load-n%d' % n, 'fp', what=0, n=n, expect=ex, bounds='%d bodies, all finite values' % n, _seconds=100))
        for ini in (0, 2): js.append(J('h_text.cpp', 'zeno-n%d-i%d' % (n, ini), 'fp', what=2, n=n, initial=ini, expect=ex, bounds='%d bodies' % n, _seconds=100))
        for ini in (0, 1):
            js.append(J('h_text.cpp', 'table-n%d-i%d' % (n, ini), 'fp', what=1, n=n, initial=ini, expect=ex, bounds='%d bodies, 7 layouts each' % n, _seconds=100))
            for unit in (1, 2): js.append(J('h_text.cpp', 'units%d-n%d-i%d' % (unit, n, 2 * ini), what=1, n=n, unit=unit, initial=2 * ini, expect=ex, bounds='%d bodies, 7 layouts each' % n, _seconds=100))
    return js

@prop('P20', title='Malformed input files are refused',
  statement='A table in which any line has fewer than seven columns or a non-numeric value among its first eight columns, and a Zeno file with a missing line, a wrong dimension, a wrong number of components, a non-numeric value or an impossible body count, make loading return an error instead of a data set, without crashing.',
  quantifier=dict(over=['inputs'], text='every line and column of files with up to 3 bodies replaced by 5 kinds of non-numbers, lines cut short at 2..6 columns, Zeno files cut at every line and damaged in 6 ways'),
  why='Tests have a few malformed examples; which line and which column is damaged is not varied.',
  files=['nbody/nbody_data.cpp'], mech=[('load/load_zeno_ascii', 'nbody/nbody_data.cpp')], observe=['return value of load'],
  explanation='place and kind of the damage are symbolic; every feasible combination is a path of the real loader')
def p20(tier):
    js = []
    for n in (1, 2) + (() if quick(tier) else (3,)):
        js.append(J('h_text.cpp', 'bad-table-n%d' % n, 'fp', what=3, n=n, expect=['done'], bounds='%d bodies' % n, _max_paths=5000))
        js.append(J('h_text.cpp', 'bad-zeno-n%d' % n, 'fp', what=4, n=n, expect=['done'], bounds='%d bodies' % n, _max_paths=5000))
    return js

@prop('P23', title='The Ahmad-Cohen engine freezes only far, weak interactions',
  statement='At steps divisible by the full recompute rate, and whenever no neighbour lists exist yet, the Ahmad-Cohen engine computes the direct softened sum. At other steps every pair that at the last full computation was nearer than the maximum distance or attracted more strongly than the minimum force contributes its current force, and every other pair contributes exactly the force it had then.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'], text='one body placed arbitrarily at the full computation and one at later evaluations (or arbitrary masses), 2..3 bodies, rates 0..3, starting steps 0..3, up to 4 evaluations'),
  why='The tests check energy drift of one system with generous thresholds; which pairs are frozen and from when is not observed.',
  files=['nbody/nbody_engine_ah.cpp'], mech=[('fcompute_full/fcompute_sparse', 'nbody/nbody_engine_ah.cpp')], observe=['fcompute result buffer'],
  explanation='histories of evaluations at symbolic positions; neighbour decisions are paths; each acceleration compared with the mixed sum')
def p23(tier):
    js = []; q = quick(tier); sec = 60 if q else 400
    for n, kw in ((2, {}), (3, {}), (3, dict(symmass=1, who=0, move=0)), (3, dict(rounds=4, rate=2)), (2, dict(step0=1)), (2, dict(step0=3, rounds=3)), (2, dict(rate=0)), (2, dict(axes=7, who=1, move=2)), (3, dict(axes=2, who=4, move=1, dist10=0, force1000=60)), (3, dict(axes=4, who=2, move=3, dist10=55, force1000=900000))):
        js.append(J('h_ah.cpp', 'ah-n%d-%s' % (n, '-'.join('%s%s' % k for k in sorted(kw.items())) or 'default'), n=n, threads=1 + n % 3, expect=['force evaluated', 'far pair'] + (['sparse evaluation'] if kw.get('rate', 3) else []), bounds='%d bodies' % n, _seconds=sec, **kw))
    return js

@prop('P24', title='Threads never change a result',
  statement='For every number of threads and every interleaving, force evaluation, buffer arithmetic, maximum norm and box wrapping of the multi-threaded engines access shared memory without data races and give the result of a single-threaded run: bit for bit for the directly summing engines and all buffer operations, and over the reals for the tree and Ahmad-Cohen engines.',
  quantifier=dict(over=['schedules', 'inputs', 'configurations'], text='every schedule of 2..7 threads (races decided by happens-before over the whole execution), openmp/block/ah/Barnes-Hut engines (3 layouts, 2 traversals), 1..8 bodies with symbolic coordinates, and 70..200 bodies so that several blocks and chunks exist'),
  why='A race or an order-dependent reduction shows up in a test run only when the scheduler happens to expose it, and tests compare with tolerances.',
  files=['nbody/nbody_engine_openmp.cpp', 'nbody/nbody_engine_block.cpp', 'nbody/nbody_engine_ah.cpp', 'nbody/nbody_engine_simple_bh.cpp', 'nbody/nbody_space_tree.cpp', 'nbody/nbody_space_heap.cpp'], mech=[('omp parallel regions', 'nbody/nbody_engine_*.cpp, nbody/nbody_space_*.cpp')], observe=['result buffers', 'memory accesses of every thread'],
  explanation='the parallel regions run on a modelled OpenMP runtime; conflicting accesses not ordered by happens-before are violations in any schedule, and the expressions computed with 1 and k threads are compared by the solver')
def p24(tier):
    js = []; q = quick(tier); ex = ['done']
    for eng, name in ((1, 'openmp'), (2, 'block')):
        for n, live, th in ((1, 1, 4), (3, 1, 2), (5, 2, 3), (8, 1, 4)) + (() if q else ((8, 3, 7), (13, 2, 5))):
            js.append(J('h_threads.cpp', 'force-%s-n%d-t%d' % (name, n, th), 'fp', engine=eng, n=n, live=live, threads=th, what=0, expect=ex, bounds='%d bodies, %d symbolic, %d threads' % (n, live, th), _seconds=60 if q else 400))
        for n, th in ((70, 3), (150, 7)): js.append(J('h_threads.cpp', 'force-%s-n%d-t%d' % (name, n, th), 'fp', engine=eng, n=n, live=0, threads=th, what=0, expect=ex, bounds='%d concrete bodies, %d threads' % (n, th)))
        for n, th in ((1, 4), (2, 3), (3, 7)):
            js.append(J('h_threads.cpp', 'algebra-%s-n%d-t%d' % (name, n, th), 'fp', engine=eng, n=n, live=n, threads=th, what=1, expect=ex, bounds='%d elements, %d threads' % (6 * n, th)))
            js.append(J('h_threads.cpp', 'norm-wrap-%s-n%d-t%d' % (name, n, th), 'fp', engine=eng, n=n, live=1, threads=th, what=2, expect=ex, bounds='%d elements, %d threads' % (6 * n, th), _seconds=60, _max_paths=400))
    for n, live, th in ((3, 1, 3), (4, 1, 2)): js.append(J('h_threads.cpp', 'force-ah-n%d-t%d' % (n, th), engine=3, n=n, live=live, threads=th, what=0, eq=1, expect=ex, bounds='%d bodies, 2 evaluations' % n, _seconds=40 if q else 300, _max_paths=200 if q else 4000))
    js.append(J('h_threads.cpp', 'force-ah-n150-t5', 'fp', engine=3, n=150, live=0, threads=5, what=0, expect=ex, bounds='150 concrete bodies, 5 threads'))
    for l in range(3):
        for t in range(2):
            js.append(J('h_threads.cpp', 'force-bh-%s-%s' % (LAYS[l], TRVS[t]), engine=4, lay=l, trv=t, n=4, live=1, threads=2 + l, what=0, eq=1, expect=ex, bounds='4 bodies, one with symbolic coordinate and velocity, 2 evaluations', _seconds=15 if q else 300, _max_paths=40 if q else 2000))
            js.append(J('h_threads.cpp', 'force-bh-%s-%s-n150' % (LAYS[l], TRVS[t]), 'fp', engine=4, lay=l, trv=t, n=150, live=0, threads=5, what=0, expect=ex, bounds='150 concrete bodies, 5 threads'))
    return js

@prop('P25', title='The OpenCL engine computes what the reference engine computes, on any devices',
  statement='On every conforming OpenCL platform, with one or several devices in one or several contexts, the OpenCL engine yields the softened gravitation sum, and its buffer operations, maximum norm, box wrapping and state transfer give the results the reference engine gives, also when the operands were produced on the devices and never read back. No kernel or command accesses memory out of bounds, races with another one or relies on an order the OpenCL rules do not guarantee, and every command it issues is a valid one.',
  quantifier=dict(over=['inputs', 'configurations', 'schedules', 'programs'], text='1, 2 or 4 devices in 1 or 2 contexts, work groups of 1..4 items, 2..8 bodies with up to 2 bodies symbolic, commands executed as early or as late as OpenCL allows; four programs of operations; transfers over all bit patterns'),
  why='No test exercises the engine (there is no device in the build environment); ordering mistakes between queues and work items show only on particular hardware.',
  files=['nbody/nbody_engine_opencl.cpp', 'nbody/nbody_engine_opencl.cl', 'nbody/nbody_engines.cpp'], mech=[('fcompute, synchronize_*', 'nbody/nbody_engine_opencl.cpp'), ('kernels', 'nbody/nbody_engine_opencl.cl')], observe=['buffers read back', 'commands and memory accesses of every work item'],
  explanation='host code and kernels (compiled from the current .cl source with the options the host passes) execute symbolically on a model of the OpenCL 1.2 runtime; results compared with the reference engine and the gravitation sum, accesses checked by happens-before; counterexamples replayed under the oclgrind simulator')
def p25(tier):
    js = []; q = quick(tier); o = dict(_opencl=True)
    for n, ns, bs, dev, lazy in ((2, 2, 2, 0, 1), (4, 2, 2, 1, 1), (4, 2, 1, 2, 0), (4, 1, 1, 3, 1), (4, 1, 1, 4, 0), (8, 2, 4, 0, 1), (8, 2, 2, 4, 1)) + (() if q else ((8, 8, 4, 0, 0), (16, 4, 4, 1, 1), (64, 2, 64, 0, 1), (128, 2, 64, 1, 1))):
        js.append(J('h_force.cpp', 'force-n%d-bs%d-dev%d-lazy%d' % (n, bs, dev, lazy), engine=5, n=n, nsym=ns, bs=bs, dev=dev, lazy=lazy, expect=['force evaluated'], bounds='%d bodies, %d symbolic' % (n, ns), **o))
    ex = ['program run']
    for dev, lazy, bs in ((0, 1, 2), (1, 1, 2), (2, 1, 2), (3, 1, 1), (4, 1, 1), (3, 0, 1), (4, 0, 1)):
        for prog in (0, 1, 2, 3):
            if q and lazy == 0 and prog in (2, 3): continue
            js.append(J('h_ocl.cpp', 'program%d-dev%d-lazy%d' % (prog, dev, lazy), engine=5, n=4, prog=prog, dev=dev, lazy=lazy, bs=bs, expect=ex, bounds='4 bodies, program %d' % prog, _seconds=40 if q else 300, **o))
    for dev in (0, 1, 2, 4): js.append(J('h_ocl.cpp', 'norm-dev%d' % dev, engine=5, n=8 if dev == 4 else 4, prog=2, norm=1, dev=dev, bs=2 if dev == 4 else 1, expect=ex, bounds='norm of a device-made operand', _seconds=40, **o))
    for dev, n in ((0, 2), (1, 4), (2, 4), (4, 4)):
        js.append(J('h_bits.cpp', 'state-dev%d' % dev, 'fp', engine=5, n=n, what=0, dev=dev, bs=1 if dev == 4 else 2, expect=['done'], bounds='%d bodies, all bit patterns' % n, **o))
        js.append(J('h_bits.cpp', 'transfer-dev%d' % dev, 'fp', engine=5, n=n, what=1, dev=dev, bs=1 if dev == 4 else 2, expect=['done'], bounds='all bit patterns', **o))
        js.append(J('h_buf.cpp', 'algebra-dev%d' % dev, engine=5, n=n, k=3 if dev else 2, dev=dev, bs=1 if dev == 4 else 2, lazy=int(dev != 2), expect=['elementary operations', 'linear combinations'], bounds='%d elements, all contents and coefficients symbolic' % (6 * n), **o))
    for ver in (110, 200, 300): js.append(J('h_force.cpp', 'force-version%d' % ver, engine=5, n=4, nsym=1, bs=2, dev=0, clver=ver, expect=['force evaluated'], bounds='4 bodies, device of OpenCL %d.%d' % (ver // 100, ver // 10 % 10), **o))
    for dev, n, bs in ((0, 2, 1), (1, 4, 2), (2, 4, 1)):
        js.append(J('h_bits.cpp', 'maxnorm-dev%d' % dev, 'fp', engine=5, n=n, what=2, live=3, dev=dev, bs=bs, expect=['done'], bounds='3 symbolic elements', _seconds=60 if q else 300, **o))
        js.append(J('h_bits.cpp', 'kahan-dev%d' % dev, 'fp', engine=5, n=n, what=3, at=3 * dev, dev=dev, bs=bs, expect=['done'], bounds='one element symbolic', **o))
        js.append(J('h_clamp.cpp', 'clamp-dev%d' % dev, engine=5, n=n, live=2, first=dev, own=dev % 2, dev=dev, bs=bs, expect=['done', 'wrapped down', 'wrapped up', 'kept'], bounds='2 symbolic coordinates', **o))
    return js

@prop('P27', title='The OpenCL Barnes-Hut engine agrees with the tree rules, built or updated',
  statement='For every configuration the OpenCL Barnes-Hut engine gives the accelerations of the CPU heap engine with the same opening ratio, whatever the layout (stack or stackless), the traversal (by body or by leaf), the number of devices and contexts, and whether its tree was just built or was updated on the devices since; with a large ratio they are the direct softened sum. This holds for every body count the work group size allows, and no kernel races or leaves its buffers.',
  quantifier=dict(over=['inputs', 'configurations', 'histories', 'schedules'], text='2..12 bodies (powers of two or not) with one moving body, 1, 2 or 4 devices in 1 or 2 contexts, 2 layouts, 2 traversals, 1 to 3 evaluations with build rates 0..5'),
  why='No test exercises the engine; the device-side tree update has its own level arithmetic that only matters at particular body counts.',
  files=['nbody/nbody_engine_opencl.cpp', 'nbody/nbody_engine_opencl_bh.cpp', 'nbody/nbody_engine_opencl.cl', 'nbody/nbody_space_heap.cpp', 'nbody/nbody_space_heap_func_priv.h'], mech=[('rebuild_tree/update_tree', 'nbody/nbody_engine_opencl.cpp'), ('ComputeTreeBH*, ComputeHeapBH*, Update*BH', 'nbody/nbody_engine_opencl.cl')], observe=['fcompute result buffers'],
  explanation='kernels and host code executed symbolically on the OpenCL model next to the CPU heap engine on the same symbolic state; equality decided per path')
def p27(tier):
    js = []; q = quick(tier); sec = 14 if q else 400; ex = ['force evaluated']; o = dict(_opencl=True, _qtimeout=4000, _ftimeout=1500)
    for l in (1, 2):
        for t in (0, 1):
            k = 2 * (l - 1) + t
            for n, bs, dev, rate, rounds in ((3, 1, 0, 0, 1), (4, 2, 1, 5, 2), (6, 2, 0, 3, 2), (6, 1, 1, 4, 3), (8, 2, 2, 5, 2), (4, 1, 3, 2, 2), (4, 1, 4, 5, 2), (5, 1, 0, 4, 2), (12, 4, 0, 5, 2)):
                js.append(J('h_bhrel.cpp', 'cpu-%s-%s-n%d-dev%d-rate%d' % (LAYS[l], TRVS[t], n, dev, rate), ea=4, la=1, ta=0, eb=6, lb=l, tb=t, n=n, bs=bs, dev=dev, rate=rate, rounds=rounds, ratio10=(5, 15, 8, 30)[(k + n) % 4], who=(n // 2 + k) % n, jump=k % 2, lazy=int((k + n) % 3 > 0), twins=int(n == 5), expect=ex, bounds='%d bodies, one moving' % n, _seconds=sec, **o))
            for n, bs, dev, rate, rounds in ((4, 2, 0, 0, 1), (6, 1, 1, 4, 2)):
                js.append(J('h_bhrel.cpp', 'direct-%s-%s-n%d-dev%d' % (LAYS[l], TRVS[t], n, dev), ea=6, la=l, ta=t, n=n, bs=bs, dev=dev, rate=rate, rounds=rounds, direct=1, ratio10=10000000, who=n - 1, jump=1, expect=ex, bounds='%d bodies, one moving' % n, _seconds=sec, **o))
            js.append(J('h_bh.cpp', 'rules-%s-%s' % (LAYS[l], TRVS[t]), engine=6, n=4, layout=l, traverse=t, who=1 << k, axes=1 << k % 3, ratio10=15, pattern=1, bs=2, dev=k % 3, moved=k % 2, rate=3, jump=1, expect=ex, bounds='4 bodies in two clusters', _seconds=sec, **o))
            js.append(J('h_bhrel.cpp', 'cpu-%s-%s-n192' % (LAYS[l], TRVS[t]), ea=4, la=1, ta=0, eb=6, lb=l, tb=t, n=192, bs=64, dev=0, rate=3, rounds=2, ratio10=20, who=0, axes=0, jump=1, expect=ex, bounds='192 bodies, symbolic velocity', _seconds=sec, **o))
    for ver, l, t in ((110, 2, 0), (200, 2, 0), (200, 2, 1), (300, 1, 0)): js.append(J('h_bhrel.cpp', 'version%d-%s-%s' % (ver, LAYS[l], TRVS[t]), ea=4, la=1, ta=0, eb=6, lb=l, tb=t, n=6, bs=2, dev=0, rate=0, rounds=1, ratio10=8, who=2, jump=1, clver=ver, expect=ex, bounds='6 bodies, device of OpenCL %d.%d' % (ver // 100, ver // 10 % 10), _seconds=sec, **o))
    for dev in (1, 2): js.append(J('h_ocl.cpp', 'program1-dev%d' % dev, engine=6, n=4, prog=1, dev=dev, bs=2, rate=3, layout=dev - 1, traverse=dev % 2, expect=['program run'], bounds='4 bodies, step and two evaluations', _seconds=sec, **o))
    for dev in (1, 2): js.append(J('h_ocl.cpp', 'program3-dev%d' % dev, engine=6, n=4, prog=3, dev=dev, bs=2, rate=0, layout=2 - dev, traverse=dev % 2, expect=['program run'], bounds='4 bodies, device-made state', _seconds=sec, **o))
    return js

@prop('P26', title='The command line yields exactly the configuration asked for',
  statement='For every documented engine and solver name, the program builds an object of that kind, with the step limits, tolerances, ranks, refinement counts, ratios and switches given, whether they come as typed values or as --key=value arguments in any order among unrelated arguments; its behaviour is the one configured. An unknown engine, solver, starter, tree layout or traversal name yields no object instead of some default one, and an object that was never used is destroyed safely.',
  quantifier=dict(over=['configurations', 'inputs'], text='16 solver names, 7 CPU engine variants, 13 wrong names in 5 places; numeric options symbolic (all values in their range), typed or as arguments in two orders'),
  why='Tests build each object with a handful of literal parameters; an option that is misspelt, ignored, truncated or swapped with another passes them.',
  files=['nbody/nbody_engines.cpp', 'nbody/nbody_solvers.cpp', 'nbody/nbody_arg_parser.cpp', 'nbody/nbody_solver*.cpp'], mech=[('nbody_create_engine/nbody_create_solver', 'nbody/nbody_engines.cpp, nbody/nbody_solvers.cpp'), ('nbody_parse_arguments', 'nbody/nbody_arg_parser.cpp')], observe=['type and behaviour of the created objects'],
  explanation='factories and argument parser executed with symbolic choices and option values; objects built from the command line go through the same behavioural oracles as the typed ones')
def p26(tier):
    js = []; q = quick(tier)
    for cli in (0, 1, 2):
        js.append(J('h_factory.cpp', 'solvers-cli%d' % cli, what=0, cli=cli, expect=['solver made'], bounds='all 16 names, symbolic step limits'))
        js.append(J('h_factory.cpp', 'engines-cli%d' % cli, what=1, cli=cli, expect=['engine made'], bounds='all CPU engines and layouts'))
        js.append(J('h_factory.cpp', 'unknown-cli%d' % cli, what=2, cli=cli, expect=['refused'], bounds='13 wrong names in 5 places'))
    for cli in (1, 2):
        js.append(J('h_rk.cpp', 'rkck-cli%d' % cli, kind=0, maxrec=1, steps=1, cli=cli, expect=['steps done'], bounds='recursion, threshold, minimum step symbolic', _seconds=60))
        js.append(J('h_rk.cpp', 'rkgl-cli%d' % cli, kind=7, cli=cli, refine=2, expect=['steps done'], bounds='refinement count'))
        js.append(J('h_rk.cpp', 'rkf-corr-cli%d' % cli, kind=3, corr=1, cli=cli, expect=['steps done'], bounds='correction'))
        js.append(J('h_step.cpp', 'adams-cli%d' % cli, cli=cli, kind=5, rank=2 + cli, steps=4 + cli, starter=1, corr=cli - 1, expect=['steps done'], bounds='rank, starter, correction'))
        js.append(J('h_step.cpp', 'trapeze-cli%d' % cli, cli=cli, kind=4, refine=1 + cli, expect=['steps done'], bounds='refinement count'))
        js.append(J('h_ah.cpp', 'ah-cli%d' % cli, n=2, cli=cli, symlim=1, rate=1 + cli, expect=['force evaluated'], bounds='symbolic distance and force limits', _seconds=60))
        js.append(J('h_run.cpp', 'run-cli%d' % cli, cli=cli, clamp=1, expect=['run finished'], bounds='step, end time and intervals symbolic', _seconds=100))
    for opt, ms in ((0, (0, 3, 6)), (1, (1, 2, 4, 5)), (2, (0,)), (3, (0, 1)), (4, (0,))):
        for m in ms: js.append(J('h_factory.cpp', 'work-opt%d-%d' % (opt, m), what=3, opt=opt, method=m, cli=(opt + m) % 3, expect=['counted'], bounds='option values 0..20 (levels 3..12)'))
    js.append(J('h_bs.cpp', 'bs-cli', cli=1, level=4, bounds='level, tolerance', _seconds=60))
    for l in range(3): js.append(J('h_bh.cpp', 'bh-%s-cli' % LAYS[l], n=3, layout=l, traverse=l % 2, cli=1 + l % 2, symratio=1, expect=['force evaluated'], bounds='symbolic opening ratio', _seconds=30 if q else 300))
    return js

@prop('P28', title='Generated galaxies are what was asked for',
  statement='A generated galaxy has the requested number of bodies rounded up to whole blocks, whose masses add up to the requested mass with 99.9% of it in a central body that sits at the centre and moves with the galaxy. All other bodies have equal mass and the requested colour, lie within the requested radius (flattened along the axis) and turn the same way with the speed of a circular orbit around the mass they enclose; bodies already present are kept. The generated universe replaces what was there by two such galaxies on opposite sides of the middle of the box, with opposite velocities.',
  quantifier=dict(over=['inputs'], text='all centres, velocities, radii (1..1000), masses (1..1e6) and box extents (2..1000); 1..130 bodies per galaxy, every star or every ninth star checked'),
  why='Tests only count bodies and look at the total momentum of one generated data set.',
  files=['nbody/nbody_data.cpp'], mech=[('add_galaxy/make_universe', 'nbody/nbody_data.cpp')], observe=['nbody_data contents'],
  explanation='generator executed with symbolic parameters; mass, geometry and speed relations decided over the reals')
def p28(tier):
    js = []; q = quick(tier); ex = ['done']
    for c, st in ((5, 9), (64, 17), (65, 31), (1, 13)) + (() if q else ((100, 1), (130, 5))):
        js.append(J('h_galaxy.cpp', 'galaxy-%d' % c, count=c, stride=st, what=0, expect=ex, bounds='%d bodies, every %d. star' % (c, st), _seconds=120 if q else 900))
    for c, st in ((5, 9), (70, 41)) + (() if q else ((64, 3),)): js.append(J('h_galaxy.cpp', 'universe-%d' % c, count=c, stride=st, what=1, expect=ex, bounds='2x%d bodies' % c, _seconds=120 if q else 900))
    return js

@prop('P29', title='A resumed run continues like an uninterrupted one',
  statement='Stopping a run after any step and resuming it from its stream (last stored frame, appending) leaves the same sequence of frames - number, steps, times and states - as a run that was never interrupted, for one-step methods (Euler, midpoint, Runge-Kutta) and whatever the right-hand side. Masses and the box size survive, so a run that wraps positions keeps wrapping into the same box.',
  quantifier=dict(over=['histories', 'crash_points', 'programs', 'inputs'], text='stopped at every step behind the first stored frame of runs of up to 8 steps, once or twice resumed, arbitrary right-hand side and state, Euler, midpoint and Runge-Kutta, dump intervals 1..3 steps, small and large parts'),
  why='No test resumes a run; a frame lost, repeated or restored at another time only shows when two whole runs are compared.',
  files=['nbody/nbody_solver.cpp', 'nbody/nbody_data_stream.cpp', 'nbody/nbody_data_stream_reader.cpp', 'nbody/nbody_data.cpp', 'test/main/main.cpp'], mech=[('run', 'nbody/nbody_solver.cpp'), ('open for append', 'nbody/nbody_data_stream.cpp'), ('read', 'nbody/nbody_data_stream_reader.cpp')], observe=['frames of the resumed and the uninterrupted stream'],
  explanation='both runs executed on real files with an uninterpreted force; the frames found by the real reader are compared')
def p29(tier):
    js = []; q = quick(tier); ex = ['compared', 'frame of the resumed part']
    for k, kw in ((0, {}), (0, dict(n=2, live=3, every=1)), (0, dict(resumes=2, steps=7, every=2, part=96)), (1, dict(every=3, steps=8)), (3, dict(steps=4, every=2)), (0, dict(clamp=1, live=1)), (1, dict(clamp=1, live=1, every=1, steps=3))) + (() if q else ((3, dict(steps=7, every=3, part=50)), (1, dict(steps=8, every=2, resumes=3)))):
        js.append(J('h_resume.cpp', 'resume-%d-%s' % (k, '-'.join('%s%s' % x for x in sorted(kw.items())) or 'default'), kind=k, expect=ex, bounds='up to 8 steps', _seconds=100 if q else 600, **kw))
    return js

@prop('P31', title='The player shows every body where it is, in its colour',
  statement='A painted frame consists of four panes that tile the picture and meet at the split point; each pane that is not empty shows every body of the frame exactly once at its position, undistorted, with a camera that looks at the middle of the scene from the side the pane stands for, at a distance of the box diagonal times the scale. The box is the bounding box of the first frame widened by half its extent on every side, and is outlined by its twelve edges when asked for. Bodies add the light of their stored colour, or of the colour of their speed (from blue over green and yellow to red, in three equal ranges up to the velocity extent of the first frame), times the intensity; with a stereo base, each pane shows the bodies once in red and once in cyan from two points that lie that many thousandths of the viewing distance to the right and to the left. No body makes the view read outside its colour table, and step, time and body count of the frame are shown. A double click inside a pane makes that pane fill the picture, and the next one anywhere brings the four panes back.',
  quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all positions (up to 100), colours and scales (0.25..4) of 2..4 bodies; velocities anywhere in three ranges; split point anywhere in the middle 80% or at an edge; several window sizes, stereo bases, intensities; window, image and paint-device output; one or two frames; double clicks anywhere off the dividing lines in windows of up to 4000 by 4000'),
  why='No test runs the view (it needs an OpenGL screen); colour table limits and degenerate frames show only for particular velocities.',
  files=['player/wgt_nbody_view.cpp'], mech=[('paintGL, setup_view_box, setup_projection, get_color', 'player/wgt_nbody_view.cpp'), ('mouseDoubleClickEvent', 'player/wgt_nbody_view.cpp')], observe=['OpenGL and painter calls'],
  explanation='the view is executed symbolically on stand-ins for widget, painter and OpenGL that record what is drawn in which view; the recorded points, colours and cameras are compared with the geometry of the frame')
def p31(tier):
    js = []; q = quick(tier); o = dict(_ui=('wgt_nbody_view',)); ex = ['painted']
    def v(name, exp=ex, **k): js.append(J('h_view.cpp', name, expect=exp, bounds='%d bodies' % k.get('n', 2), **dict(dict(o, _seconds=60 if q else 400), **k)))
    v('plain'); v('box', box=1); v('frames', box=1, frames=2); v('bodies4', n=4, nsym=4)
    v('split-x', symsplit=1, w=640, hh=480); v('split-y', symsplit=2, w=640, hh=480); v('edge-a', sx100=0, sy100=100); v('edge-b', sx100=100, sy100=0, box=1); v('edge-c', sx100=0, sy100=0); v('tall', w=256, hh=1024, sx100=25, sy100=75)
    v('image', image=1); v('window', image=2, w=800, hh=600, box=1)
    v('intensity', inten=100, size=3, nsym=1); v('stereo', stereo=30); v('stereo-dim', stereo=100, inten=128, sx100=25); v('stereo-frames', stereo=1, frames=2, n=3, nsym=3)
    for dr in (0, 5, 21, 28, 90): v('speed-drift%d' % dr, ['painted'] + (['graded colour'] if dr < 90 else []), n=3, speed=1, symvel=1, sympos=0, drift=dr)
    v('speed-frames', n=3, speed=1, symvel=1, sympos=0, drift=22, frames=2); v('speed-rest', speed=1, rest=1, sympos=0); v('speed-same', speed=1, rest=2, sympos=0)
    js.append(J('h_click.cpp', 'click', symsize=1, expect=['clicked'], bounds='three double clicks', **o))
    if not q: v('bodies8', n=8, nsym=8, box=1, frames=3); v('speed-n5', n=5, speed=1, symvel=1, sympos=0, drift=20)
    return js

@prop('P32', title='The CUDA engines compute what the CPU engines compute',
  statement='On one GPU or a power-of-two number of GPUs, with peer copies or NCCL, the cuda engine yields the softened gravitation sum and the buffer algebra of the reference engine, and hands state in and out unchanged; the cuda_bh and cuda_bh_tex engines (stack and stackless) yield the accelerations of the CPU heap engine with the same opening ratio, whether the tree was just built or was updated on the devices since, and the direct sum for a large ratio. No kernel or copy races with another, leaves its buffers, or touches memory of the host or of another device. Body counts are whole blocks per GPU (which add_galaxy guarantees).',
  quantifier=dict(over=['inputs', 'configurations', 'schedules', 'histories'], text='64..256 bodies in whole blocks with one symbolic body (or one symbolic element); 1, 2 or 4 GPUs, several lists, with and without NCCL; commands run at once or as late as allowed; block sizes 16..64; build rates 0..5'),
  why='No test runs on a GPU here; races between devices and the level arithmetic of the device-side tree update show only for particular schedules and body counts.',
  files=['nbody/nbody_engine_cuda.cpp', 'nbody/nbody_engine_cuda_impl.cu', 'nbody/nbody_engine_cuda_memory.cpp', 'nbody/nbody_engine_cuda_bh.cpp', 'nbody/nbody_engine_cuda_bh_tex.cpp', 'nbody/nbody_engines.cpp'], mech=[('kernels', 'nbody/nbody_engine_cuda_impl.cu'), ('synchronize_y/f/sum', 'nbody/nbody_engine_cuda.cpp'), ('tree build and update', 'nbody/nbody_engine_cuda_bh.cpp, nbody/nbody_engine_cuda_bh_tex.cpp')], observe=['buffers read back'],
  assumptions=['CUDA and NCCL are models (engine/cudart.cpp): streams, waits, block-wise threads with barriers, peer copies, textures and collectives as documented by NVIDIA; device arithmetic is IEEE double without contraction. Counterexamples are replayed on the uninstrumented code on the same model, since no GPU or CUDA toolkit exists here.'],
  explanation='host code and kernels (launch syntax turned into calls) executed symbolically on the CUDA model next to the reference formulas or the CPU engine; accesses checked against the order that streams, events and barriers guarantee')
def p32(tier):
    js = []; q = quick(tier); o = dict(_opencl='cuda', _qtimeout=4000, _ftimeout=1500); oc = dict(o, _opencl='nccl'); sec = 12 if q else 300
    fe = ['force evaluated']
    js.append(J('h_force.cpp', 'contact', engine=7, n=64, nsym=0, line=1, bs=64, dev=0, expect=fe, bounds='64 bodies, one moving through the others', **o))
    for n, bs, dev, lazy in ((64, 64, 0, 0), (128, 32, 1, 1), (128, 64, 2, 0), (128, 16, 4, 0)) + (() if q else ((256, 64, 1, 0), (192, 64, 0, 1), (512, 64, 3, 0))):
        js.append(J('h_force.cpp', 'force-n%d-bs%d-dev%d-lazy%d' % (n, bs, dev, lazy), engine=7, n=n, nsym=1, bs=bs, dev=dev, lazy=lazy, expect=fe, bounds='%d bodies, 1 symbolic' % n, **o))
    for lazy in (0, 1): js.append(J('h_force.cpp', 'force-line-dev3-lazy%d' % lazy, engine=7, n=256, nsym=0, line=3 - lazy, bs=64, dev=3, lazy=lazy, expect=fe, bounds='256 bodies, 1 moving', **o))
    for n, dev, lazy in ((128, 1, 1), (256, 3, 0)): js.append(J('h_force.cpp', 'force-nccl-n%d-dev%d' % (n, dev), engine=7, n=n, nsym=0, line=2, bs=64, dev=dev, lazy=lazy, nccl=1, expect=fe, bounds='%d bodies, 1 moving' % n, **oc))
    ex = ['program run']
    for prog, dev, lazy, kw in ((0, 1, 1, {}), (1, 2, 0, dict(few=1)), (2, 1, 0, {}), (2, 2, 1, dict(few=1, norm=1)), (3, 1, 0, dict(few=1, at=5)), (3, 2, 1, dict(few=1, at=200)), (3, 0, 1, dict(few=1, at=70)), (2, 0, 1, {})):
        js.append(J('h_ocl.cpp', 'program%d-dev%d-lazy%d' % (prog, dev, lazy), engine=7, n=128, prog=prog, dev=dev, lazy=lazy, bs=64, expect=ex, bounds='128 bodies, program %d' % prog, _seconds=60 if q else 400, **dict(o, **kw)))
    js.append(J('h_ocl.cpp', 'program3-nccl', engine=7, n=128, prog=3, few=1, at=300, dev=1, lazy=0, bs=64, nccl=1, expect=ex, bounds='128 bodies, program 3', _seconds=60 if q else 400, **oc))
    for dev, n in ((0, 64), (1, 128)):
        js.append(J('h_bits.cpp', 'state-dev%d' % dev, 'fp', engine=7, n=n, what=0, dev=dev, bs=64, lazy=dev, expect=['done'], bounds='%d bodies, all bit patterns' % n, **o))
        js.append(J('h_bits.cpp', 'transfer-dev%d' % dev, 'fp', engine=7, n=n, what=1, dev=dev, bs=64, lazy=1 - dev, expect=['done'], bounds='all bit patterns', **o))
        js.append(J('h_bits.cpp', 'kahan-dev%d' % dev, 'fp', engine=7, n=n, what=3, at=3 * dev, dev=dev, bs=64, expect=['done'], bounds='one element symbolic', **o))
        js.append(J('h_bits.cpp', 'maxnorm-dev%d' % dev, 'fp', engine=7, n=n, what=2, live=1 + dev, off=1, dev=dev, bs=64, expect=['done'], bounds='2 symbolic elements', _seconds=30 if q else 300, **o))
        js.append(J('h_clamp.cpp', 'clamp-dev%d' % dev, engine=7, n=n, live=2, first=dev, dev=dev, bs=64, expect=['done', 'wrapped down', 'wrapped up', 'kept'], bounds='2 symbolic coordinates', _seconds=40 if q else 200, **o))
    js.append(J('h_buf.cpp', 'algebra', engine=7, n=64, k=2, dev=0, bs=64, lazy=1, expect=['elementary operations', 'linear combinations'], bounds='384 elements, all contents and coefficients symbolic', _seconds=60 if q else 400, **o))
    for e, l in ((8, 1), (9, 1), (9, 2)):
        k = e + l - 9
        for n, bs, dev, rate, rounds, kw in ((64, 64, 0, 0, 1, {}), (128, 32, 1, 5, 2, {}), (192, 64, 0, 3, 2, dict(axes=0)), (256, 64, 3, 4, 1 if q else 2, dict(axes=0, _run_timeout=100)), (448, 64, 0, 2, 2, dict(axes=0))):
            if q and n > 200 and k != (0 if n == 256 else 2): continue
            js.append(J('h_bhrel.cpp', '%s-%s-n%d-dev%d-rate%d' % (('bh', 'tex')[e - 8], LAYS[l], n, dev, rate), ea=4, la=1, ta=0, eb=e, lb=l, n=n, bs=bs, dev=dev, rate=rate, rounds=rounds, ratio10=(5, 15, 8)[(k + n // 64) % 3], who=(n // 2 + k) % n, jump=k % 2, lazy=(k + n // 64) % 2, expect=fe, bounds='%d bodies, one moving' % n, _seconds=sec if n < 200 else 80, **dict(o, **kw)))
        js.append(J('h_bhrel.cpp', '%s-%s-nccl' % (('bh', 'tex')[e - 8], LAYS[l]), ea=4, la=1, ta=0, eb=e, lb=l, n=128, bs=64, dev=1, rate=3, rounds=2, nccl=1, ratio10=15, who=77, axes=0, jump=1, lazy=k % 2, expect=fe, bounds='128 bodies, symbolic velocity', _seconds=sec, **oc))
        js.append(J('h_bhrel.cpp', 'direct-%s-%s' % (('bh', 'tex')[e - 8], LAYS[l]), ea=e, la=l, n=64, bs=64, dev=0, rate=4, rounds=2, direct=1, ratio10=10000000, who=63, jump=1, expect=fe, bounds='64 bodies, one moving', _seconds=sec, **o))
    for e in (8, 9): js.append(J('h_ocl.cpp', 'program1-engine%d' % e, engine=e, n=128, prog=1, few=1, dev=e - 7, bs=64, rate=3, layout=e - 8, lazy=1, expect=ex, bounds='128 bodies, step and two evaluations', _seconds=60 if q else 400, **o))
    return js

NA = {
 'P33': dict(title='The player controls show and record the frame they stand for',
  statement='Moving the timeline, playing, stopping or recording shows or stores exactly the frames of the stream in order, and cancelling a recording leaves the player at the frame of the timeline.',
  quantifier=dict(over=['inputs', 'schedules'], text='all sequences of user actions'), why='Needs sequences of user events.',
  files=['player/wgt_nbody_player.cpp', 'player/wgt_nbody_player_control.cpp'], mech=[('slots', 'player/wgt_nbody_player_control.cpp')], observe=['widgets'],
  reason='the behaviour lives in the event loop, timers and signal dispatch of QtWidgets, which is a binary library here; with it replaced by stand-ins nothing of the property would be left in the encoded code'),
}

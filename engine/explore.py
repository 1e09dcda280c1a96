"""Path exploration of an instrumented harness: every feasible path within the bounds is executed on the real
code, its path condition and assertions become solver queries."""
import os, sys, time, subprocess, tempfile, random, hashlib, shutil, math, traceback
import multiprocessing as mp
import z3
from fractions import Fraction as Fr
from encode import *
import build

if hasattr(sys, 'set_int_max_str_digits'): sys.set_int_max_str_digits(0)   # exact rationals get long

class Job:
    def __init__(s, harness, mode='real', params=None, sources=None, opencl=False, max_paths=2000, seconds=200, qtimeout=8000, run_timeout=60, native='nat',
                 race=True, mem=True, expect=(), wraps=(), name=None, extra=(), crash='violation', bounds='', eager_seeds=0, flip=True, ftimeout=3000, fbudget=25, leak_ok=True, asan=True, ui=()):
        s.__dict__.update({k: v for k, v in locals().items() if k != 's'})
        s.params = dict(params or {}); s.name = name or (os.path.basename(harness).rsplit('.', 1)[0] + ''.join(',%s=%s' % kv for kv in sorted(s.params.items())))

def hexin(inp): return ''.join('%s %x\n' % kv for kv in inp.items())

_cl = {}
def clenv():
    if not _cl: _cl.update(build.clenv())
    return _cl

OCLGRIND = ('Invalid read', 'Invalid write', 'data race', 'divergence', 'Invalid memory', 'exceeded size')
def run_exe(exe, inp, params, trace=None, timeout=60, extra_env=None, prefix=()):
    d = tempfile.mkdtemp(prefix='sym', dir=os.environ.get('SYM_TMP', '/tmp'))
    try:
        with open(d + '/in', 'w') as f: f.write(hexin(inp))
        os.mkdir(d + '/scratch')
        env = {k: v for k, v in os.environ.items() if not k.startswith('SYM')}
        env.update({'SYM_INPUT': d + '/in', 'SYM_SCRATCH': d + '/scratch', 'HOME': d + '/scratch', 'QT_LOGGING_RULES': '', 'LC_ALL': 'C.UTF-8', 'OMP_NUM_THREADS': '4', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=66', 'QT_QPA_PLATFORM': 'offscreen'})
        if extra_env: env.update(extra_env)
        for k, v in params.items(): env['SYMP_' + k] = str(v)
        if trace: env['SYM_TRACE'] = trace
        with open(d + '/out', 'wb') as o:
            p = subprocess.Popen(list(prefix) + [exe], cwd=d + '/scratch', env=env, stdout=o, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.terminate()
                try: p.wait(5)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
                rc = 'timeout'
        with open(d + '/out', 'rb') as o:
            data = o.read(400000).decode(errors='replace')
        return rc, data
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------------------------------- one path
class PathRun:
    def __init__(self, job, exe, inp):
        self.job = job; self.stats = dict(queries=0, solver_s=0.0, unknown=0, sat=0, unsat=0)
        fd, tr = tempfile.mkstemp(prefix='symtr', dir=os.environ.get('SYM_TMP', '/tmp')); os.close(fd)
        try:
            self.rc, self.out = run_exe(exe, inp, job.params, tr, job.run_timeout, clenv() if job.opencl is True else None)
            self.tr = Trace(tr)
        finally: os.unlink(tr)
        self.inp = dict(inp)
        self.enc = RealEnc(self.tr) if job.mode == 'real' else FpEnc(self.tr)
        self.ranges = {}
        for n in self.tr.nodes.values():
            if n[0] in (81, 86): self.inp.setdefault(n[2], n[3])
    # ---- solving
    def names(self, e):
        c = self.__dict__.setdefault('_nm', {})
        i = e.get_id()
        if i in c: return c[i][0]
        out = set(); seen = set(); st = [e]
        while st:
            x = st.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if j in c: out |= c[j][0]; continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: st.extend(x.children())
        c[i] = (frozenset(out), e)
        return c[i][0]
    def cone(self, cons, extra):
        """the definitions and ranges that matter for these constraints"""
        if self.job.mode != 'real': return cons + extra
        by = {}
        for d in extra:
            ns = self.names(d)
            for n in ns: by.setdefault(n, []).append(d)
        need = set(); st = []
        for c in cons: st.extend(self.names(c))
        out = []; done = set()
        while st:
            n = st.pop()
            if n in need: continue
            need.add(n)
            for d in by.get(n, ()):
                if d.get_id() in done: continue
                # a definition belongs to its own variable; others only mention n
                own = self.enc.defown.get(d.get_id())
                if own is not None and own not in need: continue
                done.add(d.get_id()); out.append(d); st.extend(self.names(d))
            # definitions skipped earlier because their owner was not needed yet
        return cons + out
    def check(self, cons, timeout=None):
        s = z3.Solver(); s.set('timeout', timeout or self.job.qtimeout)
        for c in cons: s.add(c)
        t = time.time(); r = s.check(); dt = time.time() - t
        self.stats['queries'] += 1; self.stats['solver_s'] += dt; self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r, s
    def uses(self, lit):
        """input names a literal depends on"""
        if self.job.mode != 'real':
            out = set(); seen = set(); st = [lit]
            while st:
                e = st.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
                st.extend(e.children())
            return out
        out = set(); self._u(lit, out); return out
    def _u(self, x, out):
        if x.k in ('pos', 'eq'): self._up(x.a, out)
        elif x.k == 'not': self._u(x.a, out)
        elif x.k == 'and': self._u(x.a[0], out); self._u(x.a[1], out)
        elif x.k == 'z':
            st = [x.a]; seen = set()
            while st:
                e = st.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(('bv', e.decl().name()))
                st.extend(e.children())
    def _up(self, p, out):
        c = self.__dict__.setdefault('_dep', {})
        for m in p.t:
            for i, e in m:
                if i not in c:
                    s = set(); k = self.enc.A.kind[i]; c[i] = s
                    if k[0] in ('pw', 'relu'): self._up(k[1], s)
                    elif k[0] == 'ite': self._u(k[1], s); self._up(k[2], s)
                    elif k[0] in ('rnd', 'rt'): self._up(k[2], s)
                    elif k[0] == 'i2f': self._u(Bx('z', k[1] == 0, None), s)
                    else: s.add(i)
                out |= c[i]
    def lit_z3(self, l): return self.enc.zb(l) if self.job.mode == 'real' else l
    def rangecons(self, names=None):
        out = []
        for name, (node, ty, lo, hi) in self.ranges.items():
            if lo is None: continue
            if ty in (F32, F64):
                fl = f64 if ty == F64 else f32
                if self.job.mode == 'real':
                    i = self.enc.A.ix.get(('var', name))
                    if i is None: continue
                    v = self.enc.za(i)
                    out += [v >= z3.RealVal(Fr(fl(lo))), v <= z3.RealVal(Fr(fl(hi)))]
                else:
                    if name not in self.enc.vars: self.enc.get(node)
                    v, _ = self.enc.vars[name]; x = z3.fpBVToFP(v, self.enc.sort(ty))
                    out += [z3.fpGEQ(x, z3.FPVal(fl(lo), self.enc.sort(ty))), z3.fpLEQ(x, z3.FPVal(fl(hi), self.enc.sort(ty)))]
            else:
                v = z3.BitVec(name, ty)
                out += [z3.ULE(lo, v), z3.ULE(v, hi)] if True else []
        return out
    def ufbounds(self):
        """solver-chosen values of uninterpreted functions stay in a sane range"""
        out = []
        for i, k in enumerate(self.enc.A.kind):
            if k[0] == 'uf' and i in self.enc.zatom: out += [self.enc.zatom[i] >= -1000, self.enc.zatom[i] <= 1000]
        return out
    def base(self, names=None):
        r = self.rangecons(names)
        if self.job.mode == 'real': r += self.ufbounds() + list(self.enc.defs)
        else: r += list(self.enc.defs)
        return r
    def model_input(self, m, old, names=None):
        new = dict(old)
        def clamp(name, x):
            r = self.ranges.get(name)
            if r and r[2] is not None and r[1] in (F32, F64):
                fl = f64 if r[1] == F64 else f32
                x = min(max(x, fl(r[2])), fl(r[3]))
            return x
        def num(v):
            if z3.is_algebraic_value(v): v = v.approx(25)
            return Fr(v.numerator_as_long(), v.denominator_as_long())
        if self.job.mode == 'real':
            for i, name in self.enc.inputs.items():
                if i in self.enc.zatom and (names is None or i in names):
                    v = m.eval(self.enc.zatom[i], model_completion=False)
                    if z3.is_rational_value(v) or z3.is_algebraic_value(v):
                        x = clamp(name, float(num(v)))
                        ty = F64 if self.enc.A.kind[i][0] != 'var' else self.tr.nodes[self.enc.A.kind[i][2]][1]
                        new[name] = b64(x) if ty == F64 else b32(x)
            for name in self.enc.varnode:
                if names is not None and ('bv', name) not in names: continue
                v = m.eval(z3.BitVec(name, self.tr.nodes[self.enc.varnode[name]][1]), model_completion=False)
                if z3.is_bv_value(v): new[name] = v.as_long()
        else:
            for name, (v, ty) in self.enc.vars.items():
                if names is not None and name not in names: continue
                x = m.eval(v, model_completion=False)
                if z3.is_bv_value(x): new[name] = x.as_long()
        return new
    def pins(self, names):
        """v == current value, for generic models"""
        out = []
        if self.job.mode == 'real':
            for i, name in self.enc.inputs.items():
                if i in self.enc.zatom and (names is None or i in names):
                    v = self.enc.A.val[i]
                    if v == v and abs(v) != float('inf'): out.append(self.enc.zatom[i] == z3.RealVal(Fr(v)))
            for name in self.enc.varnode:
                if names is None or ('bv', name) in names:
                    n = self.tr.nodes[self.enc.varnode[name]]; out.append(z3.BitVec(name, n[1]) == n[3])
        else:
            for name, (v, ty) in self.enc.vars.items():
                if names is None or name in names: out.append(v == self.inp.get(name, 0))
        return out
    def solve_generic(self, cons, names, timeout=None):
        """satisfiable? returns (verdict, input) with as many inputs as possible kept at their current values"""
        r, s = self.check(cons, timeout)
        if r != z3.sat: return r, None
        best = s.model()
        pins = self.pins(names)
        random.Random(len(pins)).shuffle(pins)
        t0 = time.time()
        for _ in range(2*len(pins) + 1):
            if not pins or time.time() - t0 > 6: break
            s2 = z3.Solver(); s2.set('timeout', 2000)
            for c in cons: s2.add(c)
            t = time.time(); r2 = s2.check(*pins) ; self.stats['solver_s'] += time.time() - t; self.stats['queries'] += 1
            if r2 == z3.sat: best = s2.model(); break
            if r2 == z3.unsat:
                core = s2.unsat_core(); ids = {c.get_id() for c in core}
                if not ids: break
                drop = next((p for p in pins if p.get_id() in ids), None)
                if drop is None: break
                pins = [p for p in pins if p.get_id() != drop.get_id()]
            else: pins = pins[:len(pins)//2]
        return z3.sat, self.model_input(best, self.inp, names)

    # ---- rounding boundaries
    def margin(self, p):
        v = a = 0.0
        for m, c in p.t.items():
            t = float(c)
            for i, e in m:
                x = self.enc.A.val[i]
                try: t *= x**(e//2) if e % 2 == 0 else abs(x)**(e/2)
                except (ZeroDivisionError, OverflowError): return None
            v += t; a += abs(t)
        return v, a
    def onedge(self, x, taken=None, seen=None):
        """does a comparison sit on its boundary up to rounding, or disagree with its exact value?"""
        if x.k == 'not': return self.onedge(x.a, None if taken is None else not taken)
        if x.k == 'and': return self.onedge(x.a[0], True if taken else None) or self.onedge(x.a[1], True if taken else None)
        if x.k not in ('pos', 'eq'): return False
        m = self.margin(x.a)
        if m is None: return False
        v, a = m
        if v != 0 and abs(v) <= 1e-11*a: return True
        if taken is not None and a > 0:
            if x.k == 'pos' and (v > 0) != taken: return True
        return False
    def dubious(self):
        """the concrete run sits on a rounding boundary, where real arithmetic and doubles may part ways"""
        known = {}
        for p in self.tr.ev:
            if p[0] in 'BAK' and p[1] != '0':
                lit = self.enc.boolean(int(p[1]))
                if lit.k == 'const': continue
                if p[2] != '1': lit = bnot(lit)
                if bnot(lit).key in known: return True
                known[lit.key] = 1
                if self.onedge(lit, True): return True
            elif p[0] == 'C':
                if p[1] == 'bool' and p[2] != '%0' and p[3] != '1':
                    lit = self.enc.boolean(int(p[2][1:]))
                    if lit.k != 'const' and self.onedge(bnot(lit), True): return True
                for x in p[2:5]:
                    if x[:1] == '%' and x[1:].isdigit() and int(x[1:]) and p[1] == 'eq': self.enc.get(int(x[1:]))
        for k in list(self.enc.A.kind):
            if k[0] == 'ite' and self.onedge(k[1]): return True
        return False
    # ---- the work
    def run(self, bound, expect_sig):
        job, enc = self.job, self.enc
        res = dict(children=[], cands=[], labels={}, reached=set(), leaks=set(), notes=[], limits=[], undecided=[], diverged=False, asserts=0, structural=0, fns=self.tr.fns,
                   races=[], mems=[], sig=None, exe_rc=self.rc, complete=self.tr.complete, flips_unknown=0, npath=0, funcs=len(self.tr.fns), nodes=len(self.tr.nodes))
        path = []       # (lit, flippable, event)
        known = {}
        sigl = []
        asserts = []
        stop = None
        for p in self.tr.ev:
            k = p[0]
            if k == 'V':
                lo, hi = (None, None) if p[4] == 'any' else (int(p[4], 16), int(p[5], 16))
                self.ranges[p[2]] = (int(p[1]), int(p[3]), lo, hi)
            elif k in 'BAK':
                nid = int(p[1]); taken = p[2] == '1'
                if nid == 0: continue
                lit = enc.boolean(nid)
                if job.mode == 'real':
                    if lit.k == 'const': continue
                    if not taken: lit = bnot(lit)
                    if lit.key in known: continue
                    known[lit.key] = True
                else:
                    lit = z3.simplify(lit)
                    if z3.is_true(lit) or z3.is_false(lit): continue
                    if not taken: lit = z3.simplify(z3.Not(lit))
                    h = lit.get_id()
                    if h in known: continue
                    known[h] = lit
                path.append((lit, 0 if k == 'A' else 2 if k == 'K' else 1, ' '.join(p[3:])))
                sigl.append((p[3] if len(p) > 3 else '', p[2], nid))
            elif k == 'G':
                asserts.append((len(path), 'bool', [int(p[1])], p[2] == '1', 'index in bounds @ ' + ' '.join(p[4:])))
                if p[2] != '1': res['cands'].append(('array index out of bounds @ ' + ' '.join(p[4:]), dict(self.inp), 'concrete'))
            elif k == 'C':
                kind = p[1]
                if kind == 'bool': asserts.append((len(path), 'bool', [int(p[2][1:])], p[3] == '1', ' '.join(p[4:])))
                elif kind == 'eq': asserts.append((len(path), 'eq', [int(x[1:]) for x in p[2:5]], None, ' '.join(p[5:])))
                elif kind == 'rel': asserts.append((len(path), 'rel', [int(x[1:]) for x in p[2:4]] + [f64(int(p[4], 16))], None, ' '.join(p[5:])))
                elif kind == 'bits': asserts.append((len(path), 'bits', [int(x[1:]) for x in p[2:4]], None, ' '.join(p[4:])))
            elif k == 'Y': res['reached'].add(' '.join(p[1:]))
            elif k == 'L': res['leaks'].add(' '.join(p[2:]))
            elif k == 'T': res['notes'].append(' '.join(p[1:]))
            elif k == 'R': res['races'].append(' '.join(p[1:]))
            elif k == 'M': res['mems'].append(' '.join(p[1:]))
            elif k == 'X':
                msg = ' '.join(p[1:])
                if msg.startswith('assume'): stop = 'assume'
                elif msg.startswith('signal'):
                    if self.rc == 'timeout': res['cands'].append(('no termination within %d s' % job.run_timeout, dict(self.inp), 'concrete'))
                    else: res['cands'].append(('crash (%s)' % msg, dict(self.inp), 'concrete'))
                    res['limits'].append(msg)
                else: res['limits'].append(msg)
        if not self.tr.complete: res['limits'].append('trace incomplete rc=%s' % self.rc)
        elif isinstance(self.rc, int) and self.rc != 0 and stop is None and not res['limits']:
            res['cands'].append(('abnormal exit %s' % self.rc, dict(self.inp), 'concrete'))
        res['npath'] = len(path)
        res['sig'] = hashlib.sha256(repr([(s, t) for s, t, _ in sigl]).encode()).hexdigest()
        pre = hashlib.sha256(repr([(s, t) for s, t, _ in sigl[:bound]]).encode()).hexdigest()
        if expect_sig is not None and pre != expect_sig: res['diverged'] = True
        if job.race:
            for r in res['races']: res['cands'].append(('data race: ' + r, dict(self.inp), 'race'))
        if job.mem:
            for r in res['mems']: res['cands'].append(('memory error: ' + r, dict(self.inp), 'mem'))
        # ---- assertions
        failed = set()
        for pos, kind, ids, cv, label in asserts:
            # plainly false on this very run: no need to ask the solver about the same assertion elsewhere on the path
            if kind == 'bits' and job.mode != 'real' and label not in failed and self.tr.nodes[ids[0]][3] != self.tr.nodes[ids[1]][3]: failed.add(label); res['cands'].append((label, dict(self.inp), 'concrete'))
        for pos, kind, ids, cv, label in asserts:
            if label in failed: res['labels'][label] = res['labels'].get(label, 0) + 1; res['asserts'] += 1; continue
            res['labels'][label] = res['labels'].get(label, 0) + 1; res['asserts'] += 1
            if time.time() > self.end + min(15, job.seconds/2): res['undecided'].append(label); continue
            if ncand(res, label) >= 12: res['undecided'].append(label); continue   # enough to replay
            try: self.decide(path[:pos], kind, ids, cv, label, res)
            except TooBig: res['undecided'].append(label + ' (too big)')
        self.flush(res)
        # ---- flips
        if job.flip:
            deps = [self.uses(l) for l, _, _ in path]
            dup = {}
            t0 = time.time()
            order = list(range(bound, len(path)))
            if len(order) > 60:
                # long path conditions: spread the effort evenly over them
                k = -(-len(order)//40); order = [x for r in range(k) for x in order[r::k]]
            for i in order:
                lit, flippable, site = path[i]
                if not flippable: continue
                if time.time() - t0 > job.fbudget or time.time() > self.end: res['flips_unknown'] += 1; continue
                # slice
                need = set(deps[i]); idx = []
                rest = list(range(i)); changed = True
                while changed:
                    changed = False
                    for j in list(rest):
                        if deps[j] & need: need |= deps[j]; idx.append(j); rest.remove(j); changed = True
                pre = [path[j][0] for j in sorted(idx)]
                if flippable == 2:
                    # a concretised index or size: every other feasible value becomes a path of its own
                    base = [enc.zb(x) for x in pre] if job.mode == 'real' else pre
                    neg = enc.zb(bnot(lit)) if job.mode == 'real' else z3.Not(lit)
                    ke = self.conc_term(sigl[i][2]); excl = []
                    while True:
                        if len(excl) >= 40 or time.time() - t0 > job.fbudget or time.time() > self.end: res['flips_unknown'] += 1; break
                        r0, s0 = self.check((self.cone(base + [neg] + excl, self.base()) if job.mode == 'real' else base + [neg] + excl + self.base()), job.ftimeout)
                        if r0 == z3.unsat: break
                        if r0 != z3.sat: res['flips_unknown'] += 1; break
                        m = s0.model()
                        res['children'].append((self.model_input(m, self.inp, need or None), i + 1, None, site))
                        excl.append(ke != m.eval(ke, model_completion=True))
                    continue
                if job.mode == 'real':
                    neg = bnot(lit)
                    zp = [enc.zb(x) for x in pre]
                    variants = []
                    q = neg.a if neg.k == 'not' else neg
                    if q.k == 'pos':
                        d = enc.zpoly(q.a); mc = q.a.maxc()
                        for mg in (Fr(1, 8), Fr(1, 1024)):
                            g = z3.RealVal(mg*max(mc, 1))
                            variants.append(d <= -g if neg.k == 'not' else d >= g)
                    variants.append(enc.zb(neg))
                    verdict = None
                    # exact first when unsat is likely
                    r0, s0 = self.check(self.cone(zp + [variants[-1]], self.base()), job.ftimeout)
                    if r0 == z3.unsat: continue
                    newin = None
                    if r0 == z3.sat:
                        for v in variants:
                            verdict, newin = self.solve_generic(self.cone(zp + [v], self.base()), need, job.ftimeout)
                            if verdict == z3.sat: break
                        if newin is None: newin = self.model_input(s0.model(), self.inp, need or None)
                    else: res['flips_unknown'] += 1
                else:
                    cons = pre + [z3.Not(lit)] + self.base()
                    verdict, newin = self.solve_generic(cons, need)
                    if verdict == z3.unknown: res['flips_unknown'] += 1
                if newin is not None:
                    s2 = sigl[:i] + [(sigl[i][0], '0' if sigl[i][1] == '1' else '1', 0)]
                    res['children'].append((newin, i + 1, hashlib.sha256(repr([(s, t) for s, t, _ in s2]).encode()).hexdigest(), site))
        res['stats'] = self.stats; res['unsupported'] = dict(enc.unsupported)
        return res

    def conc_term(self, nid):
        t = self.enc.get(self.tr.nodes[nid][4][0])
        return t if isinstance(t, z3.ExprRef) else self.enc.zb(t) if isinstance(t, Bx) else self.enc.zpoly(t)

    def flush(self, res):
        """one query per assertion whose two sides have the same normal form: some residual exceeds rounding?"""
        tv = self.__dict__.get('triv')
        if tv:
            r, _ = self.check([z3.Or(tv)])
            if r != z3.unsat: res['undecided'].append('batch of identical terms')
        b = self.__dict__.get('batch')
        if not b: return
        s = z3.SolverFor('QF_LRA'); s.set('timeout', self.job.qtimeout); xs = {}
        t = time.time()
        for d, tol in b:
            s.push(); terms = []
            for m, c in d.t.items():
                if m not in xs: xs[m] = z3.Real('m%d' % len(xs))
                s.add(xs[m] >= -1, xs[m] <= 1); terms.append(z3.RealVal(c)*xs[m])
            e = z3.Sum(terms) if terms else z3.RealVal(0)
            s.add(z3.Or(e > z3.RealVal(tol), e < -z3.RealVal(tol)))
            r = s.check(); s.pop()
            self.stats['queries'] += 1; self.stats[str(r)] = self.stats.get(str(r), 0) + 1
            if r != z3.unsat: res['undecided'].append('residual rounding')
        self.stats['solver_s'] += time.time() - t
    # ---- assertion decision
    def apart(self):
        """keep away from the poles and zeros of powers, where a model does not survive rounding"""
        out = []
        for i, k in enumerate(self.enc.A.kind):
            if k[0] == 'pw' and any((t, i) in self.enc.zatom for t in ('sq', 'inv', 'isq')): b = self.enc.zpoly(k[1]); out += [b >= z3.RealVal(Fr(1, 10**9)), b <= 10**9]
        return out
    def subst(self, p, lits):
        """apply the path's known comparison outcomes to relu/ite atoms"""
        memo = self.__dict__.setdefault('_sm', {}).setdefault(id(lits), {})
        A = self.enc.A
        def at(i):
            if i in memo: return memo[i]
            k = A.kind[i]; r = None
            if k[0] == 'relu':
                n = sp(k[1]); key = self.enc.pos(n)
                if key.k == 'const': r = A.relu(n)
                elif key.key in lits: r = n
                elif bnot(key).key in lits: r = C(0)
                else:
                    ng = self.enc.pos(n.scale(Fr(-1)))
                    if ng.key in lits: r = C(0)
                    else: r = A.relu(n)
            elif k[0] == 'ite':
                c = k[1]
                if c.key in lits: r = sp(k[2])
                elif bnot(c).key in lits: r = C(0)
            elif k[0] == 'pw':
                n = sp(k[1])
                if n.key() != k[1].key(): r = ('pw', n)
            memo[i] = r
            return r
        def sp(q):
            out = Poly({}); plain = {}
            for m, c in q.t.items():
                if all(at(i) is None for i, e in m): plain[m] = c; continue
                t = C(c)
                for i, e in m:
                    r = at(i)
                    if r is None: t = A.mul(t, Poly({((i, e),): Fr(1)}))
                    elif isinstance(r, tuple): t = A.mul(t, A.halfpow(r[1], e))
                    else:
                        if e % 2: raise TooBig()
                        f = r if e > 0 else A.recip(r)
                        for _ in range(abs(e)//2): t = A.mul(t, f)
                out = out + t
            return out + Poly(plain)
        return sp(p)
    def decide(self, pre, kind, ids, cv, label, res):
        enc = self.enc; job = self.job; tr = self.tr; strong = []
        if kind == 'bool':
            if ids[0] == 0:
                if not cv: res['cands'].append((label, dict(self.inp), 'concrete'))
                res['structural'] += 1
                return
            lit = enc.boolean(ids[0])
            if job.mode == 'real':
                if lit is TRUE: res['structural'] += 1; return
                if any(l.key == lit.key for l, _, _ in pre): res['structural'] += 1; return
                if not cv: res['cands'].append((label, dict(self.inp), 'concrete')); return
                neg = enc.zb(bnot(lit)); names = None
            else:
                neg = z3.simplify(z3.Not(lit))
                if z3.is_false(neg): res['structural'] += 1; self.__dict__.setdefault('triv', []).append(z3.Not(lit)); return
                if not cv: res['cands'].append((label, dict(self.inp), 'concrete')); return
        elif kind == 'eq':
            a, b = enc.get(ids[0]), enc.get(ids[1])
            va, vb, vs = tr.val(ids[0]), tr.val(ids[1]), tr.val(ids[2])
            if not (abs(va - vb) <= 1e-7*max(abs(vs), 1e-300)) and not (va == vb) and not (va != va and vb != vb):
                res['cands'].append((label, dict(self.inp), 'concrete')); return
            if job.mode != 'real':
                neg = z3.Not(a == b)
            else:
                def noise(d):
                    mc = max(a.maxc(), b.maxc(), Fr(0))
                    return Poly({m: c for m, c in d.t.items() if abs(c) > NOISE*max(mc, abs(a.t.get(m, 0)))})
                d = noise(a - b)
                if d.t:
                    lits = self.__dict__.setdefault('_lits', {}).setdefault(len(pre), frozenset(l.key for l, _, _ in pre))
                    d = noise(self.subst(a, lits) - self.subst(b, lits))
                if d.t:
                    d2 = enc.A.clear(d)
                    mc = max([abs(c) for c in d2.t.values()] + [Fr(0)])
                    if not d2.t or max(abs(c) for c in d2.t.values()) <= NOISE: d = Poly({})
                if not d.t:
                    # same normal form: left to the solver as a linear query over the monomials (see flush)
                    res['structural'] += 1
                    dd = a - b; self.__dict__.setdefault('batch', []).append((Poly({m: c for m, c in dd.t.items()}) if len(dd.t) <= 64 and all(abs(c) <= NOISE*max(a.maxc(), b.maxc()) for c in dd.t.values()) else Poly({}), NOISE*max(a.maxc(), b.maxc())*65))
                    return
                neg = enc.zpoly(d) != 0
                try:
                    sc = enc.get(ids[2]); zs = enc.zpoly(sc); zd = enc.zpoly(d)
                    strong = [z3.Or(zd > z3.RealVal(Fr(1, 10**k))*zs, zd < -z3.RealVal(Fr(1, 10**k))*zs) for k in (3, 6, 10)]; tiny = strong.pop()
                except TooBig: strong = []
        elif kind == 'rel':
            va, vb, tol = tr.val(ids[0]), tr.val(ids[1]), ids[2]
            if not abs(va - vb) <= tol*abs(vb): res['cands'].append((label, dict(self.inp), 'concrete')); return
            a, b = enc.get(ids[0]), enc.get(ids[1])
            if job.mode == 'real':
                a, b = enc.zpoly(a), enc.zpoly(b); lim = z3.RealVal(Fr(tol))*z3.If(b >= 0, b, -b)
                neg = z3.Or(a - b > lim, b - a > lim)
            else:
                rm = enc.rm; neg = z3.Not(z3.fpLEQ(z3.fpAbs(z3.fpSub(rm, a, b)), z3.fpMul(rm, z3.FPVal(tol, z3.Float64()), z3.fpAbs(b))))
        else:
            if job.mode == 'real': raise Unsupported('bits check in real mode')
            a, b = enc.get(ids[0]), enc.get(ids[1])
            if tr.nodes[ids[0]][3] != tr.nodes[ids[1]][3]: res['cands'].append((label, dict(self.inp), 'concrete')); return
            na, nb = tr.nodes[ids[0]], tr.nodes[ids[1]]
            if na[1] in (F32, F64) and a.get_id() in enc.bvof and b.get_id() in enc.bvof: neg = enc.bvof[a.get_id()] != enc.bvof[b.get_id()]
            else: neg = z3.Not(a == b)
            raw = neg; neg = z3.simplify(neg)
            if z3.is_false(neg): res['structural'] += 1; self.__dict__.setdefault('triv', []).append(raw); return
        if time.time() > self.end + min(15, job.seconds/2): res['undecided'].append(label); return
        if job.mode == 'real':
            # slice of the path condition
            negx = None
            cons = [enc.zb(l) for l, _, _ in pre] + [neg]
            r, s = self.check(self.cone(cons, self.base()))
        else:
            cons = [l for l, _, _ in pre] + [neg]
            r, s = self.check(self.cone(cons, self.base()))
        if r == z3.unsat: return
        if r == z3.unknown: res['undecided'].append(label); return
        if strong:
            # a difference of the order of rounding errors only is none: the coefficients are rounded numbers
            r2, _ = self.check(self.cone(cons + [tiny], self.base()))
            if r2 == z3.unsat: return
        for st in strong:
            # a difference that exceeds the tolerance of the comparison on doubles
            for add in (self.apart(), []):
                r2, s2 = self.check(self.cone(cons + [st] + add, self.base()))
                if r2 != z3.sat: continue
                res['cands'].append((label, self.model_input(s2.model(), self.inp), 'solver')); break
            else: continue
            break
        _, gi = self.solve_generic(self.cone(cons, self.base()), None)
        res['cands'].append((label, gi or self.model_input(s.model(), self.inp), 'solver'))
        if gi: res['cands'].append((label, self.model_input(s.model(), self.inp), 'solver'))

def ncand(res, label): return sum(1 for c in res['cands'] if c[0] == label)
_J = None; _X = None
def _init(job, exe):
    global _J, _X
    _J, _X = job, exe
def _work(item):
    inp, bound, sig, end = item
    try:
        pr = PathRun(_J, _X, inp); pr.end = end
        r = pr.run(bound, sig)
        r['inp'] = pr.inp
        return r
    except Exception as e:
        return dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))

class Outcome:
    def __init__(s):
        s.paths = 0; s.queries = 0; s.solver_s = 0.0; s.sat = s.unsat = s.unknown = 0; s.labels = {}; s.reached = set(); s.leaks = {}; s.limits = {}; s.undecided = {}; s.diverged = 0; s.asserts = 0
        s.structural = 0; s.fns = set(); s.violations = []; s.unconfirmed = []; s.errors = []; s.flips_unknown = 0; s.exhaustive = False; s.wall = 0; s.races = {}; s.unsupported = {}; s.maxlen = 0; s.pending = 0; s.samples = []

def confirm(job, label, inp, how, natives, symexe):
    """replay on the real code, built without instrumentation; returns evidence text or None"""
    if how == 'race':
        fd, tr = tempfile.mkstemp(prefix='symtr'); os.close(fd)
        try:
            run_exe(symexe, inp, job.params, tr, job.run_timeout, clenv() if job.opencl is True else None)
            t = Trace(tr)
        finally: os.unlink(tr)
        rs = [' '.join(p[1:]) for p in t.ev if p[0] == 'R']
        return ('conflicting unordered accesses: ' + rs[0]) if rs else None
    if job.mode == 'real' and how in ('concrete', 'solver') and not any(w in label for w in ('crash', 'bounds', 'terminat', 'abnormal')):
        try:
            if PathRun(job, symexe, inp).dubious(): return None
        except TooBig: pass
    kinds = ['asan', 'nat'] if how == 'mem' or 'crash' in label or 'bounds' in label else ['nat', 'asan']
    if job.opencl and not build.iscuda(job.opencl): kinds = ['nat', 'natcl']   # an independent OpenCL implementation (a simulator), then the model's schedule
    for kind in kinds:
        if kind not in natives:
            try: natives[kind] = build.executable(job.harness, kind, opencl=job.opencl, sources=job.sources, extra=job.extra, wraps=job.wraps, ui=job.ui)
            except build.BuildError as e: natives[kind] = None; print('native build failed: %s' % str(e)[:500])
        exe = natives[kind]
        if not exe: continue
        grind = job.opencl is True and kind == 'nat'
        rc, out = run_exe(exe, inp, job.params, None, max(20, job.run_timeout) * (4 if grind else 1), clenv() if job.opencl is True else None, ['oclgrind', '--data-races'] if grind else ())
        if 'ASSUMEFAIL' in out: continue
        if grind and how == 'mem':
            bad = [l for l in out.splitlines() if any(w in l for w in OCLGRIND)]
            if bad: return 'oclgrind: ' + bad[0]
        bad = [l for l in out.splitlines() if l.startswith('CHECKFAIL')]
        if bad: return '%s (%s build)' % (bad[0], kind)
        if rc == 'timeout': return 'did not terminate (%s build)' % kind
        if rc != 0 or 'REPLAYDONE' not in out:
            tail = [l for l in out.splitlines() if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'terminate' in l]
            return 'abnormal end rc=%s %s (%s build)' % (rc, tail[0][:300] if tail else '', kind)
    return None

def explore(job, log=lambda *a: None, workers=8, deadline=None):
    o = Outcome(); t0 = time.time()
    exe = build.executable(job.harness, 'sym', opencl=job.opencl, sources=job.sources, extra=job.extra, wraps=job.wraps, ui=job.ui)
    end = t0 + job.seconds
    if deadline: end = min(end, deadline)
    seen = set(); natives = {}; done_labels = {}
    ctx = mp.get_context('fork')
    pool = ctx.Pool(workers, initializer=_init, initargs=(job, exe))
    try:
        queue = [({}, 0, None)]; running = []
        while queue or running:
            over = time.time() > end or o.paths >= job.max_paths
            if over and (not running or time.time() > end + max(20, job.seconds) or deadline and time.time() > deadline + 20 or o.paths >= job.max_paths):
                o.pending = len(queue) + len(running); break
            while queue and len(running) < workers and not over: running.append(pool.apply_async(_work, (queue.pop(0) + (end,),)))
            got = [a for a in running if a.ready()]
            if not got: time.sleep(0.005); continue
            for a in got:
                running.remove(a)
                r = a.get()
                if 'error' in r: o.errors.append(r['error']); continue
                st = r['stats']; o.queries += st['queries']; o.solver_s += st['solver_s']; o.sat += st.get('sat', 0); o.unsat += st.get('unsat', 0); o.unknown += st.get('unknown', 0)
                if r['sig'] in seen: o.diverged += 1; continue
                seen.add(r['sig'])
                if r['diverged']: o.diverged += 1
                o.paths += 1; o.asserts += r['asserts']; o.structural += r['structural']; o.fns |= r['fns']; o.reached |= r['reached']; o.flips_unknown += r['flips_unknown']; o.maxlen = max(o.maxlen, r['npath'])
                if len(o.samples) < 3: o.samples.append({k: '%x' % v for k, v in list(r['inp'].items())[:12]})
                for k, v in r['labels'].items(): o.labels[k] = o.labels.get(k, 0) + v
                for k in r['leaks']: o.leaks[k] = o.leaks.get(k, 0) + 1
                for k in r['limits']: o.limits[k] = o.limits.get(k, 0) + 1
                for k in r['undecided']: o.undecided[k] = o.undecided.get(k, 0) + 1
                for k in r['races']: o.races[k] = o.races.get(k, 0) + 1
                for k, v in r['unsupported'].items(): o.unsupported[k] = o.unsupported.get(k, 0) + v
                for label, inp, how in r['cands']:
                    n = done_labels.get(label, 0)
                    if n >= 12 or any(v['label'] == label for v in o.violations): continue
                    done_labels[label] = n + 1
                    ev = confirm(job, label, inp, how, natives, exe)
                    if ev: o.violations.append(dict(label=label, input=inp, how=how, evidence=ev)); log('candidate confirmed', label, ev)
                    else: o.unconfirmed.append(dict(label=label, how=how, input={k: '%x' % v for k, v in list(inp.items())[:40]})); log('candidate not confirmed', label)
                for inp, b, sig, site in r['children']: queue.append((inp, b, sig))
        o.exhaustive = (job.flip or not o.maxlen) and not queue and not running and not o.flips_unknown and not o.errors and not [l for l in o.limits if 'assume' not in l]
    finally:
        pool.terminate(); pool.join()
    o.wall = time.time() - t0
    return o

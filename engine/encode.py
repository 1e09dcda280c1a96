"""Encoders from traced expression DAGs to solver terms: RealEnc (real arithmetic over normal forms) and
FpEnc (bit-precise bit-vector / IEEE-754 terms)."""
from poly import *
import z3

OPN = dict(ADD=1,SUB=2,MUL=3,UDIV=4,SDIV=5,UREM=6,SREM=7,SHL=8,LSHR=9,ASHR=10,AND=11,OR=12,XOR=13,
  FADD=20,FSUB=21,FMUL=22,FDIV=23,FREM=24,FMIN=25,FMAX=26,POW=27,COPYSIGN=28,
  UMIN=30,UMAX=31,SMIN=32,SMAX=33,USUBSAT=34,
  FNEG=40,FABS=41,SQRT=42,FLOOR=43,CEIL=44,FTRUNC=45,ROUND=46,CTTZ=47,CTLZ=48,CTPOP=49,IABS=50,
  ZEXT=60,SEXT=61,TRUNC=62,FPEXT=63,FPTRUNC=64,SITOFP=65,UITOFP=66,FPTOSI=67,FPTOUI=68,BITCAST=69,
  CONST=80,VAR=81,ITE=82,CMP=83,EXTRACTB=84,CONCATB=85,UF=86,ROUNDTEXT=87,NOT=88,ANDB=89,ORB=90)
OP = {v: k for k, v in OPN.items()}
F32, F64 = 132, 164

class Trace:
    def __init__(self, path):
        self.nodes = {}; self.ev = []; self.params = {}; self.fns = set(); self.complete = False
        with open(path, errors='replace') as f:
            for line in f:
                p = line.rstrip('\n').split(' ')
                k = p[0]
                if k == 'N':
                    i, op, ty = int(p[1]), int(p[2]), int(p[3])
                    if op == 86: self.nodes[i] = (op, ty, p[4], int(p[5], 16), [int(x) for x in p[6:]])
                    elif op == 81: self.nodes[i] = (op, ty, p[4], int(p[5], 16), None)
                    else: self.nodes[i] = (op, ty, int(p[4]), int(p[5], 16), (int(p[6]), int(p[7]), int(p[8])))
                elif k == 'F': self.fns.add(p[1])
                elif k == 'Z': self.complete = True
                elif k == 'P': self.params[p[1]] = p[2]
                elif k: self.ev.append(p)
    def val(self, i):
        n = self.nodes[i]
        return f64(n[3]) if n[1] == F64 else f32(n[3]) if n[1] == F32 else n[3]

# ---------------------------------------------------------------- booleans of the real encoding
class Bx:
    """('const',b) ('pos',Poly d: d>0) ('eq',Poly d: d==0) ('not',x) ('and',x,y) ('or',x,y) ('z',z3 Bool,key)"""
    __slots__ = ('k', 'a', 'key')
    def __init__(self, k, a, key): self.k = k; self.a = a; self.key = key
TRUE = Bx('const', True, ('c', True)); FALSE = Bx('const', False, ('c', False))
def bnot(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.k == 'not': return x.a
    return Bx('not', x, ('n', x.key))
def band(x, y):
    if x is FALSE or y is FALSE: return FALSE
    if x is TRUE: return y
    if y is TRUE: return x
    if x.key == y.key: return x
    return Bx('and', (x, y), ('a', x.key, y.key))
def bor(x, y): return bnot(band(bnot(x), bnot(y)))

class RealEnc:
    def __init__(self, tr):
        self.tr = tr; self.A = Atoms(); self.memo = {}; self.zmono = {}; self.zatom = {}; self.defs = []; self.defown = {}; self.defd = set()
        self.unsupported = {}
        self.varnode = {}
        self.inputs = {}       # atom id -> input name
        self.side = []
        dec = {'132': f32, '164': f64}
        self.ranges = {e[2]: (dec[e[3]](int(e[4], 16)), dec[e[3]](int(e[5], 16))) for e in tr.ev if e[0] == 'V' and e[4] != 'any' and e[3] in dec}
        import sys
        sys.setrecursionlimit(1000000)
    # ---- node -> value, iterative over the DAG
    def get(self, root):
        memo = self.memo; nodes = self.tr.nodes
        if root in memo: return memo[root]
        st = [root]
        while st:
            i = st[-1]
            if i in memo: st.pop(); continue
            n = nodes[i]
            kids = n[4] if n[0] == 86 else [] if n[0] in (80, 81) else [x for x in n[4] if x]
            miss = [x for x in kids if x and x not in memo]
            if miss: st.extend(miss); continue
            st.pop()
            try: memo[i] = self.build(i, n)
            except (TooBig, Unsupported) as e:
                memo[i] = self.opaque(i, n, str(e) or type(e).__name__)
        return memo[root]
    def opaque(self, i, n, why):
        self.unsupported[why] = self.unsupported.get(why, 0) + 1
        if n[1] in (F32, F64): return self.A.atom(('opq', i), ('opq', i), self.tr.val(i))
        if n[1] == 1: return Bx('z', z3.Bool('opq%d' % i), ('opq', i))
        return z3.BitVec('opq%d' % i, n[1])
    def build(self, i, n):
        op, ty = OP[n[0]], n[1]; A = self.A
        if op == 'CONST':
            if ty in (F32, F64):
                v = self.tr.val(i)
                if v != v or abs(v) == float('inf'): raise Unsupported('non-finite constant')
                return C(Fr(v))
            if ty == 1: return TRUE if n[3] & 1 else FALSE
            return z3.BitVecVal(n[3], ty)
        if op == 'VAR':
            if ty in (F32, F64):
                p = A.atom(('var', n[2]), ('var', n[2], i), self.tr.val(i)); self.inputs[next(iter(p.t))[0][0]] = n[2]
                if n[2] in self.ranges:
                    j = next(iter(p.t))[0][0]; A.bnd[j] = self.ranges[n[2]]
                    if A.bnd[j][0] > 0: A.pos.add(j)
                return p
            self.varnode[n[2]] = i
            return z3.BitVec(n[2], ty)
        if op == 'UF':
            args = [self.get(k) for k in n[4]]
            name = n[2].split('#')[0]
            key = ('uf', name, tuple(a.key() for a in args))
            p = A.atom(key, ('uf', n[2], args), self.tr.val(i))
            self.inputs[next(iter(p.t))[0][0]] = n[2]
            return p
        a = [self.get(x) if x else None for x in n[4]]
        isf = ty in (F32, F64)
        if op == 'ITE':
            c, x, y = a
            if isf:
                if c is TRUE: return x
                if c is FALSE: return y
                return y + self.itez(c, x - y)
            if ty == 1: return bor(band(c, x), band(bnot(c), y))
            return z3.If(self.zb(c), x, y)
        if op == 'CMP': return self.cmp(n[2], self.tr.nodes[n[4][0]][1], a[0], a[1])
        if op == 'NOT': return bnot(a[0])
        if op == 'ANDB': return band(a[0], a[1])
        if op == 'ORB': return bor(a[0], a[1])
        if isf:
            if op == 'FADD': return a[0] + a[1]
            if op == 'FSUB': return a[0] - a[1]
            if op == 'FMUL': return A.mul(a[0], a[1])
            if op == 'FDIV': return A.mul(a[0], A.recip(a[1]))
            if op == 'FNEG': return a[0].scale(Fr(-1))
            if op == 'FABS': return A.absp(a[0])
            if op == 'FMAX': return A.maxp(a[0], a[1])
            if op == 'FMIN': return A.maxp(a[0].scale(Fr(-1)), a[1].scale(Fr(-1))).scale(Fr(-1))
            if op == 'SQRT': return A.halfpow(a[0], 1)
            if op == 'POW':
                if a[1].isconst():
                    e = a[1].const()*2
                    if e.denominator == 1 and abs(e) <= 40:
                        e = int(e)
                        if e % 2: return A.halfpow(a[0], e)
                        r = C(1); q = a[0] if e >= 0 else A.recip(a[0])
                        for _ in range(abs(e)//2): r = A.mul(r, q)
                        return r
                return A.atom(('pow', a[0].key(), a[1].key()), ('opq', i), self.tr.val(i))
            if op in ('FPEXT', 'FPTRUNC'): return a[0]
            if op in ('FLOOR', 'CEIL', 'FTRUNC', 'ROUND'): return A.atom((op, a[0].key()), ('rnd', op, a[0]), self.tr.val(i))
            if op in ('SITOFP', 'UITOFP'):
                if z3.is_bv_value(a[0]): return C(a[0].as_signed_long() if op == 'SITOFP' else a[0].as_long())
                return A.atom((op, i), ('i2f', z3.simplify(z3.BV2Int(a[0], op == 'SITOFP')), z3.simplify(z3.SignExt(2, a[0]) if op == 'SITOFP' else z3.ZeroExt(2, a[0]))), self.tr.val(i))
            if op == 'ROUNDTEXT': return A.atom(('rt', n[2], a[0].key()), ('rt', n[2], a[0]), self.tr.val(i))
            if op == 'BITCAST':
                raise Unsupported('bitcast to float')
            raise Unsupported(op)
        if ty == 1:
            if op == 'TRUNC':
                src = self.tr.nodes[n[4][0]]
                if OP[src[0]] == 'ZEXT' and self.tr.nodes[src[4][0]][1] == 1: return self.get(src[4][0])
                z = z3.simplify(z3.Extract(0, 0, a[0]) == 1); return self.wrap(z)
            if op == 'AND': return band(a[0], a[1])
            if op == 'OR': return bor(a[0], a[1])
            if op == 'XOR':
                if a[1] is TRUE: return bnot(a[0])
                if a[0] is TRUE: return bnot(a[1])
                if a[1] is FALSE: return a[0]
                if a[0] is FALSE: return a[1]
                return bor(band(a[0], bnot(a[1])), band(bnot(a[0]), a[1]))
            raise Unsupported('i1 ' + op)
        return bvop(self, op, ty, n, a)
    def wrap(self, z):
        z = z3.simplify(z)
        if z3.is_true(z): return TRUE
        if z3.is_false(z): return FALSE
        return Bx('z', z, ('z', z.sexpr()))
    def itez(self, c, d):
        """if c then d else 0"""
        if not d.t: return d
        A = self.A
        neg = False
        if c.k == 'not': c = c.a; neg = True
        if neg: return d - self.itez(c, d)
        if c.k == 'pos':
            # proportional to the compared difference: relu
            e = c.a
            m = next(iter(d.t))
            if m in e.t:
                k = d.t[m]/e.t[m]
                r = d - e.scale(k)
                if all(abs(v) <= NOISE*d.maxc() for v in r.t.values()): return A.relu(e).scale(k)
        lm = leading(d); lead = d.t[lm]; dn = d.scale(1/lead)
        cv = self.bval(c)
        return A.atom(('ite', c.key, dn.key()), ('ite', c, dn), A.evalf(dn) if cv else 0.0).scale(lead)
    def bval(self, x):
        """concrete value of a boolean on this run"""
        if x.k == 'const': return x.a
        if x.k == 'pos': return self.A.evalf(x.a) > 0
        if x.k == 'eq': return self.A.evalf(x.a) == 0
        if x.k == 'not': return not self.bval(x.a)
        if x.k == 'and': return self.bval(x.a[0]) and self.bval(x.a[1])
        return True
    def pos(self, d):
        """d > 0, canonical up to positive scale"""
        d = self.A.clean(d)
        if d.isconst(): return TRUE if d.const() > 0 else FALSE
        s = self.A.decided(d)
        if s is not None: return TRUE if s > 0 else FALSE
        lead, mono, prim = self.A.content(d)
        q = Poly({self.A.mulmono(m, mono): c for m, c in prim.t.items()})
        if lead < 0: q = q.scale(Fr(-1))
        return Bx('pos', q, ('p', q.key()))
    def eq0(self, d):
        d = self.A.clean(d)
        if d.isconst(): return TRUE if d.const() == 0 else FALSE
        lead = d.t[leading(d)]; q = d.scale(1/lead)
        return Bx('eq', q, ('e', q.key()))
    def cmp(self, pred, ty, a, b):
        if ty in (F32, F64):
            d = a - b
            base = pred & 7
            if pred in (7,): return TRUE
            if pred in (8, 0): return FALSE
            if pred == 15: return TRUE
            gt, eq, lt = bool(base & 2), bool(base & 1), bool(base & 4)
            if gt and lt and eq: return TRUE
            if gt and lt: return bnot(self.eq0(d))
            if gt and eq: return bnot(self.pos(d.scale(Fr(-1))))
            if lt and eq: return bnot(self.pos(d))
            if gt: return self.pos(d)
            if lt: return self.pos(d.scale(Fr(-1)))
            if eq: return self.eq0(d)
            return FALSE
        if ty == 1:
            x, y = a, b
            if pred == 33: return bor(band(x, bnot(y)), band(bnot(x), y))
            if pred == 32: return bor(band(x, y), band(bnot(x), bnot(y)))
            raise Unsupported('i1 cmp')
        # compare of zero-extended booleans
        return self.wrap(bvcmp(pred, a, b))
    # ---- to z3
    def zpoly(self, p):
        terms = []
        for m, c in p.t.items():
            t = z3.RealVal(c)
            if m: t = self.zm(m) if c == 1 else t*self.zm(m)
            terms.append(t)
        if not terms: return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)
    def zm(self, m):
        r = self.zmono.get(m)
        if r is not None: return r
        fs = []
        for i, e in m:
            if self.A.kind[i][0] == 'pw':
                if e % 2 == 0: 
                    v = self.zinv(i) if e < 0 else self.zpoly(self.A.kind[i][1]); fs += [v]*(abs(e)//2)
                else:
                    # b^(e/2) = s * b^((e-1)/2); negative: 1/s times powers of 1/b
                    if e > 0: fs += [self.zsqrt(i)] + [self.zpoly(self.A.kind[i][1])]*((e-1)//2)
                    else: fs += [self.zisqrt(i)] + [self.zinv(i)]*((-e-1)//2)
            else:
                v = self.za(i)
                if e > 0: fs += [v]*(e//2)
                else: fs += [self.zrec(i)]*(-e//2)
        r = fs[0]
        for f in fs[1:]: r = r*f
        self.zmono[m] = r
        return r
    def za(self, i):
        v = self.zatom.get(i)
        if v is not None: return v
        k = self.A.kind[i]
        if k[0] == 'var': v = z3.Real('v_' + k[1])
        elif k[0] == 'i2f': v = z3.ToReal(k[1])
        else: v = z3.Real('%s_%d' % (k[0], i))
        self.zatom[i] = v
        if k[0] == 'relu':
            d = self.zpoly(k[1]); self.define(v, v == z3.If(d > 0, d, 0))
        elif k[0] == 'ite':
            self.define(v, v == z3.If(self.zb(k[1]), self.zpoly(k[2]), 0))
        elif k[0] == 'rt':
            # parse(print(a)): a number that agrees with a in the printed digits
            d = self.zpoly(k[2]); b = z3.If(d >= 0, d, -d)
            err = z3.RealVal(Fr(51, 100)*Fr(10)**(1 - k[1]))*b if k[1] < 1000 else z3.RealVal(Fr(51, 100)/Fr(10)**(k[1] - 1000))
            self.define(v, z3.And(v - d <= err, d - v <= err))
        elif k[0] == 'rnd':
            d = self.zpoly(k[2]); fl = z3.ToReal(z3.ToInt(d))
            if k[1] == 'FLOOR': self.define(v, v == fl)
            elif k[1] == 'CEIL': self.define(v, v == -z3.ToReal(z3.ToInt(-d)))
            elif k[1] == 'FTRUNC': self.define(v, v == z3.If(d >= 0, fl, -z3.ToReal(z3.ToInt(-d))))
            else: self.define(v, v == z3.If(d >= 0, z3.ToReal(z3.ToInt(d + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-d + z3.RealVal('1/2')))))
        return v
    def define(self, v, d):
        self.defs.append(d); self.defown[d.get_id()] = v.decl().name()
    def _aux(self, key, mk):
        v = self.zatom.get(key)
        if v is None:
            v = z3.Real('%s_%d' % key); self.zatom[key] = v
            self.define(v, mk(v))
        return v
    def zsqrt(self, i): return self._aux(('sq', i), lambda v: z3.And(v >= 0, v*v == self.zpoly(self.A.kind[i][1])))
    def zinv(self, i): return self._aux(('inv', i), lambda v: v*self.zpoly(self.A.kind[i][1]) == 1)
    def zisqrt(self, i): return self._aux(('isq', i), lambda v: z3.And(v > 0, v*v*self.zpoly(self.A.kind[i][1]) == 1))
    def zrec(self, i): return self._aux(('rec', i), lambda v: v*self.za(i) == 1)
    def zb(self, x):
        if x.k == 'const': return z3.BoolVal(x.a)
        if x.k in ('pos', 'eq'):
            r = self.intcmp(x.k, x.a)
            if r is not None: return r
        if x.k == 'pos': return self.zpoly(x.a) > 0
        if x.k == 'eq': return self.zpoly(x.a) == 0
        if x.k == 'not': return z3.Not(self.zb(x.a))
        if x.k == 'and': return z3.And(self.zb(x.a[0]), self.zb(x.a[1]))
        return x.a
    def linint(self, p):
        """p = c1*atom + c0 with an atom that is a converted integer: (bits, c1, c0)"""
        ms = [m for m in p.t if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 2: return None
        k = self.A.kind[ms[0][0][0]]
        return (k[2], p.t[ms[0]], p.t.get((), Fr(0))) if k[0] == 'i2f' else None
    def intcmp(self, k, p):
        """comparisons of a converted integer with a constant stay comparisons of integers"""
        q = self.linint(p)
        if q is None: return None
        b, c1, c0 = q; w = b.size(); t = -c0/c1; lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
        if k == 'eq': return b == z3.BitVecVal(int(t), w) if t.denominator == 1 and lo <= t <= hi else z3.BoolVal(False)
        if c1 > 0:
            m = math.floor(t) + 1
            return z3.BoolVal(True) if m <= lo else z3.BoolVal(False) if m > hi else b >= z3.BitVecVal(m, w)
        m = math.ceil(t) - 1
        return z3.BoolVal(True) if m >= hi else z3.BoolVal(False) if m < lo else b <= z3.BitVecVal(m, w)
    def boolean(self, i):
        r = self.get(i)
        if isinstance(r, Bx): return r
        return self.wrap(r != 0)

def bvcmp(pred, a, b):
    return {32: lambda: a == b, 33: lambda: a != b, 34: lambda: z3.UGT(a, b), 35: lambda: z3.UGE(a, b), 36: lambda: z3.ULT(a, b), 37: lambda: z3.ULE(a, b),
            38: lambda: a > b, 39: lambda: a >= b, 40: lambda: a < b, 41: lambda: a <= b}[pred]()

def bvop(E, op, ty, n, a):
    nodes = E.tr.nodes
    if op in ('ZEXT', 'SEXT'):
        st = nodes[n[4][0]][1]
        if st == 1:
            c = E.zb(a[0]) if isinstance(a[0], Bx) else a[0]
            return z3.If(c, z3.BitVecVal(1 if op == 'ZEXT' else (1 << ty) - 1, ty), z3.BitVecVal(0, ty))
        return z3.simplify(z3.ZeroExt(ty - st, a[0]) if op == 'ZEXT' else z3.SignExt(ty - st, a[0]))
    if op == 'TRUNC': return z3.simplify(z3.Extract(ty-1, 0, a[0]))
    if op == 'EXTRACTB':
        if not hasattr(E, 'asbv') and not z3.is_bv(a[0]): raise Unsupported('byte of a real number')
        o = n[2]*8; return z3.simplify(z3.Extract(o+7, o, E.asbv(a[0], nodes[n[4][0]]) if hasattr(E, 'asbv') else a[0]))
    if op == 'CONCATB': return z3.simplify(z3.Concat(a[0], a[1]))
    if op == 'BITCAST':
        if hasattr(E, 'asbv'): return E.asbv(a[0], nodes[n[4][0]])
        raise Unsupported('bitcast of float')
    if op in ('FPTOSI', 'FPTOUI'):
        if hasattr(E, 'fptoint'): return E.fptoint(op, a[0], ty)
        q = E.linint(a[0])
        if q is not None and q[1] == 1 and 0 <= q[2] < 1:   # an integer plus a fraction, cut off
            b = q[0]; b = z3.If(b < 0, b + 1, b) if q[2] else b
            return z3.simplify(z3.Extract(ty-1, 0, z3.SignExt(ty, b)))
        r = E.zpoly(a[0]); t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        return z3.Int2BV(t, ty)
    if op == 'ITE': return z3.If(a[0], a[1], a[2])
    x = a[0]; y = a[1] if len(a) > 1 else None
    r = {'ADD': lambda: x+y, 'SUB': lambda: x-y, 'MUL': lambda: x*y, 'UDIV': lambda: z3.UDiv(x, y), 'SDIV': lambda: x/y, 'UREM': lambda: z3.URem(x, y), 'SREM': lambda: z3.SRem(x, y),
         'SHL': lambda: x << y, 'LSHR': lambda: z3.LShR(x, y), 'ASHR': lambda: x >> y, 'AND': lambda: x & y, 'OR': lambda: x | y, 'XOR': lambda: x ^ y,
         'UMIN': lambda: z3.If(z3.ULT(x, y), x, y), 'UMAX': lambda: z3.If(z3.UGT(x, y), x, y), 'SMIN': lambda: z3.If(x < y, x, y), 'SMAX': lambda: z3.If(x > y, x, y),
         'USUBSAT': lambda: z3.If(z3.UGT(x, y), x-y, z3.BitVecVal(0, ty)), 'IABS': lambda: z3.If(x < 0, -x, x),
         'CTPOP': lambda: sum([z3.ZeroExt(ty-1, z3.Extract(k, k, x)) for k in range(1, ty)], z3.ZeroExt(ty-1, z3.Extract(0, 0, x))),
         'CTLZ': lambda: ctz(x, ty, True), 'CTTZ': lambda: ctz(x, ty, False)}.get(op)
    if r is None: raise Unsupported(op)
    return z3.simplify(r())

def ctz(x, ty, lead):
    r = z3.BitVecVal(ty, ty)
    for k in (range(ty) if lead else range(ty-1, -1, -1)):
        r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(ty-1-k if lead else k, ty), r)
    return r

class FpEnc:
    """bit-precise encoding"""
    def __init__(self, tr):
        self.tr = tr; self.memo = {}; self.defs = []; self.bvof = {}; self.unsupported = {}; self.vars = {}
        self.rm = z3.RNE(); self.ufs = {}
    def sort(self, ty): return z3.Float64() if ty == F64 else z3.Float32()
    def get(self, root):
        memo = self.memo; nodes = self.tr.nodes
        st = [root]
        while st:
            i = st[-1]
            if i in memo: st.pop(); continue
            n = nodes[i]
            kids = n[4] if n[0] == 86 else [] if n[0] in (80, 81) else [x for x in n[4] if x]
            miss = [x for x in kids if x and x not in memo]
            if miss: st.extend(miss); continue
            st.pop()
            try: memo[i] = self.build(i, n)
            except Unsupported as e:
                self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
                memo[i] = z3.FP('opq%d' % i, self.sort(n[1])) if n[1] in (F32, F64) else z3.Bool('opq%d' % i) if n[1] == 1 else z3.BitVec('opq%d' % i, n[1])
        return memo[root]
    def zb(self, x): return x
    def wrap(self, x): return x
    def asbv(self, x, node):
        if node[1] not in (F32, F64): return x
        k = x.get_id()
        if k in self.bvof: return self.bvof[k]
        v = z3.BitVec('bits%d' % k, 64 if node[1] == F64 else 32)
        self.defs.append(z3.fpBVToFP(v, self.sort(node[1])) == x)
        self.bvof[k] = v
        return v
    def fptoint(self, op, x, ty): return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(ty)) if op == 'FPTOSI' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(ty))
    def build(self, i, n):
        op, ty = OP[n[0]], n[1]; isf = ty in (F32, F64)
        if op == 'CONST':
            if isf:
                w = 64 if ty == F64 else 32; x = z3.simplify(z3.fpBVToFP(z3.BitVecVal(n[3], w), self.sort(ty)))
                self.bvof[x.get_id()] = z3.BitVecVal(n[3], w); self._keep(x); return x
            return z3.BoolVal(bool(n[3] & 1)) if ty == 1 else z3.BitVecVal(n[3], ty)
        if op == 'VAR':
            if isf:
                w = 64 if ty == F64 else 32; v = z3.BitVec(n[2], w); x = z3.fpBVToFP(v, self.sort(ty)); self.bvof[x.get_id()] = v; self._keep(x); self.vars[n[2]] = (v, ty); return x
            v = z3.BitVec(n[2], ty); self.vars[n[2]] = (v, ty); return v
        if op == 'UF':
            args = [self.get(k) for k in n[4]]; name = n[2].split('#')[0]
            f = self.ufs.setdefault((name, len(args)), z3.Function(name + '_%d' % len(args), *([a.sort() for a in args] + [z3.Float64()])))
            return f(*args)
        a = [self.get(x) if x else None for x in n[4]]
        if op == 'ITE': 
            r = z3.If(a[0], a[1], a[2]); return r
        if op == 'CMP':
            aty = self.tr.nodes[n[4][0]][1]
            if aty in (F32, F64):
                x, y = a[0], a[1]; p = n[2]
                uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
                if p == 7: return z3.Not(uno)
                if p == 8: return uno
                base = {1: z3.fpEQ, 2: z3.fpGT, 3: z3.fpGEQ, 4: z3.fpLT, 5: z3.fpLEQ}.get(p & 7)
                if p & 7 == 6: r = z3.And(z3.Not(uno), z3.Not(z3.fpEQ(x, y)))
                elif base is None: r = z3.BoolVal(p & 7 == 7)
                else: r = base(x, y)
                return z3.Or(uno, r) if p & 8 else r
            if aty == 1: return a[0] == a[1] if n[2] == 32 else a[0] != a[1]
            return bvcmp(n[2], a[0], a[1])
        if op == 'NOT': return z3.Not(a[0])
        if op == 'ANDB': return z3.And(a[0], a[1])
        if op == 'ORB': return z3.Or(a[0], a[1])
        if isf:
            rm = self.rm
            # canonical forms, exact in IEEE arithmetic: x-y = x+(-y), -(-x) = x, commutative operands ordered
            if op == 'FNEG': return self.fneg(a[0])
            if op == 'FSUB': a = [a[0], self.fneg(a[1])]; op = 'FADD'
            if op in ('FADD', 'FMUL') and a[0].get_id() > a[1].get_id(): a = [a[1], a[0]]
            r = {'FADD': lambda: z3.fpAdd(rm, a[0], a[1]), 'FSUB': lambda: z3.fpSub(rm, a[0], a[1]), 'FMUL': lambda: z3.fpMul(rm, a[0], a[1]), 'FDIV': lambda: z3.fpDiv(rm, a[0], a[1]),
                 'FNEG': lambda: z3.fpNeg(a[0]), 'FABS': lambda: z3.fpAbs(a[0]), 'SQRT': lambda: z3.fpSqrt(rm, a[0]), 'FMIN': lambda: z3.fpMin(a[0], a[1]), 'FMAX': lambda: z3.fpMax(a[0], a[1]),
                 'FLOOR': lambda: z3.fpRoundToIntegral(z3.RTN(), a[0]), 'CEIL': lambda: z3.fpRoundToIntegral(z3.RTP(), a[0]), 'FTRUNC': lambda: z3.fpRoundToIntegral(z3.RTZ(), a[0]),
                 'ROUND': lambda: z3.fpRoundToIntegral(z3.RNA(), a[0]),
                 'FPEXT': lambda: z3.fpFPToFP(rm, a[0], self.sort(ty)), 'FPTRUNC': lambda: z3.fpFPToFP(rm, a[0], self.sort(ty)),
                 'SITOFP': lambda: z3.fpSignedToFP(rm, a[0], self.sort(ty)), 'UITOFP': lambda: z3.fpUnsignedToFP(rm, a[0], self.sort(ty)),
                 'ROUNDTEXT': lambda: self.roundtext(n[2], a[0], ty, i),
                 'BITCAST': lambda: self.frombv(a[0], ty)}.get(op)
            if r is None: raise Unsupported(op)
            return r()
        if ty == 1:
            if op == 'TRUNC': return z3.simplify(z3.Extract(0, 0, a[0]) == 1)
            if op == 'AND': return z3.And(a[0], a[1])
            if op == 'OR': return z3.Or(a[0], a[1])
            if op == 'XOR': return z3.Xor(a[0], a[1])
            raise Unsupported('i1 ' + op)
        return bvop(self, op, ty, n, a)
    def _keep(self, x): self.__dict__.setdefault('keep', []).append(x)
    def fneg(self, x):
        m = self.__dict__.setdefault('_neg', {})
        k = x.get_id()
        if k not in m:
            r = x.arg(0) if z3.is_app_of(x, z3.Z3_OP_FPA_NEG) else z3.fpNeg(x)
            self._keep(x); self._keep(r); m[k] = r
        return m[k]
    def frombv(self, v, ty):
        x = z3.fpBVToFP(v, self.sort(ty)); self.bvof[x.get_id()] = v; self._keep(x); return x
    def roundtext(self, digits, x, ty, i):
        # parse(print(x, digits)): some value, equal to x only by luck
        return z3.FP('text%d' % i, self.sort(ty))
    def boolean(self, i): return self.get(i)

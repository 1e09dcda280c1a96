"""Real-arithmetic normal forms of traced expressions.

A value is a polynomial with exact rational coefficients over atoms: input variables, applications of
uninterpreted functions (matched modulo normal form of their arguments), half-integer powers of
polynomials (square roots, divisions) and relu(d)=max(d,0) (comparisons/selects). Two values with the same
normal form are equal over the reals for every input."""
from fractions import Fraction as Fr
import struct, math

NOISE = Fr(1, 10**12)     # relative coefficient difference regarded as rounding of constants

def f64(bits):
    return struct.unpack('<d', struct.pack('<Q', bits & (2**64-1)))[0]
def f32(bits):
    return struct.unpack('<f', struct.pack('<I', bits & (2**32-1)))[0]
def b64(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def b32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]

class TooBig(Exception): pass
class Unsupported(Exception): pass

class Poly:
    __slots__ = ('t', '_k')
    def __init__(self, t): self.t = t; self._k = None
    def isconst(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self): return self.t.get((), Fr(0))
    def __add__(a, b):
        if len(a.t) < len(b.t): a, b = b, a
        r = dict(a.t)
        for m, c in b.t.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v += c
                if v: r[m] = v
                else: del r[m]
        return Poly(r)
    def scale(a, k):
        if not k: return Poly({})
        return Poly({m: c*k for m, c in a.t.items()})
    def __sub__(a, b): return a + b.scale(Fr(-1))
    def key(a):
        if a._k is None:
            a._k = tuple(sorted((m, '%.9e' % float(c)) for m, c in a.t.items()))
        return a._k
    def maxc(a): return max((abs(c) for c in a.t.values()), default=Fr(0))

def C(x): 
    x = Fr(x)
    return Poly({(): x} if x else {})

def leading(p):
    """first monomial whose coefficient is (up to rounding) the largest: normal forms have coefficients of order one"""
    mx = p.maxc()*Fr(999999, 1000000)
    return min(m for m, c in p.t.items() if abs(c) >= mx)

class Atoms:
    """atom table of one trace"""
    LIMIT = 400000
    def __init__(self):
        self.kind = []      # kind tuple
        self.val = []       # concrete value (float)
        self.ix = {}
        self.bnd = {}       # atom -> (lower, upper) of its base value
        self.pos = set()    # atoms known to be positive (input variables with a positive lower bound)
    def new(self, key, kind, val):
        i = self.ix.get(key)
        if i is None:
            i = len(self.kind); self.ix[key] = i; self.kind.append(kind); self.val.append(val)
        return i
    def atom(self, key, kind, val): return Poly({((self.new(key, kind, val), 2),): Fr(1)})
    # exponents are in half units
    def mulmono(self, a, b):
        if not a: return a if not b else b
        if not b: return a
        d = dict(a)
        for i, e in b:
            v = d.get(i, 0) + e
            if v: d[i] = v
            else: del d[i]
        return tuple(sorted(d.items()))
    def mul(self, a, b):
        if len(a.t)*len(b.t) > self.LIMIT: raise TooBig()
        if a.isconst(): return b.scale(a.const())
        if b.isconst(): return a.scale(b.const())
        r = {}
        expand = False
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = self.mulmono(m1, m2)
                v = r.get(m)
                if v is None: r[m] = c1*c2
                else:
                    v += c1*c2
                    if v: r[m] = v
                    else: del r[m]
        for m in r:
            for i, e in m:
                if e >= 2 and self.kind[i][0] == 'pw': expand = True
        p = Poly(r)
        return self.expand(p) if expand else p
    def expand(self, p):
        """replace pw(E)^(k/2), k>=2, by E * pw(E)^(k/2-1)"""
        out = Poly({})
        again = False
        for m, c in p.t.items():
            hit = None
            for i, e in m:
                if e >= 2 and self.kind[i][0] == 'pw': hit = (i, e); break
            if hit is None: out = out + Poly({m: c}); continue
            i, e = hit
            rest = tuple((j, x) for j, x in m if j != i)
            if e - 2: rest = tuple(sorted(rest + ((i, e-2),)))
            out = out + self.mul(Poly({rest: c}), self.kind[i][1])
        return out
    def evalf(self, p):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for i, e in m:
                b = self.val[i]
                try: v *= b**(e//2) if e % 2 == 0 else b**(e/2.0)
                except (ZeroDivisionError, OverflowError, ValueError): return float('nan')
                if isinstance(v, complex): return float('nan')
            s += v
        return s
    @staticmethod
    def clean(p):
        if len(p.t) < 2: return p
        lim = p.maxc()*NOISE
        if all(abs(c) > lim for c in p.t.values()): return p
        return Poly({m: c for m, c in p.t.items() if abs(c) > lim})
    def content(self, p):
        """p = coef * mono * primitive, primitive has a positive leading coefficient 1"""
        ms = list(p.t)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for i in list(common):
                e = min(common[i], d.get(i, 0)) if common[i] > 0 else max(common[i], d.get(i, 0))
                if i not in d or (common[i] > 0) != (d[i] > 0) or e == 0: del common[i]
                else: common[i] = e
            if not common: break
        mono = tuple(sorted(common.items()))
        inv = tuple((i, -e) for i, e in mono)
        prim = Poly({self.mulmono(m, inv): c for m, c in p.t.items()})
        # leading term of prim decides sign
        lead = prim.t[leading(prim)]
        return lead, mono, prim.scale(1/lead)
    def powbase(self, prim):
        return self.new(('pw', prim.key()), ('pw', prim), self.evalf(prim))
    def recip(self, p):
        if not p.t: raise Unsupported('division by zero')
        if p.isconst(): return C(1/p.const())
        lead, mono, prim = self.content(self.clean(p))
        minv = tuple((i, -e) for i, e in mono)
        if len(prim.t) == 1: return Poly({minv: 1/lead})
        if self.evalf(prim) < 0: prim = prim.scale(Fr(-1)); lead = -lead
        i = self.powbase(prim)
        return Poly({self.mulmono(minv, ((i, -2),)): 1/lead})
    def halfpow(self, p, h):
        """p**(h/2) for positive p"""
        if not p.t: return C(0)
        if p.isconst():
            v = p.const()
            if v < 0: raise Unsupported('root of a negative constant')
            return C(Fr(float(v)**(h/2.0)))
        if h % 2 == 0:
            r = C(1); q = p if h > 0 else self.recip(p)
            for _ in range(abs(h)//2): r = self.mul(r, q)
            return r
        lead, mono, prim = self.content(self.clean(p))
        if lead < 0: prim = prim.scale(Fr(-1)); lead = -lead
        out = tuple((i, e*h//2) for i, e in mono if i in self.pos and e % 4 == 0)
        if out:      # (x^2k * rest)^(h/2) = x^(kh) * rest^(h/2) for a positive x
            mono = tuple((i, e) for i, e in mono if not (i in self.pos and e % 4 == 0))
            q = self.mul(Poly({mono: lead}), prim) if mono else prim.scale(lead)
            return self.mul(Poly({out: Fr(1)}), self.halfpow(q, h))
        if len(prim.t) == 1 and prim.isconst() and prim.const() > 0:
            # lead*mono: only sign-safe when all exponents come out integral for plain atoms
            out = ()
            ok = True
            for i, e in mono:
                if (e*h) % 2: ok = False
            if ok:
                # sqrt(x^2) = |x|: only for atoms that are non-negative powers
                r = C(Fr(float(lead)**(h/2.0)))
                for i, e in mono:
                    ne = e*h//2
                    if self.kind[i][0] == 'pw': r = self.mul(r, Poly({((i, ne),): Fr(1)}))
                    elif ne % 2 == 0 and (ne//2) % 2 == 0 and (e//2) % 2 == 0: r = self.mul(r, Poly({((i, ne),): Fr(1)}))
                    else:
                        b = self.powbase_full(Poly({mono: Fr(1)}))
                        return self.mul(C(Fr(float(lead)**(h/2.0))), Poly({((b, h),): Fr(1)}))
                return r
            b = self.powbase_full(Poly({mono: Fr(1)}))
            return Poly({((b, h),): Fr(float(lead)**(h/2.0))})
        if mono:
            full = self.mul(Poly({mono: Fr(1)}), prim)
        else: full = prim
        b = self.powbase_full(full)
        r = Poly({((b, h),): Fr(float(lead)**(h/2.0))})
        return self.expand(r) if h >= 2 else r
    def powbase_full(self, p): return self.new(('pw', p.key()), ('pw', p), self.evalf(p))
    def relu(self, d):
        """max(d,0)"""
        d = self.clean(d)
        if d.isconst(): return C(max(d.const(), 0))
        sg = self.sign(d)
        if sg is not None: return d if sg > 0 else C(0)
        lm = leading(d); lead = d.t[lm]; al = abs(lead)
        if lead > 0: return self._relu(d.scale(1/al)).scale(al)
        n = d.scale(Fr(-1)/al)      # relu(d) = al*relu(-n) = al*(relu(n) - n)
        return (self._relu(n) - n).scale(al)
    def sign(self, d):
        """1: every term is evidently >= 0, -1: <= 0, None: not evident"""
        r = None
        for m, c in d.t.items():
            for i, e in m:
                k = self.kind[i][0]
                if not (e % 4 == 0 or (k == 'pw' and e % 2) or k == 'relu' or i in self.pos): return self.decided(d)
            s = 1 if c > 0 else -1
            if r is None: r = s
            elif r != s: return self.decided(d)
        return r
    def decided(self, d):
        """1: positive, -1: negative for every input in its range, None: not evident"""
        r = self.range(d)
        return None if r is None else 1 if r[0] > 0 else -1 if r[1] < 0 else None
    def range(self, p):
        """(lower, upper) bound following from the ranges of the inputs, or None; outward rounded"""
        if len(p.t) > 64: return None
        lo = hi = mag = 0.0
        try:
            for m, c in p.t.items():
                a = b = float(c)
                for i, e in m:
                    x = self.bound(i)
                    if x is None: return None
                    l, h = x
                    if e % 4 == 0 and e > 0:
                        q = e//2; v = (l**q, h**q); l2, h2 = (0.0 if l <= 0 <= h else min(v)), max(v)
                    elif l > 0: v = (l**(e/2.0), h**(e/2.0)); l2, h2 = min(v), max(v)
                    elif e > 0 and e % 2 == 0: l2, h2 = l**(e//2), h**(e//2)
                    else: return None
                    v = (a*l2, a*h2, b*l2, b*h2); a, b = min(v), max(v)
                lo += a; hi += b; mag = max(mag, abs(a), abs(b))
        except (OverflowError, ZeroDivisionError): return None
        s = 1e-9*mag
        if not (lo == lo and hi == hi) or mag == float('inf'): return None
        return lo - s, hi + s
    def bound(self, i):
        if i in self.bnd: return self.bnd[i]
        k = self.kind[i]; r = None
        if k[0] == 'pw': r = self.range(k[1])
        elif k[0] == 'relu':
            r = self.range(k[1])
            if r: r = (max(r[0], 0.0), max(r[1], 0.0))
        elif k[0] == 'ite':
            r = self.range(k[2])
            if r: r = (min(r[0], 0.0), max(r[1], 0.0))
        self.bnd[i] = r
        return r
    def _relu(self, n):
        v = self.evalf(n)
        return self.atom(('relu', n.key()), ('relu', n), max(v, 0.0) if v == v else v)
    def maxp(self, a, b): return b + self.relu(a - b)
    def absp(self, a): return self.relu(a).scale(Fr(2)) - a
    def clear(self, p):
        """multiply by the denominators (negative powers) and expand: zero iff p is zero (where defined)"""
        for _ in range(40):
            need = {}
            for m in p.t:
                for i, e in m:
                    if e < 0 and e < need.get(i, 0): need[i] = e
            if not need: return p
            # only pw atoms matter for hidden identities; plain atoms may keep negative powers
            need = {i: e for i, e in need.items() if self.kind[i][0] == 'pw'}
            if not need: return p
            i = next(iter(need)); e = need[i]
            k = (-e + 1)//2*2
            out = Poly({})
            base = self.kind[i][1]
            pows = {0: C(1)}
            def bp(n):
                if n not in pows: pows[n] = self.mul(bp(n-1), base)
                return pows[n]
            for m, c in p.t.items():
                d = dict(m); x = d.pop(i, 0) + k
                half = x % 2
                whole = (x - half)//2
                rest = tuple(sorted(list(d.items()) + ([(i, 1)] if half else [])))
                out = out + self.mul(Poly({rest: c}), bp(whole))
            p = out
        raise TooBig()

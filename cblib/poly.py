"""Integer polynomials, linear facts over their monomials, and an exact entailment test (Farkas combination by rational simplex)."""
from fractions import Fraction
from math import gcd

class Poly:
    __slots__ = ('t', '_h')
    def __init__(s, t=None):
        s.t = {m: c for m, c in (t or {}).items() if c != 0}; s._h = None
    @staticmethod
    def c(n): return Poly({(): n})
    @staticmethod
    def v(n): return Poly({(n,): 1})
    def __add__(s, o):
        if isinstance(o, int): o = Poly.c(o)
        r = dict(s.t)
        for m, c in o.t.items(): r[m] = r.get(m, 0) + c
        return Poly(r)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __sub__(s, o): return s + (-o if isinstance(o, Poly) else Poly.c(-o))
    def __rsub__(s, o): return Poly.c(o) - s
    def __mul__(s, o):
        if isinstance(o, int): return Poly({m: c * o for m, c in s.t.items()})
        r = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + c * d
        return Poly(r)
    __rmul__ = __mul__
    def __eq__(s, o):
        if isinstance(o, int): o = Poly.c(o)
        return isinstance(o, Poly) and s.t == o.t
    def __ne__(s, o): return not s == o
    def key(s): return tuple(sorted(s.t.items()))
    def __hash__(s):
        if s._h is None: s._h = hash(s.key())
        return s._h
    def const(s):
        if not s.t: return 0
        if len(s.t) == 1 and () in s.t: return s.t[()]
        return None
    def syms(s):
        r = set()
        for m in s.t: r.update(m)
        return r
    def subst(s, n, e):
        if not any(n in m for m in s.t): return s
        r = Poly()
        for m, c in s.t.items():
            k = m.count(n)
            if k == 0: r = r + Poly({m: c}); continue
            q = Poly({tuple(x for x in m if x != n): c})
            for _ in range(k): q = q * e
            r = r + q
        return r
    def __repr__(s):
        if not s.t: return '0'
        o = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]) == 0, x[0])):
            if not m: o.append('%+d' % c)
            else: o.append(('+' if c == 1 else '-' if c == -1 else '%+d*' % c) + '*'.join(m))
        r = ''.join(o)
        return r[1:] if r[0] == '+' else r

def tighten(p):
    """p>=0 over the integers: divide by the gcd of the non-constant coefficients"""
    g = 0
    for m, c in p.t.items():
        if m: g = gcd(g, abs(c))
    if g > 1: return Poly({m: (c // g) for m, c in p.t.items()})   # floor on the constant
    return p

def farkas(rows, target):
    """rows: list of dict mono->coef (facts >=0).  Is there lambda>=0 with sum lambda*row == target (dict)?  exact phase-1 simplex."""
    monos = {}
    for r in rows:
        for m in r: monos.setdefault(m, len(monos))
    for m in target:
        if m not in monos: return False if target[m] != 0 else True
    nr = len(monos); nc = len(rows)
    if nr == 0: return True
    A = [[Fraction(0)] * nc for _ in range(nr)]
    for j, r in enumerate(rows):
        for m, c in r.items(): A[monos[m]][j] = Fraction(c)
    b = [Fraction(0)] * nr
    for m, c in target.items(): b[monos[m]] = Fraction(c)
    for i in range(nr):
        if b[i] < 0: b[i] = -b[i]; A[i] = [-x for x in A[i]]
    T = [A[i] + [Fraction(int(i == k)) for k in range(nr)] + [b[i]] for i in range(nr)]
    basis = [nc + i for i in range(nr)]
    z = [sum(T[i][j] for i in range(nr)) for j in range(nc)] + [Fraction(0)] * nr + [sum(b)]
    n = nc
    it = 0
    while True:
        it += 1
        if it > 2000: return False
        if z[-1] == 0: return True
        e = next((j for j in range(n) if z[j] > 0), None) if it > 60 else max((j for j in range(n) if z[j] > 0), key=lambda j: z[j], default=None)
        if e is None: return z[-1] == 0
        best = None; l = None
        for i in range(nr):
            if T[i][e] > 0:
                q = T[i][-1] / T[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[l]): best = q; l = i
        if l is None: return False
        pv = T[l][e]
        T[l] = [x / pv if x else x for x in T[l]]
        for i in range(nr):
            if i != l and T[i][e] != 0:
                f = T[i][e]; Tl = T[l]; Ti = T[i]
                T[i] = [a - f * c if c else a for a, c in zip(Ti, Tl)]
        f = z[e]
        z = [a - f * c if c else a for a, c in zip(z, T[l])]
        basis[l] = e

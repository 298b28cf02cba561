"""Abstract interpreter over LLVM IR (clang -O0) of the C run-time.

Values are abstracted by (a) an integer polynomial taken modulo 2^w, read back into the signed or unsigned window under the
path's linear facts, (b) a per-bit provenance vector (constant, bit i of a polynomial, its complement), (c) for reals, integer
part plus a 0<f<1 flag.  Traces are partitioned on undecided comparisons; loops whose guard is undecided are summarised by
closed-form recurrences of the loop-carried cells (no unrolling), giving quantified writes/events.  Nothing is executed and no
solver is called: entailment is a linear combination of recorded facts (poly.farkas)."""
from .poly import Poly, farkas, tighten
from . import llir

INF = None
class CabsError(Exception): pass
class MemError(CabsError): pass        # a definite access outside an object
class Fork(Exception):
    def __init__(s, p): s.p = p            # split on p>=0
class BitFork(Exception):
    def __init__(s, b): s.b = b            # split on a bit atom

P = Poly.v
C = Poly.c

class V:
    """integer / pointer value of width w: representative polynomial p (mod 2^w) and/or bit vector b"""
    __slots__ = ('w', 'p', 'b')
    def __init__(s, w, p=None, b=None):
        s.w = w; s.b = b
        if isinstance(p, int): p = C(p)
        s.p = p
    def key(s): return (s.w, s.p, s.b)
    def __repr__(s): return 'i%d(%s)' % (s.w, s.p if s.p is not None else s.b)
class F:
    """real value: integer part k plus fraction f ('' = none, otherwise a name with 0<f<1); sgn0 keeps a zero's sign out of scope"""
    __slots__ = ('k', 'f', 'single')
    def __init__(s, k, f='', single=False): s.k = C(k) if isinstance(k, int) else k; s.f = f; s.single = single or (isinstance(k, int) and abs(k) <= 1 << 24 and not f)
    def key(s): return (s.k, s.f)
    def __repr__(s): return 'real(%s%s)' % (s.k, '+' + s.f if s.f else '')

class State:
    def __init__(s):
        s.facts = []; s.bitf = {}; s.mem = []; s.events = []; s.sub = {}; s.trail = []
    def clone(s):
        n = State.__new__(State)
        n.facts = list(s.facts); n.bitf = dict(s.bitf); n.mem = s.mem; n.events = s.events; n.sub = dict(s.sub); n.trail = s.trail
        return n

class Outcome:
    def __init__(s, kind, val, st, ins=None): s.kind, s.val, s.st, s.ins = kind, val, st, ins
    def __repr__(s): return '<%s %s>' % (s.kind, s.val)

class Engine:
    MAXFORK = 4000
    def __init__(s, mod, ptrw=64):
        s.m = mod; s.ptrw = mod.ptrsize * 8
        s.bounds = {}; s.defs = {}; s.defkey = {}; s.n = 0
        s.handlers = {}; s.init_globals = True; s.mutable = set(); s.cache = {}
        s.fn_syms = {}; s.visited = set(); s.nforks = 0; s.callee_of = {}
        s.maxloop = 70
    # ---------- symbols
    def fresh(s, hint='t', lo=INF, hi=INF):
        s.n += 1; n = '%s#%d' % (hint, s.n); s.bounds[n] = (lo, hi); return n
    def sym(s, name, lo=INF, hi=INF):
        s.bounds[name] = (lo, hi); return P(name)
    def isym(s, name, w, signed=True):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        s.bounds[name] = (lo, hi); return V(w, P(name))
    def psym(s, name):
        s.bounds[name] = (1 << 16, 1 << (47 if s.ptrw == 64 else 30)); return V(s.ptrw, P(name))
    def defsym(s, kind, args, lo, hi, extra=()):
        k = (kind, tuple(args), extra)
        n = s.defkey.get(k)
        if n is None:
            n = s.fresh(kind, lo, hi); s.defkey[k] = n; s.defs[n] = k
        return P(n)
    def bsubst(s, b, n, e):
        if isinstance(b, int): return b
        return (s.subst(b[0], n, e), b[1], b[2])
    def subst(s, p, n, e):
        """substitute through defined symbols as well"""
        if isinstance(p, tuple): return tuple(s.subst(x, n, e) for x in p)
        if not isinstance(p, Poly): return p
        r = p.subst(n, e)
        for x in list(r.syms()):
            d = s.defs.get(x)
            if d is None or not s.mentions(x, n): continue
            kind, args, extra = d
            na = tuple(s.subst(a, n, e) for a in args)
            lo, hi = s.bounds[x]
            r = r.subst(x, s.defsym(kind, na, lo, hi, extra))
        return r
    def mentions(s, x, n):
        if x == n: return True
        d = s.defs.get(x)
        if d is None: return False
        return any(s.mentions(y, n) for a in d[1] for y in s.psyms(a))
    def psyms(s, a):
        if isinstance(a, tuple):
            r = set()
            for x in a: r |= s.psyms(x)
            return r
        return a.syms() if isinstance(a, Poly) else set()
    def allsyms(s, p):
        r = set(); w = list(p.syms())
        while w:
            x = w.pop()
            if x in r: continue
            r.add(x); d = s.defs.get(x)
            if d: 
                for a in d[1]: w += list(s.psyms(a))
        return r
    # ---------- facts
    def norm(s, st, p):
        for _ in range(20):
            ch = False
            for n in list(p.syms()):
                if n in st.sub: p = p.subst(n, st.sub[n]); ch = True
            if not ch: return p
        return p
    def rng(s, p):
        lo = hi = 0
        for m, c in p.t.items():
            l, h = 1, 1
            for x in m:
                a, b = s.bounds.get(x, (INF, INF))
                if l is None or h is None or a is None or b is None:
                    if a is not None and a >= 0 and l is not None and l >= 0: l, h = l * a, (None if h is None or b is None else h * b)
                    else: l = h = None
                else:
                    c4 = (l * a, l * b, h * a, h * b); l, h = min(c4), max(c4)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    def factset(s, st, want):
        """facts in the connected component of the wanted monomials, plus symbol bounds and products for nonlinear monomials"""
        syms = set(want); facts = []; pool = list(st.facts); ch = True
        while ch:
            ch = False
            for f in list(pool):
                fs = f.syms()
                if fs & syms:
                    facts.append(f); pool.remove(f)
                    if not fs <= syms: syms |= fs; ch = True
                    else: ch = True
        for x in syms:
            lo, hi = s.bounds.get(x, (None, None))
            if lo is not None: facts.append(P(x) - lo)
            if hi is not None: facts.append(C(hi) - P(x))
        return facts, syms
    def entails(s, st, p):
        """p>=0 under the facts"""
        p = tighten(s.norm(st, p))
        c = p.const()
        if c is not None: return c >= 0
        lo, hi = s.rng(p)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        for f in st.facts:
            d = (p - f).const()
            if d is not None and d >= 0: return True
        k = (p, tuple(st.facts))
        r = s.cache.get(k)
        if r is not None: return r
        r = s._ent(st, p)
        s.cache[k] = r
        return r
    def _ent(s, st, p):
        facts, syms = s.factset(st, p.syms())
        rows = [f.t for f in facts] + [{(): 1}]
        if farkas(rows, p.t): return True
        nl = [m for f in facts + [p] for m in f.t if len(m) > 1]
        if nl:
            ns = set(x for m in nl for x in m)
            cand = [f for f in facts if f.syms() & ns and all(len(m) <= 1 for m in f.t) and len(f.syms()) <= 2]
            cand = cand[:14]; prods = []
            for m in set(nl):
                lo, hi = s.rng(Poly({m: 1}))
                if lo is not None: prods.append(Poly({m: 1}) - lo)
                if hi is not None: prods.append(C(hi) - Poly({m: 1}))
            for i in range(len(cand)):
                for j in range(i, len(cand)):
                    q = cand[i] * cand[j]
                    if any(m in q.t for m in nl): prods.append(q)
            if farkas(rows + [q.t for q in prods], p.t): return True
        return False
    def known(s, st, p):
        """True (p>=0), False (p<=-1) or None"""
        if s.entails(st, p): return True
        if s.entails(st, -p - 1): return False
        return None
    def infeasible(s, st):
        k = ('inf', tuple(st.facts))
        if k in s.cache: return s.cache[k]
        r = False
        for f in st.facts[-3:]:
            if f.const() is not None:
                if f.const() < 0: r = True
                continue
            st2 = st.clone(); st2.facts = [x for x in st.facts if x is not f]
            if s.entails(st2, -f - 1): r = True; break
        s.cache[k] = r
        return r
    def add(s, st, p):
        """assume p>=0; False if contradictory"""
        p = tighten(s.norm(st, p))
        c = p.const()
        if c is not None: return c >= 0
        if s.entails(st, -p - 1): return False
        if any((p - f).const() == 0 for f in st.facts): return True
        eq = any(f == -p for f in st.facts)
        if not eq and s.entails(st, -p): eq = True
        st.facts.append(p); st.trail = st.trail + [p]
        if eq: s.equate(st, p)
        return True
    def equate(s, st, p):
        """p==0: orient as a substitution if possible"""
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in k for k in p.t if k != m):
                x = m[0]; e = p - Poly({m: c}); e = -e if c == 1 else e
                if any(s.mentions(y, x) for y in e.syms()): continue
                d = 0 if x in s.defs else 1
                pri = (('K' in x.split('#')[0]) * 2, not x in s.defs, x)
                if best is None or pri > best[0]: best = (pri, x, e)
        if best is None: return
        x, e = best[1], best[2]
        lo, hi = s.bounds.get(x, (None, None))
        nf = [] 
        if lo is not None: nf.append(e - lo)
        if hi is not None: nf.append(C(hi) - e)
        st.sub[x] = e
        for k in list(st.sub):
            if k != x: st.sub[k] = st.sub[k].subst(x, e)
        for f in st.facts + nf:
            g = tighten(s.norm(st, f))
            if g.const() is None and g not in nf: nf.append(g)
            elif g.const() is not None and g.const() < 0: nf.append(g)
        seen = []; 
        for f in nf:
            f = tighten(s.norm(st, f))
            if f.const() is not None and f.const() >= 0: continue
            if f not in seen: seen.append(f)
        st.facts = seen
    # ---------- windows
    def window(s, st, v, signed):
        """the representative of v in its signed / unsigned window"""
        p = s.topoly(st, v, signed)
        w = v.w
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        M = 1 << w
        p = s.norm(st, p)
        c = p.const()
        if c is not None:
            c = (c - lo) % M + lo
            return C(c)
        # reduce coefficients that are multiples of 2^w away
        q = Poly({m: (k if abs(k) < M else k % M) for m, k in p.t.items()})
        p = q
        for i in range(4):
            if s.entails(st, p - lo):
                if s.entails(st, C(hi) - p): return p
                if s.entails(st, p - hi - 1): p = p - M; continue
                raise Fork(C(hi) - p)
            if s.entails(st, C(lo - 1) - p): p = p + M; continue
            raise Fork(p - lo)
        return s.defsym('wrap%d%d' % (w, signed), (p,), lo, hi)          # wrapped several times: only its range is known
    # ---------- bits
    def bits(s, st, v):
        if v.b is not None: return tuple(s.bitval(st, x) for x in v.b)
        p = s.norm(st, v.p); w = v.w
        return s.pbits(st, p, w)
    def pbits(s, st, p, w):
        M = 1 << w
        c = p.const()
        if c is not None: return tuple((c >> i) & 1 for i in range(w))
        p = Poly({m: k % M if k % M <= M // 2 else k % M - M for m, k in p.t.items()})
        # common power of two
        sh = 0
        while all(k % 2 == 0 for k in p.t.values()) and sh < w: p = Poly({m: k // 2 for m, k in p.t.items()}); sh += 1
        if sh: return (0,) * sh + s.pbits(st, p, w - sh) if sh < w else (0,) * w
        neg = 0
        j = min(((k & -k).bit_length() - 1 for m, k in p.t.items() if m), default=0); j = min(j, w)
        if j:
            c = p.t.get((), 0) % (1 << j); q = p - c
            lo = tuple((c >> i) & 1 for i in range(j))
            return lo + s.pbits(st, Poly({m: k >> j for m, k in q.t.items()}), w - j) if j < w else lo
        # complement: p = -q-1
        lead = min((m for m in p.t if m), key=lambda m: m)
        if p.t[lead] < 0: p = -p - 1; neg = 1
        # defined by bits?
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if len(m) == 1 and k == 1 and s.defs.get(m[0], ('',))[0] == 'bits':
                b = s.defs[m[0]][1]; ext = s.defs[m[0]][2]
                b = tuple(s.bitval(st, x) for x in b)
                b = b[:w] if len(b) >= w else b + ((b[-1],) if ext else (0,)) * (w - len(b))
                return tuple(s.bnot(x) for x in b) if neg else b
        r = [(p, i, neg) for i in range(w)]
        # known high bits
        k = None; base = s.rngf(st, p, w)
        if base is not None:
            lo, hi = base
            if lo >= 0:
                n = hi.bit_length(); 
                for i in range(n, w): r[i] = 0 ^ neg
            elif hi < 0:
                n = (-lo - 1).bit_length()
                for i in range(n, w): r[i] = 1 ^ neg
            else:
                n = max(hi.bit_length(), (-lo - 1).bit_length())
                for i in range(n + 1, w): r[i] = (p, n, neg)
        return tuple(s.bitval(st, x) for x in r)
    def rngf(s, st, p, w):
        lo, hi = s.rng(p)
        if s.entails(st, p): lo = max(lo or 0, 0)
        elif s.entails(st, -p - 1): hi = min(hi if hi is not None else -1, -1)
        for h in (w - 1, 32, 16, 8):          # tighten the range with the path's facts
            if h < w and (hi is None or hi >= 1 << h) and s.entails(st, C((1 << h) - 1) - p): hi = (1 << h) - 1
        if (lo is None or lo < -(1 << (w - 1))) and s.entails(st, p + (1 << (w - 1))): lo = -(1 << (w - 1))
        if lo is None or hi is None: return None
        if lo < -(1 << (w - 1)) or hi >= (1 << w) or (lo < 0 and hi >= 1 << (w - 1)): return None
        return lo, hi
    def bnot(s, b): return 1 - b if isinstance(b, int) else (b[0], b[1], 1 - b[2])
    def bitval(s, st, b):
        if isinstance(b, int): return b
        k = (b[0], b[1])
        if k in st.bitf: return st.bitf[k] ^ b[2]
        q = s.norm(st, b[0])
        if q != b[0]:
            # substituted polynomial
            r = s.pbits(st, q, b[1] + 1)[b[1]]
            return s.bnot(r) if b[2] else r
        return b
    def topoly(s, st, v, signed=True):
        if v.p is not None: return s.norm(st, v.p)
        b = s.bits(st, v); w = v.w
        if all(isinstance(x, int) for x in b):
            n = sum(x << i for i, x in enumerate(b)); return C(n - (1 << w) if signed and b[-1] else n)
        sh = 0
        while b[sh] == 0: sh += 1
        if sh: return s.topoly(st, V(w - sh, None, b[sh:]), signed) * (1 << sh)
        x = b[0]
        if not isinstance(x, int) and x[1] == 0:
            key, neg = x[0], x[2]; n = 0
            while n < w and b[n] == (key, n, neg): n += 1
            full = key if not neg else -key - 1
            rest = b[n:]
            if n == w: return full
            if all(y == 0 for y in rest): return s.window(st, V(n, full), False)
            if all(y == b[n - 1] for y in rest): return s.window(st, V(n, full), True)
            if all(y == 1 for y in rest): return s.window(st, V(n, full), False) - (1 << n) + (0 if signed else 1 << w)
        if all(y == b[0] for y in b):                     # sign mask
            raise BitFork(b[0])
        # known high part only: opaque value named by its bits
        n = w
        while n > 0 and b[n - 1] == 0: n -= 1
        if n < w: return s.defsym('bits', b[:n], 0, (1 << n) - 1, False)
        if signed: return s.defsym('bits', b, -(1 << (w - 1)), (1 << (w - 1)) - 1, True)
        return s.defsym('bits', b, 0, (1 << w) - 1, False)
    def same(s, st, a, b):
        """abstract equality of two integer values (mod 2^w)"""
        if a.w != b.w: return False
        if a.p is not None and b.p is not None:
            d = s.norm(st, a.p - b.p); M = 1 << a.w
            if all(c % M == 0 for c in d.t.values()): return True
            if s.entails(st, d) and s.entails(st, -d): return True
            for k in (M, -M):
                if s.entails(st, d + k) and s.entails(st, -d - k): return True
        try: 
            if s.bits(st, a) == s.bits(st, b): return True
        except (Fork, BitFork): pass
        return False
    # ---------- constants
    def const(s, st, v, ty):
        t = s.m.resolve(ty); k = v[0]
        if k == 'int': return V(s.width(t), C(v[1]))
        if k == 'flt':
            f = v[1]
            if f == int(f): return F(int(f), '', t[0] == 'f')
            raise CabsError('real constant %r' % f)
        if k == 'glob':
            n = v[1]
            if n in s.m.fns or n in s.m.decls:
                x = '@' + n
                if x not in s.bounds: s.psym(x); s.fn_syms[x] = n
                return V(s.ptrw, P(x))
            x = '@' + n
            if x not in s.bounds: s.psym(x)
            return V(s.ptrw, P(x))
        if k == 'undef': return V(s.width(t), P(s.fresh('undef'))) if t[0] in ('i', 'ptr') else F(P(s.fresh('undef')))
        if k == 'zero': return V(s.width(t), C(0))
        if k == 'gep':
            b = s.const(st, v[2], ('ptr',)); off = s.gepoff(st, v[1], [(('i', 64), s.const(st, i, ('i', 64))) for i in v[3]])
            return V(s.ptrw, b.p + off)
        if k == 'cast':
            x = s.const(st, v[3], v[2]); return V(s.width(s.m.resolve(v[4])), x.p)
        if k == 'cbin':
            a = s.const(st, v[3], v[2]); b = s.const(st, v[4], v[2])
            return V(a.w, {'add': a.p + b.p, 'sub': a.p - b.p, 'mul': a.p * b.p}[v[1]])
        raise CabsError('constant %r' % (v,))
    def width(s, t):
        if t[0] == 'i': return t[1]
        if t[0] == 'ptr': return s.ptrw
        raise CabsError('width of %r' % (t,))
    def gepoff(s, st, bt, ix):
        off = C(0); t = bt; first = True
        for it, v in ix:
            if first: off = off + s.idx(st, v) * s.m.size(t); first = False; continue
            t = s.m.resolve(t)
            if t[0] == 'arr': t = t[2]; off = off + s.idx(st, v) * s.m.size(t)
            elif t[0] == 'struct':
                n = s.topoly(st, v).const(); offs, _ = s.m.offsets(t); off = off + offs[n]; t = t[1][n]
            else: raise CabsError('gep into %r' % (t,))
        return off
    def idx(s, st, v):
        if v.w >= s.ptrw: return s.topoly(st, v)
        return s.window(st, v, True)
    # ---------- memory
    def base(s, p):
        """split an address into (region symbol, offset)"""
        bs = [m[0] for m, c in p.t.items() if len(m) == 1 and c == 1 and s.isregion(m[0])]
        if len(bs) == 1: return bs[0], p - P(bs[0])
        if not bs:
            c = [m[0] for m, k in p.t.items() if len(m) == 1 and k == 1 and s.bounds.get(m[0], (0, 0))[0] == 1 << 16]
            if len(c) == 1: return c[0], p - P(c[0])
            c = [m[0] for m, k in p.t.items() if len(m) == 1 and k == 1]
            if len(c) == 1: return c[0], p - P(c[0])
        return None, p
    def isregion(s, x): return s.bounds.get(x, (0, 0))[0] == 1 << 16 or x in s.regions
    regions = set()
    def store(s, st, addr, val, size, ins=None):
        b, off = s.base(s.topoly(st, addr))
        st.mem = st.mem + [('w', b, off, size, val, ins)]
    def load(s, st, addr, ty, ins=None):
        t = s.m.resolve(ty); size = s.m.size(t)
        p = s.topoly(st, addr)
        return s.loadmem(st, p, t, size, st.mem, ins)
    def loadmem(s, st, p, t, size, mem, ins=None, depth=0):
        b, off = s.base(p)
        for i in range(len(mem) - 1, -1, -1):
            w = mem[i]
            if w[1] != b: continue
            r = s.hit(st, w, off, size, t, mem[:i], depth)
            if r is not None: return r
        return s.initial(st, b, off, t, size)
    def conv(s, v, t, size, d=0):
        if isinstance(v, F): 
            if t[0] in ('f', 'd'): return v
            raise CabsError('real read as integer')
        if t[0] in ('f', 'd'): raise CabsError('integer read as real')
        w = s.width(t)
        if d == 0 and v.w == size * 8 and w == v.w: return v
        return None
    def hit(s, st, w, off, size, t, older, depth):
        kind = w[0]
        if kind == 'w':
            _, b, woff, wsz, val, _ = w
            d = s.norm(st, off - woff)
            c = d.const()
            if c is None:
                if s.entails(st, d - wsz) or s.entails(st, -d - size): return None
                if s.entails(st, d) and s.entails(st, -d): c = 0
                else:
                    raise Fork(d - wsz if not s.entails(st, C(wsz - 1) - d) else -d - size if not s.entails(st, d + size - 1) else d if not s.entails(st, d) else -d)
            if c >= wsz or c <= -size: return None
            if isinstance(val, F):
                if c == 0 and wsz == size and t[0] in ('f', 'd'): return val
                if c == 0 and wsz == size and t[0] == 'i': return s.isym('bitsof(%s,%s)' % val.key(), t[1])
                raise CabsError('partial read of a real')
            if t[0] in ('f', 'd'):
                if c == 0 and wsz == size and isinstance(val, V): return F(s.isym('realof(%s)' % s.norm(st, s.topoly(st, val)), 64).p)
                raise CabsError('integer read as real')
            w2 = s.width(t)
            if c == 0 and wsz == size: return V(w2, val.p, val.b) if val.w == w2 else s.zext(st, val, w2) if val.w < w2 else s.trunc(st, val, w2)
            if c >= 0 and c + size <= wsz:            # little-endian part
                bb = s.bits(st, val); return V(w2, None, tuple(bb[8 * c:8 * c + w2]))
            if c <= 0 and c + size >= wsz or True:     # assemble byte-wise
                raise CabsError('mixed-size read')
        if kind == 'r':                                 # for k in [0,n): mem[off(k)] = val(k)
            _, b, woff, wsz, val, k, n, ins = w
            if isinstance(ins, tuple) and ins[0] == 'nest': return s.hitnest(st, w, off, size, t)
            j = s.solve(st, woff, k, off)
            if j is None and s.coef(woff, k) == 0:          # the same cell every time: the last write stays
                d0 = s.norm(st, off - woff)
                if s.entails(st, -d0 - size) or s.entails(st, d0 - wsz): return None
                if d0 == 0 and s.entails(st, n - 1): j = n - 1
            if j is None:
                d0 = s.norm(st, off - woff.subst(k, C(0)))
                if s.entails(st, -d0 - size): return None
                dn = s.norm(st, off - s.subst(woff, k, n - 1))
                co = s.coef(woff, k)
                if co is not None and s.entails(st, co):
                    if s.entails(st, dn - wsz): return None
                if co is not None and co.const():               # same distance modulo the stride
                    import math
                    g = abs(co.const()); r0 = 0
                    for m, cf in d0.t.items():
                        if m: g = math.gcd(g, cf)
                        else: r0 = cf
                    if wsz <= r0 % g <= g - size: return None
                raise CabsError('cannot place offset %s in range write %s' % (off, woff))
            if s.entails(st, -j - 1) or s.entails(st, j - n): return None
            if not s.entails(st, j): raise Fork(j)
            if not s.entails(st, n - 1 - j): raise Fork(n - 1 - j)
            v = s.vsubst(val, k, j)
            if wsz != size: raise CabsError('mixed-size read of range')
            return v if isinstance(v, F) else V(s.width(t), v.p, v.b)
        if kind == 'c':                                 # block copy of n bytes
            _, b, woff, n, src, snap, ins = w
            d = s.norm(st, off - woff)
            if s.entails(st, -d - size) or s.entails(st, d - n): return None
            if not s.entails(st, d): raise Fork(d)
            if not s.entails(st, n - size - d): raise Fork(n - size - d)
            return s.loadmem(st, src + d, t, size, snap, None, depth + 1)
        if kind == 'z':                                 # havoc of a region
            return s.initial(st, b + w[2], off, t, size)
        raise CabsError('memory entry ' + kind)
    def hitnest(s, st, w, off, size, t):
        _, b, woff, wsz, val, k, n, (_, j, nj, ins) = w
        cands = [C(0)] + [P(x) for x in sorted(off.syms())] + [P(x) - 1 for x in sorted(off.syms())] + [n - 1]
        for kk in cands:
            o1 = s.subst(woff, k, kk); jj = s.solve(st, o1, j, off)
            if jj is None: continue
            n1 = s.subst(nj, k, kk)
            if s.entails(st, kk) and s.entails(st, n - 1 - kk) and s.entails(st, jj) and s.entails(st, n1 - 1 - jj):
                v = s.vsubst(s.vsubst(val, k, kk), j, jj); return v if isinstance(v, F) else V(s.width(t), v.p, v.b)
        # outside: below the first or above the last element
        lo = s.subst(s.subst(woff, k, C(0)), j, C(0)); hi = s.subst(woff, k, n - 1); hi = s.subst(hi, j, s.subst(nj, k, n - 1) - 1)
        if s.entails(st, lo - off - size) or s.entails(st, off - hi - wsz): return None
        raise CabsError('cannot place offset %s in nested range write %s' % (off, woff))
    def coef(s, p, k):
        r = Poly()
        for m, c in p.t.items():
            n = m.count(k)
            if n > 1: return None
            if n == 1:
                l = list(m); l.remove(k); r = r + Poly({tuple(l): c})
        for x in p.syms():
            if x != k and s.mentions(x, k): return None
        return r
    def solve(s, st, woff, k, off):
        """j with woff[k:=j] == off"""
        a = s.coef(woff, k)
        if a is None or a == 0: return None
        d = s.norm(st, off - woff.subst(k, C(0))); a = s.norm(st, a)
        return s.pdiv(d, a)
    def pdiv(s, d, a):
        """exact polynomial quotient d/a for a a single monomial, else None"""
        if d == 0: return C(0)
        if len(a.t) != 1: return C(1) if d == a else None
        (m, c), = a.t.items(); r = {}
        for n, k in d.t.items():
            l = list(n)
            for x in m:
                if x not in l: return None
                l.remove(x)
            if k % c: return None
            r[tuple(l)] = k // c
        return Poly(r)
    def vsubst(s, v, k, e):
        if isinstance(v, F): return F(s.subst(v.k, k, e), v.f, v.single)
        return V(v.w, s.subst(v.p, k, e) if v.p is not None else None, tuple(s.bsubst(b, k, e) for b in v.b) if v.b is not None else None)
    def initial(s, st, b, off, t, size):
        g = s.m.globals.get(b[1:]) if b and b[0] == '@' else None
        if g is not None and g[1] is not None and (g[2] or (s.init_globals and b[1:] not in s.mutable)):
            c = s.norm(st, off).const()
            if c is not None and not 0 <= c <= s.m.size(g[0]) - size: 
                if not s.infeasible(st): raise MemError('%d bytes are read at offset %d of %s, which has %d bytes' % (size, c, b[1:], s.m.size(g[0])))
            if c is None and g[1][0] != 'zero': raise CabsError('symbolic offset into initialised global ' + b)
            v = s.ginit(st, g[0], g[1], c or 0, t)
            if v is not None: return v
        if b is not None and b.startswith('&'):
            pass
        nm = b or '?'
        if t[0] in ('f', 'd'): return F(s.defsym('M' + nm, (off,), INF, INF, (size, 'f')), '', t[0] == 'f')
        w = s.width(t)
        lo, hi = (0, (1 << w) - 1) if nm in s.unsigned_regions else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if t[0] == 'ptr': lo, hi = 1 << 16, 1 << (47 if s.ptrw == 64 else 30)
        if size == s.ptrw // 8: tag = 'w'
        else: tag = size
        return V(w, s.defsym('M' + nm, (off,), lo, hi, (tag,)))
    unsigned_regions = set()
    def ginit(s, st, ty, val, off, t):
        ty = s.m.resolve(ty); k = val[0]
        if k == 'zero':
            return F(0) if t[0] in ('f', 'd') else V(s.width(t), C(0))
        if ty[0] == 'struct' and k == 'agg':
            offs, _ = s.m.offsets(ty)
            for i in range(len(offs) - 1, -1, -1):
                if off >= offs[i]: return s.ginit(st, val[1][i][0], val[1][i][1], off - offs[i], t)
        if ty[0] == 'arr':
            es = s.m.size(ty[2]); i = off // es
            if k == 'agg': return s.ginit(st, ty[2], val[1][i][1], off - i * es, t)
            if k == 'str':
                by = val[1]; n = s.m.size(t); v = 0
                for j in range(n): v |= (ord(by[off + j]) if off + j < len(by) else 0) << (8 * j)
                return V(s.width(t), C(v))
        if off == 0 and k in ('int', 'flt', 'glob', 'gep', 'cast', 'cbin'):
            v = s.const(st, val, ty)
            if isinstance(v, V) and s.m.size(ty) == s.m.size(t): return V(s.width(t), v.p)
            return v
        return None
    # ---------- arithmetic
    def trunc(s, st, v, w):
        if v.b is not None: return V(w, None, v.b[:w])
        return V(w, v.p)
    def zext(s, st, v, w):
        if v.b is not None: return V(w, None, tuple(s.bits(st, v)) + (0,) * (w - v.w))
        if v.w < 8: return V(w, s.window(st, v, False))
        p = s.norm(st, v.p)
        if s.inwin(st, p, v.w, False): return V(w, p)
        if s.lazy: return V(w, None, s.bits(st, v) + (0,) * (w - v.w))
        return V(w, s.window(st, v, False))
    def sext(s, st, v, w):
        if v.b is not None:
            b = s.bits(st, v); return V(w, None, b + (b[-1],) * (w - v.w))
        p = s.norm(st, v.p)
        if s.inwin(st, p, v.w, True): return V(w, p)
        if s.lazy:
            b = s.bits(st, v); return V(w, None, b + (b[-1],) * (w - v.w))
        return V(w, s.window(st, v, True))
    lazy = True
    def inwin(s, st, p, w, signed):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return s.entails(st, p - lo) and s.entails(st, C(hi) - p)
    def binop(s, st, op, a, b, w):
        if op in ('add', 'sub', 'mul'):
            x = s.topoly(st, a); y = s.topoly(st, b)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return V(w, r)
        if op in ('and', 'or', 'xor'):
            if op == 'xor':
                for x, y in ((a, b), (b, a)):
                    if y.p is not None and s.norm(st, y.p).const() is not None and (s.norm(st, y.p).const() + 1) % (1 << w) == 0 and x.p is not None: return V(w, -x.p - 1)
            A = s.bits(st, a); B = s.bits(st, b); r = []
            for x, y in zip(A, B): r.append(s.bitop(op, x, y))
            if any(x is None for x in r):
                if op == 'xor':
                    # only the sign of a xor b is tracked: decide both signs
                    sa = s.signof(st, a); sb = s.signof(st, b)
                    n = s.fresh('xor', 0 if sa == sb else -(1 << (w - 1)), (1 << (w - 1)) - 1 if sa == sb else -1)
                    return V(w, P(n))
                r = [x if x is not None else (P(s.fresh('mix')), 0, 0) for x in r]
            return V(w, None, tuple(r))
        if op in ('shl', 'lshr', 'ashr'):
            n = s.topoly(st, b, False).const()
            if n is None: return s.symshift(st, op, a, b, w)
            n %= (1 << b.w)
            if n >= w: return V(w, None, tuple((P('undef-shift'), i, 0) for i in range(w)))
            if op == 'shl':
                if a.p is not None: return V(w, a.p * (1 << n))
                return V(w, None, ((0,) * n + s.bits(st, a))[:w])
            A = s.bits(st, a)
            if op == 'lshr': return V(w, None, A[n:] + (0,) * n)
            return V(w, None, A[n:] + (A[-1],) * n)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            sg = op[0] == 's'
            x = s.window(st, a, sg); y = s.window(st, b, sg)
            if sg:
                nx = s.neg(st, x); ny = s.neg(st, y)
            else: nx = ny = False
            if not s.entails(st, y - 1 if not ny else -y - 1): raise Fork(y - 1 if not ny else -y - 1)
            q, r = s.divide(st, -x if nx else x, -y if ny else y)
            if op in ('sdiv', 'udiv'): return V(w, -q if nx != ny else q)
            return V(w, -r if nx else r)
        raise CabsError('operator ' + op)
    def symshift(s, st, op, a, b, w):
        k = P(s.fresh('shift')); return V(w, None, tuple((k, i, 0) for i in range(w)))      # nothing is known about the result
    def signof(s, st, v):
        return s.neg(st, s.window(st, v, True))
    def neg(s, st, p):
        k = s.known(st, p)
        if k is None: raise Fork(p)
        return not k
    def divide(s, st, A, B):
        A = s.norm(st, A); B = s.norm(st, B)
        if s.entails(st, A) and s.entails(st, B - 1 - A): return C(0), A
        cb = B.const(); Q = Poly(); R = A
        if cb is not None and A.const() is not None: return C(A.const() // cb), C(A.const() % cb)
        if cb is not None:
            for m, c in A.t.items():
                if m and c % cb == 0: Q = Q + Poly({m: c // cb}); R = R - Poly({m: c})
            k = R.t.get((), 0) // cb; Q = Q + k; R = R - k * cb
        elif len(B.t) == 1:
            (bm, bc), = B.t.items()
            for m, c in A.t.items():
                q = s.pdiv(Poly({m: c}), B)
                if q is not None and q != 0: Q = Q + q; R = R - q * B
        for k in (0, 1, -1, 2, -2):
            r = R - B * k
            if s.entails(st, r) and s.entails(st, B - 1 - r): return Q + k, r
        for c in s.qcands:                    # quotients the property's parametrisation names
            for k in (0, 1, -1):
                r = s.norm(st, A - (c + k) * B)
                if s.entails(st, r) and s.entails(st, B - 1 - r): return c + k, r
        for c in s.qcands:
            r = s.norm(st, A - c * B)
            for r in (r, r + B, r - B):
                if s.entails(st, r) and not s.entails(st, r - B): raise Fork(B - 1 - r)
        if not Q == 0 or s.divfork < 3:
            for k in (0, -1, 1):
                r = R - B * k
                if s.entails(st, r):
                    if not s.entails(st, r - B): raise Fork(B - 1 - r)
                elif not s.entails(st, -r - 1): raise Fork(r)
        q = s.defsym('quo', (A, B), 0, INF); r = s.defsym('rem', (A, B), 0, INF)
        for f in (A - q * B - r, q * B + r - A, r, B - 1 - r, q):
            if not any(x == f for x in st.facts): st.facts.append(f)
        return q, r
    divfork = 0; qcands = ()
    def bitop(s, op, x, y):
        if isinstance(x, int) and isinstance(y, int): return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        if isinstance(y, int): x, y = y, x
        if isinstance(x, int):
            if op == 'and': return y if x else 0
            if op == 'or': return 1 if x else y
            return s.bnot(y) if x else y
        if x == y: return 0 if op == 'xor' else x
        if x == s.bnot(y): return 0 if op == 'and' else 1
        return None
    def icmp(s, st, pr, a, b):
        w = a.w; M = 1 << w
        if pr in ('eq', 'ne'):
            if a.b is not None or b.b is not None:
                A = s.bits(st, a); B = s.bits(st, b); und = None; dif = 0
                for x, y in zip(A, B):
                    t = s.bitop('xor', x, y)
                    if t == 1: return int(pr == 'ne')
                    if t == 0: continue
                    dif += 1; und = t if dif == 1 else None
                if dif == 0: return int(pr == 'eq')
                if dif == 1 and und is not None: raise BitFork(und)
            d = s.norm(st, s.topoly(st, a) - s.topoly(st, b))
            c = d.const()
            if c is not None: return int((c % M == 0) == (pr == 'eq'))
            x = s.window(st, a, True); y = s.window(st, b, True)
            d = x - y
            if s.entails(st, d - 1) or s.entails(st, -d - 1): return int(pr == 'ne')
            if s.entails(st, d):
                if s.entails(st, -d): return int(pr == 'eq')
                raise Fork(d - 1)
            raise Fork(d)
        sg = pr[0] == 's'
        if pr in ('slt', 'sge') and b.p is not None and b.p == 0 and a.b is not None:
            t = s.bits(st, a)[-1]
            if not isinstance(t, int): raise BitFork(t)
            return t if pr == 'slt' else 1 - t
        x = s.window(st, a, sg); y = s.window(st, b, sg)
        d = {'gt': x - y - 1, 'ge': x - y, 'lt': y - x - 1, 'le': y - x}[pr[1:]]
        k = s.known(st, d)
        if k is None: raise Fork(d)
        return int(k)
    def fcmp(s, st, pr, a, b):
        if not isinstance(a, F) or not isinstance(b, F): raise CabsError('fcmp')
        rel = None
        d = s.norm(st, a.k - b.k)
        def dec(p):
            k = s.known(st, p)
            if k is None: raise Fork(p)
            return k
        if a.f == b.f:
            rel = 1 if dec(d - 1) else (-1 if dec(-d - 1) else 0)
        elif a.f and not b.f: rel = 1 if dec(d) else -1
        elif b.f and not a.f: rel = 1 if dec(d - 1) else -1
        else:
            if dec(d - 1): rel = 1
            elif dec(-d - 1): rel = -1
            else: raise CabsError('two fractions compared')
        o = pr[1:] if pr not in ('ord', 'uno') else pr
        if o == 'ord': return 1
        if o == 'uno': return 0
        return int({'eq': rel == 0, 'ne': rel != 0, 'gt': rel > 0, 'ge': rel >= 0, 'lt': rel < 0, 'le': rel <= 0}[o])
    # ---------- execution
    def call(s, name, args, st, depth=0):
        """outcomes of calling a defined function"""
        if depth > 40: raise CabsError('call depth')
        fn = s.m.fns.get(name)
        if fn is None: raise CabsError('undefined function ' + name)
        s.visited.add(name)
        env = {}
        for (t, n), v in zip(fn.params, args): env[n] = v
        info = s.cfg(fn)
        fr = {'fn': fn, 'info': info, 'depth': depth, 'va': args[len(fn.params):] if fn.vararg else None, 'al': {}, 'id': s.fresh('f')}
        out = []
        s.runfrom(fr, fn.order[0], 0, None, env, st, out, None, None)
        return out
    def cfg(s, fn):
        c = getattr(fn, '_cfg', None)
        if c: return c
        succ = {}
        for b, l in fn.blocks.items():
            t = l[-1] if l else None
            if t is None: succ[b] = []; continue
            succ[b] = [t.a[0]] if t.op == 'br' else [t.a[1], t.a[2]] if t.op == 'cbr' else [t.a[1]] + [x[1] for x in t.a[2]] if t.op == 'switch' else []
        # dominators
        order = fn.order; allb = set(order)
        dom = {b: set(allb) for b in order}; dom[order[0]] = {order[0]}
        pred = {b: [] for b in order}
        for b, l in succ.items():
            for x in l: pred[x].append(b)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b] if p in dom]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        loops = {}
        for b, l in succ.items():
            for h in l:
                if h in dom[b]:
                    body = loops.setdefault(h, {h}); w = [b]
                    while w:
                        x = w.pop()
                        if x not in body: body.add(x); w += pred[x]
        fn._cfg = c = {'succ': succ, 'pred': pred, 'loops': loops}
        return c
    def val(s, st, env, v, ty):
        if v[0] == 'reg':
            if v[1] not in env: raise CabsError('register %s' % v[1])
            return env[v[1]]
        return s.const(st, v, ty)
    def runfrom(s, fr, blk, i, prev, env, st, out, cnt, stop):
        """execute from instruction i of blk; stop=(header, collect, exits): traces that take the back edge / leave the loop body are collected"""
        work = [(blk, i, prev, env, st, stop is None)]
        loops = fr['info']['loops']
        while work:
            blk, i, prev, env, st, enter = work.pop()
            while True:
                if enter and i == 0 and blk in loops:
                    if stop is not None and stop[0] == blk: stop[1].append((prev, env, st)); break
                    try: lr = s.loop(fr, blk, prev, env, st)
                    except Fork as f:
                        s.nforks += 1
                        if s.nforks > s.MAXFORK: raise CabsError('too many partitions')
                        for q in (f.p, -f.p - 1):
                            n = st.clone()
                            if s.add(n, q): work.append((blk, 0, prev, dict(env), n, True))
                        break
                    for x in lr:
                        if isinstance(x, Outcome): out.append(x)
                        elif stop is not None and x[1] not in loops[stop[0]]: stop[2].append(x)
                        else: work.append((x[1], 0, x[2], x[3], x[4], True))
                    break
                enter = True
                ins = fr['fn'].blocks[blk][i]
                try: r = s.step(fr, ins, prev, blk, env, st, out)
                except Fork as f:
                    s.nforks += 1
                    if s.nforks > s.MAXFORK: raise CabsError('too many partitions')
                    for q in (f.p, -f.p - 1):
                        n = st.clone()
                        if s.add(n, q): work.append((blk, i, prev, dict(env), n, False))
                    break
                except BitFork as f:
                    s.nforks += 1
                    if s.nforks > s.MAXFORK: raise CabsError('too many partitions')
                    for bv in (0, 1):
                        n = st.clone(); n.bitf[(f.b[0], f.b[1])] = bv ^ f.b[2]
                        n.trail = n.trail + [('bit', f.b[0], f.b[1], bv ^ f.b[2])]
                        work.append((blk, i, prev, dict(env), n, False))
                    break
                if r is None: i += 1; continue
                if r[0] == 'goto':
                    nb = r[1]
                    if stop is not None and nb not in loops[stop[0]]:
                        stop[2].append(('exit', nb, blk, env, st)); break
                    prev, blk, i = blk, nb, 0; continue
                if r[0] == 'ret': out.append(Outcome('ret', r[1], st, ins)); break
                if r[0] == 'end': break
                if r[0] == 'multi':                     # call with several outcomes
                    for o in r[1]:
                        if o.kind != 'ret': out.append(o); continue
                        e = dict(env)
                        if ins.res: e[ins.res] = o.val
                        work.append((blk, i + 1, prev, e, o.st, True))
                    break
    def step(s, fr, ins, prev, blk, env, st, out):
        op = ins.op; a = ins.a
        if op == 'alloca':
            n = s.topoly(st, s.val(st, env, a[0], ('i', 64)))
            x = '&%s.%s.%s' % (fr['fn'].name, ins.res.strip('%'), fr['id'])
            if x not in s.bounds: s.psym(x)
            env[ins.res] = V(s.ptrw, P(x)); return
        if op == 'load': env[ins.res] = s.load(st, s.val(st, env, a[0], ('ptr',)), ins.ty, ins); return
        if op == 'store':
            v = s.val(st, env, a[0], s.m.resolve(ins.ty)) if a[0][0] not in ('agg', 'str') else None
            if v is None: raise CabsError('aggregate store')
            s.store(st, s.val(st, env, a[1], ('ptr',)), v, s.m.size(ins.ty), ins); return
        if op == 'gep':
            b = s.val(st, env, a[0], ('ptr',))
            off = s.gepoff(st, ins.ty, [(t, s.val(st, env, v, t)) for t, v in a[1]])
            env[ins.res] = V(s.ptrw, s.topoly(st, b) + off); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            t = s.m.resolve(ins.ty)
            env[ins.res] = s.binop(st, op, s.val(st, env, a[0], t), s.val(st, env, a[1], t), s.width(t)); return
        if op in ('fadd', 'fsub', 'fneg', 'fmul', 'fdiv'):
            t = s.m.resolve(ins.ty); x = s.val(st, env, a[0], t)
            if op == 'fneg': env[ins.res] = s.fneg(x); return
            y = s.val(st, env, a[1], t)
            if op == 'fsub': y = s.fneg(y)
            if op in ('fadd', 'fsub'):
                if x.f and y.f: raise CabsError('sum of fractions')
                env[ins.res] = F(x.k + y.k, x.f or y.f); return
            raise CabsError('operator ' + op)
        if op == 'icmp':
            t = s.m.resolve(ins.ty); env[ins.res] = V(1, C(s.icmp(st, a[0], s.val(st, env, a[1], t), s.val(st, env, a[2], t)))); return
        if op == 'fcmp':
            t = s.m.resolve(ins.ty); env[ins.res] = V(1, C(s.fcmp(st, a[0], s.val(st, env, a[1], t), s.val(st, env, a[2], t)))); return
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            ft = s.m.resolve(a[0]); x = s.val(st, env, a[1], ft); t = s.m.resolve(ins.ty)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                if isinstance(x, F): env[ins.res] = x; return
                w = s.width(t)
                env[ins.res] = x if x.w == w else s.trunc(st, x, w) if x.w > w else s.zext(st, x, w); 
                if x.w == w: env[ins.res] = V(w, x.p, x.b)
                return
            if op == 'trunc': env[ins.res] = s.trunc(st, x, s.width(t)); return
            if op == 'zext': env[ins.res] = s.zext(st, x, s.width(t)); return
            if op == 'sext': env[ins.res] = s.sext(st, x, s.width(t)); return
            if op in ('fptosi', 'fptoui'):
                if not x.f: env[ins.res] = V(s.width(t), x.k); return
                if s.neg(st, x.k): env[ins.res] = V(s.width(t), x.k + 1)
                else: env[ins.res] = V(s.width(t), x.k)
                return
            if op in ('sitofp', 'uitofp'): env[ins.res] = F(s.window(st, x, op == 'sitofp')); return
            if op == 'fptrunc' and not x.single: env[ins.res] = F(P(s.fresh('rounded')), '', True); return
            env[ins.res] = x; return
        if op == 'br': return ('goto', a[0])
        if op == 'cbr':
            c = s.val(st, env, a[0], ('i', 1)); k = s.cond(st, c)
            return ('goto', a[1] if k else a[2])
        if op == 'switch':
            t = s.m.resolve(ins.ty); v = s.val(st, env, a[0], t)
            for k, b in a[2]:
                if s.icmp(st, 'eq', v, V(v.w, C(k))): return ('goto', b)
            return ('goto', a[1])
        if op == 'phi':
            for v, b in a[0]:
                if b == prev: env[ins.res] = s.val(st, env, v, ins.ty); return
            raise CabsError('phi without %s' % prev)
        if op == 'select':
            c = s.val(st, env, a[0], ('i', 1)); k = s.cond(st, c)
            env[ins.res] = s.val(st, env, a[1] if k else a[2], ins.ty); return
        if op == 'ret': return ('ret', s.val(st, env, a[0], s.m.resolve(ins.ty)) if a[0] is not None else None)
        if op == 'unreachable': return ('end',)
        if op == 'freeze': env[ins.res] = s.val(st, env, a[1], ins.ty); return
        if op == 'call': return s.docall(fr, ins, env, st)
        raise CabsError('instruction ' + op)
    def fneg(s, x):
        if not x.f: return F(-x.k, '', x.single)
        return F(-x.k - 1, x.f[1:] if x.f[0] == '-' else '-' + x.f, x.single)
    def cond(s, st, c):
        if c.b is not None:
            b = s.bits(st, c)[0]
            if not isinstance(b, int): raise BitFork(b)
            return b
        p = s.norm(st, c.p).const()
        if p is not None: return p % 2
        b = s.bits(st, c)[0]
        if isinstance(b, int): return b
        raise BitFork(b)
    def docall(s, fr, ins, env, st):
        c, args, va = ins.a
        vals = [s.val(st, env, v, s.m.resolve(t)) if t[0] != 'meta' and v is not None and v[0] not in ('agg',) else None for t, v in args]
        name = None
        if c[0] == 'glob': name = c[1]
        else:
            cv = s.topoly(st, s.val(st, env, c, ('ptr',)))
            n = [m[0] for m, k in cv.t.items() if len(m) == 1 and k == 1]
            if len(cv.t) == 1 and len(n) == 1 and n[0] in s.fn_syms: name = s.fn_syms[n[0]]
            else:
                st.events = st.events + [('icall', cv, tuple(vals), ins)]
                if ins.res: env[ins.res] = s.anyval(ins.ty)
                return
        if name.startswith('llvm.'): return s.intrinsic(fr, name, ins, vals, env, st)
        h = s.handlers.get(name)
        if h is not None:
            r = h(s, st, vals, ins)
            if isinstance(r, tuple) and r and r[0] == 'end': 
                return ('multi', [Outcome(r[1], r[2], st, ins)])
            if ins.res: env[ins.res] = r
            return
        if name in s.m.fns:
            o = s.call(name, vals, st.clone(), fr['depth'] + 1)
            return ('multi', o)
        h = DEFAULT.get(name)
        if h is not None:
            r = h(s, st, vals, ins)
            if isinstance(r, tuple) and r and r[0] == 'end': return ('multi', [Outcome(r[1], r[2], st, ins)])
            if ins.res: env[ins.res] = r
            return
        r = s.anyval(ins.ty, name)
        st.events = st.events + [('call', name, tuple(vals), ins)]
        if ins.res: env[ins.res] = r
    def anyval(s, ty, hint='ret'):
        t = s.m.resolve(ty)
        if t[0] == 'void': return None
        if t[0] in ('f', 'd'): return F(P(s.fresh(hint)))
        if t[0] == 'ptr': return s.psym(s.fresh(hint))
        return s.isym(s.fresh(hint), s.width(t))
    def intrinsic(s, fr, name, ins, v, env, st):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): memcpy(s, st, v, ins); return
        if name.startswith('llvm.va_start'):
            p = s.topoly(st, v[0])
            fid = s.topoly(st, V(s.ptrw, P(s.va_region(fr))))
            b, off = s.base(p)
            n = s.ptrw // 8
            if s.ptrw == 64 and 'windows' not in getattr(s.m, 'triple', ''):
                st.mem = st.mem + [('w', b, off, 4, V(32, C(48)), ins), ('w', b, off + 4, 4, V(32, C(176)), ins), ('w', b, off + 8, 8, V(64, fid), ins), ('w', b, off + 16, 8, V(64, C(0)), ins)]
            else:
                st.mem = st.mem + [('w', b, off, n, V(s.ptrw, fid), ins)]
            # argument slots
            if not any(e[0] == 'va' and e[1] == fr['id'] for e in st.events if isinstance(e, tuple)):
                m = []; o = 0
                for x in (fr['va'] or []):
                    sz = max(n, (x.w + 7) // 8) if isinstance(x, V) else 8
                    m.append(('w', s.va_region(fr), C(o), sz, s.sext(st, x, sz * 8) if isinstance(x, V) and x.w < sz * 8 else x, ins)); o += sz
                st.mem = st.mem + m; st.events = st.events + [('va', fr['id'])]
            return
        if name.startswith('llvm.va_end') or name.startswith('llvm.lifetime') or name.startswith('llvm.stack') or name.startswith('llvm.dbg'):
            if ins.res: env[ins.res] = s.psym(s.fresh('stack'))
            return
        if name.startswith('llvm.abs'):
            x = s.window(st, v[0], True); env[ins.res] = V(v[0].w, -x if s.neg(st, x) else x); return
        if name.startswith('llvm.fabs'):
            x = v[0]; env[ins.res] = s.fneg(x) if s.neg(st, x.k) else x; return
        if name.startswith('llvm.floor'): env[ins.res] = F(v[0].k); return
        if name.startswith('llvm.fsh'):
            n = s.topoly(st, v[2], False).const(); w = v[0].w
            if n is None: raise CabsError('funnel shift count')
            n %= w; A = s.bits(st, v[0]); B = s.bits(st, v[1]); full = B + A      # low word B, high word A
            env[ins.res] = V(w, None, full[w - n:2 * w - n] if 'fshl' in name else full[n:n + w]); return
        raise CabsError('intrinsic ' + name)
    def va_region(s, fr):
        x = '&va.' + fr['id']
        if x not in s.bounds: s.psym(x)
        return x
    # ---------- loops
    def loop(s, fr, h, prev, env, st):
        """outcomes and exits of the loop with header h entered in state st"""
        res = []; cur = [(prev, env, st, 0)]
        while cur:
            prev, env, st, n = cur.pop()
            out = []; back = []; exits = []
            s.runfrom(fr, h, 0, prev, dict(env), st.clone(), out, None, (h, back, exits))
            if n > s.maxloop: raise CabsError('loop in %s not summarised' % fr['fn'].name)
            if not back: res += out + exits; continue
            if not exits:                    # first iteration decided: closed form if exact, otherwise go round
                r = None
                if n == 0:
                    nf, mf = s.nforks, s.MAXFORK; s.MAXFORK = min(mf, nf + 80)
                    try: r = s.summarise(fr, h, prev, env, st, back, True)
                    except CabsError: r = None
                    finally: s.MAXFORK = mf
                    if r is None: s.nforks = nf
                if r is not None and r and not all(s.tripconst(x) for x in r): res += out + r; continue
                res += out
                for b in back: cur.append((b[0], b[1], b[2], n + 1))
                continue
            r = s.summarise(fr, h, prev, env, st, back)
            if r is None:
                # no closed form from this entry state: peel one iteration (bounded)
                if n >= 3: raise CabsError('loop in %s has no closed form: %s' % (fr['fn'].name, s.why))
                res += out + exits
                for b in back: cur.append((b[0], b[1], b[2], n + 1))
                continue
            res += out + exits + r
        return res
    why = ''
    def cells(s, st0, st1):
        """scalar cells of entry state changed by st1: {(base, off): size}"""
        new = st1.mem[len(st0.mem):]
        return new
    def body(s, fr, h, prev, env, g, out, bk, ex, last):
        """one iteration from header state g; with `last`, an iteration after which the loop can only end counts as part of the exit"""
        mine = []; s.runfrom(fr, h, 0, prev, env, g, out, None, (h, mine, ex))
        for b in mine:
            if last:
                o2 = []; b2 = []; e2 = []
                s.runfrom(fr, h, 0, b[0], dict(b[1]), b[2].clone(), o2, None, (h, b2, e2))
                if not b2: out += o2; ex += e2; continue
            bk.append(b)
    def summarise(s, fr, h, prev, env, st, back, strict=False):
        """states after K>=1 iterations; the K=0 exits were produced by the caller"""
        r = s.summarise1(fr, h, prev, env, st, back, strict, False)
        if r is None and s.retry_last and not strict:
            rest = []; o2 = []; e2 = []
            for b in back:
                o3 = []; b3 = []; e3 = []
                s.runfrom(fr, h, 0, b[0], dict(b[1]), b[2].clone(), o3, None, (h, b3, e3))
                if b3: rest.append(b)
                else: o2 += o3; e2 += e3
            if rest:
                r = s.summarise1(fr, h, prev, env, st, rest, strict, True)
                if r is not None: r = o2 + e2 + r
        return r
    retry_last = False
    def summarise1(s, fr, h, prev, env, st, back, strict, last):
        s.retry_last = False
        # 1. which frame cells does the loop write
        body = fr['info']['loops'][h]
        cells = {}
        for b in back:
            for w in b[2].mem[len(st.mem):]:
                if w[0] == 'w' and w[1] and w[1].startswith('&') and w[2].const() is not None and not w[1].startswith('&va.'):
                    cells.setdefault((w[1], w[2].const()), w[3])
        k = 'k%d' % s.newk(); s.bounds[k] = (0, 1 << 60)
        # the first iteration completes: its guards (common to all its ways round) hold in the entry state
        st = st.clone()
        com = [f for f in back[0][2].trail[len(st.trail):] if isinstance(f, Poly) and all(any(isinstance(g, Poly) and g == f for g in b[2].trail[len(st.trail):]) for b in back)]
        for f in com:
            if not s.add(st, f): s.why = 'entry'; return None
        guards0 = None; inv = []
        # entry values
        entry = {}; hs = {}
        for (b, o), sz in cells.items():
            entry[(b, o)] = s.cellval(st, b, o, sz)
        # 2. iterate: body from generic header
        closed = {}
        def header(form):
            g = st.clone(); g.trail = list(st.trail); m = list(st.mem)
            for f in inv: s.add(g, f)
            g.trail = list(st.trail)
            for c, sz in cells.items():
                v = form.get(c)
                if v is not None: m.append(('w', c[0], C(c[1]), sz, v, None))
            g.mem = m
            return g
        form = {}
        for c, sz in cells.items():
            v = entry[c]
            if isinstance(v, F): s.why = 'real loop variable'; return None
            x = s.fresh('h', *( (1 << 16, 1 << (47 if s.ptrw == 64 else 30)) if (v is not None and v.w == s.ptrw and v.p is not None and s.base(s.norm(st, v.p))[0] and s.isptr(st, v)) else (INF, INF)))
            w = v.w if v is not None else sz * 8
            if v is not None and s.isptr(st, v):
                # pointer cell: base + unknown displacement keeps the region
                bb, oo = s.base(s.norm(st, v.p)); s.bounds[x] = (INF, INF); form[c] = V(w, P(bb) + P(x)); hs[c] = (x, P(bb))
            else: 
                s.bounds[x] = (-(1 << (w - 1)), (1 << (w - 1)) - 1); form[c] = V(w, P(x)); hs[c] = (x, C(0))
        allg = []
        for rnd in range(4):
            g = header(form)
            g.facts = list(g.facts)
            out = []; bk = []; ex = []
            try: s.body(fr, h, prev, dict(env), g.clone(), out, bk, ex, last)
            except CabsError as e:
                s.why = str(e); return None
            s.promote(st, bk, ex, [x for x, _ in hs.values()] + [k])
            for b in bk:
                for f in b[2].trail[len(g.trail):]:
                    if isinstance(f, Poly) and f not in allg: allg.append(f)
            if guards0 is None and bk:
                n0 = len(g.trail)
                guards0 = [f for f in bk[0][2].trail[n0:] if isinstance(f, Poly) and all(any(isinstance(x, Poly) and x == f for x in b[2].trail[n0:]) for b in bk)]
            nf = {}; changed = False; unknown = []
            for c, sz in cells.items():
                if c in closed: nf[c] = closed[c]; continue
                x, bb = hs[c]; vals = [s.cellval(b[2], c[0], c[1], sz) for b in bk]
                e = entry[c]
                if any(v is None for v in vals): s.why = 'cell lost'; return None
                if all(s.same(b[2], v, form[c]) for b, v in zip(bk, vals)):
                    if e is None: unknown.append(c); continue
                    closed[c] = e; nf[c] = e; changed = True; continue
                ds = []
                for b, v in zip(bk, vals):
                    if v.p is None or form[c].p is None: ds.append(None); continue
                    ds.append(s.norm(b[2], v.p - form[c].p))
                hset = set(x2 for x2, _ in hs.values())
                if e is not None and e.p is not None and all(d is not None and d == ds[0] for d in ds) and not (s.allsyms(ds[0]) & hset):
                    closed[c] = V(form[c].w, s.norm(st, e.p) + ds[0] * P(k)); nf[c] = closed[c]; changed = True; continue
                unknown.append(c)
                if not last and len(bk) > 1 and not strict: 
                    # some way round may be possible only as the last one
                    for b in bk:
                        b2 = []; s.runfrom(fr, h, 0, b[0], dict(b[1]), b[2].clone(), [], None, (h, b2, []))
                        if not b2: s.retry_last = True; s.why = 'last iteration differs'; return None
            if not unknown: form = nf; break
            if changed:
                for c in unknown: nf[c] = form[c]
                form = nf; continue
            # derived cells: value at the end of iteration as a function of k
            prog = False
            for c in unknown:
                vals = [s.cellval(b[2], c[0], c[1], cells[c]) for b in bk]
                v0 = vals[0]
                if not all(v.p is not None and v0.p is not None and s.norm(b[2], v.p) == s.norm(bk[0][2], v0.p) for b, v in zip(bk, vals)): continue
                E = s.norm(bk[0][2], v0.p)
                if any(hs[u][0] in s.allsyms(E) for u in unknown): continue
                prevE = s.subst(E, k, P(k) - 1)
                z = s.subst(prevE, k, C(0))
                e = entry[c]
                if e is None: continue
                ez = s.norm(st, e.p) if e.p is not None else None
                if ez is not None and s.same(st, V(e.w, z), e):
                    closed[c] = V(e.w, prevE); nf[c] = closed[c]; prog = True
            for c in unknown:
                if c not in nf: nf[c] = form[c]
            form = nf
            if prog: continue
            # remaining cells: unknown at the header (never read before written, or havoc)
            if strict: return None
            for c in unknown: closed[c] = form[c]
            s.havoc = [hs[c][0] for c in unknown]
            break
        else:
            s.why = 'no fixpoint'; return None
        # inductive invariants: the guard of the previous iteration, if it also holds before the first
        for f in guards0 or []:
            for c in cells:
                x, bb = hs[c]
                if c in closed and closed[c].p is not None: f = s.subst(f, x, closed[c].p - bb)
            if s.allsyms(f) & set(x for x, _ in hs.values()) or not s.mentionsk(f, k): continue
            q = s.subst(f, k, P(k) - 1)
            if s.entails(st, s.subst(q, k, C(0))): inv.append(q)
        # further candidates (guards of some way round): kept if they hold on entry and every way round re-establishes them
        cand = []
        for f in allg:
            for c in cells:
                x, bb = hs[c]
                if c in closed and closed[c].p is not None: f = s.subst(f, x, closed[c].p - bb)
            if s.allsyms(f) & set(x for x, _ in hs.values()) or not s.mentionsk(f, k): continue
            q = s.norm(st, s.subst(f, k, P(k) - 1))
            if q not in inv and q not in cand and s.entails(st, s.subst(q, k, C(0))): cand.append(q)
        base = list(inv)
        for _ in range(4):
            if not cand: break
            inv[:] = base + cand
            g = header(form); bk = []
            try: s.body(fr, h, prev, dict(env), g, [], bk, [], last)
            except CabsError: cand = []; break
            bad = [q for q in cand if not all(s.entails(b[2], s.subst(q, k, P(k) + 1)) for b in bk)]
            if not bad: break
            cand = [q for q in cand if q not in bad]
        else: cand = []
        inv[:] = base + cand
        # 3. final generic iteration with quantified writes of earlier iterations
        hvs = set(hs[c][0] for c in cells if c in closed and closed[c].p is not None and hs[c][0] in closed[c].p.syms())
        g = header(form); out = []; bk = []; ex = []
        base_facts = len(g.trail)
        s.body(fr, h, prev, dict(env), g.clone(), out, bk, ex, last)
        ranges = s.ranges(st, g, bk, cells, k)
        if ranges is None: return None
        if ranges[0]:
            g = header(form); g.mem = list(st.mem) + [r[:6] + (P(k), r[7]) if r[0] == 'r' else r for r in ranges[0]] + g.mem[len(st.mem):]
            nm = len(g.mem)
            out = []; bk = []; ex = []
            s.body(fr, h, prev, dict(env), g.clone(), out, bk, ex, last)
            rs2 = s.ranges(st, g, bk, cells, k, nm)
            if rs2 is None: return None
            ranges = rs2
        s.promote(st, bk, ex, list(hvs) + [k])
        if not bk: return []
        # guards of an iteration
        guards = []
        for b in bk: guards.append([f for f in b[2].trail[len(st.trail):]])
        K = self_K = s.fresh('K', 1, 1 << 60)
        res = []
        # events
        ev = []
        if any(b[2].events[len(g.events):] for b in bk):
            ev = [('for', k, P(K), [tuple(b[2].events[len(g.events):]) for b in bk])]
        for kind, x in [('exit', e) for e in ex] + [('out', o) for o in out]:
            xs = x[4] if kind == 'exit' else x.st
            n = xs.clone()
            sub = lambda p: s.subst(p, k, P(K))
            ok = True
            nf = []
            n.facts = list(st.facts); n.sub = dict(st.sub); n.trail = list(st.trail); n.bitf = dict(st.bitf)
            # first and last completed iteration's guards (single-path bodies only)
            if True:
                for at in (C(0), P(K) - 1):
                    for f in guards[0]:
                        if isinstance(f, Poly) and all(any(isinstance(y, Poly) and y == f for y in q) for q in guards[1:]):
                            if s.allsyms(f) & hvs: continue
                            if not s.add(n, s.subst(f, k, at)): ok = False
            for f in xs.trail[len(st.trail):]:
                if isinstance(f, Poly):
                    if ok and not s.add(n, s.subst(f, k, P(K))): ok = False
                else: n.bitf[(s.subst(f[1], k, P(K)), f[2])] = f[3]
            if not ok: continue
            n.mem = [s.msubst(w, k, P(K)) for w in xs.mem[len(g.mem):]]
            pre = list(st.mem) + [r[:6] + (P(K), r[7]) for r in ranges[0]]
            hd = [('w', c[0], C(c[1]), sz, s.vsubst(form[c], k, P(K)), None) for c, sz in cells.items()]
            n.mem = pre + hd + n.mem
            n.events = list(st.events) + ev + [s.evsubst(e, k, P(K)) for e in xs.events[len(g.events):]]
            n.trail = n.trail + [('forall', k, P(K), tuple(tuple(q) for q in guards))]
            if kind == 'exit':
                e2 = {r: (s.vsubst(v, k, P(K)) if isinstance(v, (V, F)) else v) for r, v in x[3].items()}
                res.append(('exit', x[1], x[2], e2, n))
            else:
                res.append(Outcome(x.kind, s.vsubst(x.val, k, P(K)) if isinstance(x.val, (V, F)) else x.val, n, x.ins))
        return res
    def mentionsk(s, f, k): return any(s.mentions(x, k) for x in f.syms())
    def tripconst(s, x):
        st = x.st if isinstance(x, Outcome) else x[4]
        f = [t for t in st.trail if isinstance(t, tuple) and t[0] == 'forall']
        return bool(f) and s.norm(st, f[-1][2]).const() is not None
    def newk(s): s.n += 1; return s.n
    def isptr(s, st, v):
        if v is None or v.p is None or v.w != s.ptrw: return False
        p = s.norm(st, v.p); b, o = s.base(p)
        return b is not None and s.isregion(b)
    def cellval(s, st, b, o, sz):
        for i in range(len(st.mem) - 1, -1, -1):
            w = st.mem[i]
            if w[0] == 'w' and w[1] == b and w[2].const() == o and w[3] == sz: return w[4]
            if w[1] == b: 
                d = w[2].const() if w[0] == 'w' else None
                if d is not None and (d + w[3] <= o or d >= o + sz): continue
                return None
        return None
    def promote(s, st, bk, ex, local):
        """a fact of an iteration that speaks only about the loop-invariant entry state splits the entry state instead"""
        loc = set(local)
        for b in [x[2] for x in bk] + [x[4] for x in ex]:
            for f in b.trail[len(st.trail):]:
                if isinstance(f, Poly) and not (s.allsyms(f) & loc) and not any(x.split('#')[0] in ('K',) and x not in s.allsyms_state(st) for x in s.allsyms(f)):
                    if all(x in s.allsyms_state(st) or x in s.defs for x in f.syms()) and s.known(st, f) is None: raise Fork(f)
    def allsyms_state(s, st):
        r = set()
        for f in st.facts: r |= s.allsyms(f)
        for w in st.mem:
            if w[0] == 'w' and isinstance(w[4], V) and w[4].p is not None: r |= s.allsyms(w[4].p)
            elif w[0] == 'r': r |= s.allsyms(w[6]) | s.allsyms(w[2])
        for x in s.bounds:
            if '#' not in x and not x.startswith('k'): r.add(x)
        return r
    def ranges(s, st, g, bk, cells, k, start=None):
        r = []
        nst = start if start is not None else len(g.mem)
        def wk(w): return tuple(x.key() if isinstance(x, (V, F)) else x for x in w[1:5])
        for b in bk:
            for w in b[2].mem[start if start is not None else len(g.mem):]:
                if w[0] == 'w' and w[1] and w[1].startswith('&') and w[2].const() is not None and (w[1], w[2].const()) in cells: continue
                if w[0] == 'w' and w[1] and w[1].startswith('&va.'): continue
                if w[0] == 'w':
                    if not all(any(y[0] == 'w' and wk(y) == wk(w) for y in q[2].mem[nst:]) for q in bk): s.why = 'conditional write in loop'; return None
                    r.append(('r', w[1], w[2], w[3], w[4], k, None, w[5])); continue
                if w[0] == 'r':
                    # nested: the inner index stays quantified inside the outer one
                    r.append(('r2', w, k)); continue
                s.why = 'block copy in loop'; return None
        out = []
        for x in r:
            if x[0] == 'r2':
                f = s.flatten(st, x[1], k)
                if f is None: s.why = 'nested range write'; return None
                out.append(f)
            else: out.append(x)
        uniq = []
        for x in out:
            if not any(wk(y) == wk(x) for y in uniq): uniq.append(x)
        return uniq, None
    def flatten(s, st, w, k):
        """for k: for j<n: m[a+A*k+c*j]=v   kept as a doubly indexed range"""
        _, b, off, sz, val, j, n, ins = w
        return ('r', b, off, sz, val, k, None, ('nest', j, n, ins))
    def msubst(s, w, k, e):
        if w[0] == 'w': return ('w', w[1], s.subst(w[2], k, e), w[3], s.vsubst(w[4], k, e), w[5])
        if w[0] == 'r': return ('r', w[1], s.subst(w[2], k, e), w[3], s.vsubst(w[4], k, e), w[5], s.subst(w[6], k, e), w[7])
        if w[0] == 'c': return ('c', w[1], s.subst(w[2], k, e), s.subst(w[3], k, e), s.subst(w[4], k, e), w[5], w[6])
        return w
    def evsubst(s, e, k, x):
        if isinstance(e, tuple): return tuple(s.evsubst(y, k, x) for y in e)
        if isinstance(e, list): return [s.evsubst(y, k, x) for y in e]
        if isinstance(e, Poly): return s.subst(e, k, x)
        if isinstance(e, (V, F)): return s.vsubst(e, k, x)
        return e

def memcpy(eng, st, v, ins):
    d = eng.topoly(st, v[0]); sp = eng.topoly(st, v[1]); n = eng.window(st, v[2], False)
    b, off = eng.base(d)
    st.mem = st.mem + [('c', b, off, n, sp, list(st.mem), ins)]
    st.events = st.events + [('memcpy', d, sp, n, ins)]
    return v[0]
def h_alloca(eng, st, v, ins):
    st.events = st.events + [('alloca', eng.topoly(st, v[0]), ins)]
    return eng.psym(eng.fresh('&alloca'))
def h_halt(eng, st, v, ins): return ('end', 'halt', eng.window(st, v[0], True).const())
def h_floor(eng, st, v, ins): return F(v[0].k)
def h_labs(eng, st, v, ins):
    x = eng.window(st, v[0], True); return V(v[0].w, -x if eng.neg(st, x) else x)
def h_fabs(eng, st, v, ins):
    x = v[0]; return eng.fneg(x) if eng.neg(st, x.k) else x
DEFAULT = {'memcpy': memcpy, 'memmove': memcpy, 'alloca': h_alloca, 'Modules_Halt': h_halt, 'floor': h_floor, 'labs': h_labs, 'llabs': h_labs, 'abs': h_labs, 'fabs': h_fabs}

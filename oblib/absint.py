"""Abstract interpreter over the resolved Oberon-2 syntax tree.

Abstract state  = environment (location -> abstract value)
                + facts       (abstract value -> constant set / exclusion set / interval)
                + client part (finite, chosen by the rule that runs the analysis)
                + trace node  (position in an event automaton)
Analyses are disjunctive (a bounded set of abstract states per program point,
merged when the bound is exceeded), loops are solved by a fixpoint: everything a
loop body can modify is havocked at its head and the client part is iterated
until no new state appears.  Calls are inlined, handled by a rule, or havocked
with the callee's transitive modification set.  Nothing is executed, and no path
condition is handed to a solver: a condition either follows from the facts by
constant/interval/set reasoning, or both branches are taken.
"""
import math, struct, sys
from .front import Node, Obj, callee, walk, const_value, children, show
from .harness import Broken

class Budget(Exception): pass

C = lambda v: ('c', v)
NIL = ('c', None)
TRUE = ('c', True)
FALSE = ('c', False)
INF = float('inf')

def isc(v): return v[0] == 'c'

# fact = (inset or None, outset, lo, hi)
TOPF = (None, frozenset(), -INF, INF)

class State:
    __slots__ = ('env', 'facts', 'gens', 'cl', 'tr', 'made')
    def __init__(s, env=None, facts=None, gens=None, cl=None, tr=0, made=frozenset()):
        s.made = made            # symbols created on this path (not part of the identity)
        s.env = env if env is not None else {}
        s.facts = facts if facts is not None else {}
        s.gens = gens if gens is not None else {}
        s.cl = cl if cl is not None else ()
        s.tr = tr
    def copy(s): return State(dict(s.env), dict(s.facts), dict(s.gens), s.cl, s.tr, s.made)
    def key(s):
        return (frozenset(s.env.items()), frozenset(s.facts.items()), frozenset(s.gens.items()), s.cl, s.tr)

_mention = {}
def mentions(v, sym):
    """does tuple v contain sym as a sub-term"""
    if v == sym: return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, sym): return True
    return False

def flip(op): return {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]

class Mods:
    """transitive modification sets: set of Obj (global/outer variables, fields), ('par', i), or 'ALL'"""
    def __init__(s, pure=()):
        s.memo = {}; s.pure = set(pure)
    @staticmethod
    def root(d):
        """the variable, parameter or field whose storage a designator denotes"""
        while True:
            if d.k == 'name': return d.a
            if d.k == 'field': return d.b
            if d.k in ('index', 'guard', 'super'): d = d.a
            elif d.k == 'deref': 
                d2 = d.a
                # p^ := / p^[i] := : storage reached through the pointer; name it by the pointer holder
                d = d2
            else: return None
    def of(s, p):
        if p in s.memo: return s.memo[p]
        # collect the call graph closure, then iterate
        order = []; seen = set(); st = [p]
        while st:
            q = st.pop()
            if q in seen: continue
            seen.add(q); order.append(q)
            for c in s.local(q)[1]:
                t = c[0]
                if t is not None and t not in seen: st.append(t)
        res = {q: set(s.memo.get(q, s.local(q)[0])) for q in order}
        ch = True
        while ch:
            ch = False
            for q in order:
                r = res[q]; n = len(r)
                for t, amap in s.local(q)[1]:
                    if t is None: r.add('ALL'); continue
                    if t.qname() in s.pure: continue
                    for m in list(res[t]):
                        if isinstance(m, tuple):
                            x = amap.get(m[1])
                            if x is not None: r.add(x)
                        elif m == 'ALL': r.add(m)
                        elif isinstance(m, Obj) and m.kind in ('var', 'par', 'varpar') and m.parent is not None and s.encl(m, t):
                            pass   # callee's own local
                        else: r.add(m)
                if len(r) != n: ch = True
        for q in order: s.memo[q] = frozenset(res[q])
        return s.memo[p]
    @staticmethod
    def encl(o, p):
        """o is a local/param of p itself (or of a procedure nested in p)"""
        q = o.parent
        while q is not None:
            if q is p: return True
            q = q.parent
        return False
    _local = {}
    def local(s, p):
        r = s._local.get(p)
        if r is not None: return r
        mods = set(); calls = []
        pars = (([p.recv] if p.recv is not None else []) + (p.params or [])) if p is not None else []
        s.scan(p.body or [], pars, mods, calls)
        if p.kind == 'cproc':
            for i, q in enumerate(pars):
                if q.kind == 'varpar': mods.add(('par', i))
        s._local[p] = (mods, calls)
        return mods, calls
    def scan(s, body, pars, mods, calls):
        def addmod(d):
            o = s.root(d)
            if o is None: return
            if o.kind == 'varpar' and o in pars: mods.add(('par', pars.index(o)))
            elif o.kind in ('var', 'par', 'varpar', 'field'): mods.add(o)
        def modkey(d):
            if not isinstance(d, Node) or d.k not in ('name', 'field', 'index', 'deref', 'guard'): return None
            o = s.root(d)
            if o is None: return None
            if o.kind == 'varpar' and o in pars: return ('par', pars.index(o))
            if o.kind in ('var', 'par', 'varpar', 'field'): return o
            return None
        for n in walk(body):
            if n.k == 'assign': addmod(n.a)
            elif n.k == 'for': addmod(n.a)
            elif n.k == 'call':
                f = n.a; t = callee(n)
                if t is not None and t.kind == 'sproc':
                    nm = t.name
                    if nm in ('INC', 'DEC', 'INCL', 'EXCL', 'NEW', 'SYSTEM.NEW') and n.b: addmod(n.b[0])
                    elif nm == 'COPY': addmod(n.b[1])
                    elif nm in ('SYSTEM.GET', 'SYSTEM.GETREG'): addmod(n.b[1])
                    continue
                if t is not None and t.kind in ('proc', 'cproc', 'tproc'):
                    actual = list(n.b)
                    if t.kind == 'tproc':
                        b = f
                        while b.k == 'super': b = b.a
                        actual = [b.a] + actual
                    amap = {}
                    for i, a in enumerate(actual):
                        amap[i] = modkey(a)
                    calls.append((t, amap))
                    # procedures passed as arguments may be called
                    for a in n.b:
                        if a.k == 'name' and isinstance(a.a, Obj) and a.a.kind == 'proc': calls.append((a.a, {}))
                elif t is not None and t.kind == 'unknown': pass
                else:
                    calls.append((None, {}))
                    # a procedure variable may write its VAR arguments
                    ft = f.typ
                    if ft is not None and ft.form == 'proc' and ft.params:
                        for a, q in zip(n.b, ft.params):
                            if q.kind == 'varpar': addmod(a)
    def stmts(s, body):
        """modification set of a statement list (Obj set or 'ALL')"""
        mods = set(); calls = []
        s.scan(body, [], mods, calls)
        r = set(mods)
        for t, amap in calls:
            if t is None: r.add('ALL'); continue
            if t.qname() in s.pure: continue
            for m in s.of(t):
                if isinstance(m, tuple):
                    x = amap.get(m[1])
                    if x is not None: r.add(x)
                else: r.add(m)
        return r

class Engine:
    def __init__(s, world, K=300, steps=2000000, alias='strong', pure=(), inline_depth=12):
        s.w = world; s.K = K; s.budget = steps; s.alias = alias
        s.mods = Mods(pure)
        s.handlers = {}          # qualified name -> f(engine, node, args, state) -> [(value, state)]
        s.policy = None          # f(obj) -> 'inline' | 'opaque'
        s.stack = []             # active inlined procedures
        s.display = {}           # proc obj -> ctx
        s.depth = inline_depth
        s.ctx = ()
        s.distinct = set()       # symbols that denote pairwise distinct non-NIL objects
        s.edges = {}             # trace automaton: node -> list of (label or None, node)
        s.tnodes = {}; s.tcount = 0
        s.merged = 0; s.calls_inlined = set(); s.calls_opaque = set(); s.visited = set()
        s.on_return = None; s.on_stmt = None; s.on_deref = None; s.on_store = None
        s.recursive = set()
        s.recmax = 0             # inline procedures that are active already, up to this number of times
        s.cur = None
        s.bases = set()          # locations that have been subdivided
        s.unroll = 0; s.chr_ord = False; s.floats = False
        s.peel = 0; s.peel_only = False; s.pruned = 0   # loop iterations kept apart before widening
    # ------------------------------------------------------------ trace automaton
    def tnode(s, key):
        n = s.tnodes.get(key)
        if n is None:
            s.tcount += 1; n = s.tnodes[key] = s.tcount
        return n
    def emit(s, st, label, uid):
        """append an event to the trace of st (st is updated in place)"""
        n = s.tnode((st.tr, uid, s.ctx, label))
        e = s.edges.setdefault(st.tr, [])
        if (label, n) not in e: e.append((label, n))
        st.tr = n
    def teps(s, a, b):
        if a == b: return
        e = s.edges.setdefault(a, [])
        if (None, b) not in e: e.append((None, b))
    # ------------------------------------------------------------ facts
    def fact(s, st, v): return st.facts.get(v, TOPF)
    def setfact(s, st, v, f):
        """meet v's fact with f; False if contradictory"""
        o = st.facts.get(v)
        if o is not None:
            i = f[0] if o[0] is None else o[0] if f[0] is None else (o[0] & f[0])
            out = o[1] | f[1]; lo = max(o[2], f[2]); hi = min(o[3], f[3])
        else: i, out, lo, hi = f
        if i is not None:
            if lo > -INF or hi < INF:
                i = frozenset(x for x in i if not (isinstance(x, int) and not isinstance(x, bool)) or lo <= x <= hi)
            i = i - out
            if not i: return False
            out = frozenset()
            lo = -INF; hi = INF
        else:
            if lo > hi: return False
            while lo in out: lo += 1
            while hi in out: hi -= 1
            if lo > hi: return False
            if lo == hi and lo not in (INF, -INF): i = frozenset([lo]); out = frozenset(); lo = -INF; hi = INF
        st.facts[v] = (i, out, lo, hi)
        return True
    def norm(s, st, v):
        f = st.facts.get(v)
        if f is not None and f[0] is not None and len(f[0]) == 1: return C(next(iter(f[0])))
        return v
    def rng(s, st, v):
        if isc(v):
            if s.floats and isinstance(v[1], float): return (v[1], v[1])
            if isinstance(v[1], bool) or not isinstance(v[1], int): return (-INF, INF)
            return (v[1], v[1])
        f = st.facts.get(v)
        lo, hi = -INF, INF
        if f is not None:
            if f[0] is not None:
                xs = [x for x in f[0] if isinstance(x, int) and not isinstance(x, bool)]
                if len(xs) == len(f[0]): return (min(xs), max(xs))
            lo, hi = f[2], f[3]
        if v[0] == 't' and v[1] in ('+', '-') and len(v[2]) == 2:
            a, b = s.rng(st, v[2][0]), s.rng(st, v[2][1])
            if v[1] == '+': l2, h2 = a[0] + b[0], a[1] + b[1]
            else: l2, h2 = a[0] - b[1], a[1] - b[0]
            if l2 == l2 and h2 == h2: lo = max(lo, l2); hi = min(hi, h2)
        elif v[0] == 't' and v[1] == 'neg':
            a = s.rng(st, v[2][0]); lo = max(lo, -a[1]); hi = min(hi, -a[0])
        return (lo, hi)
    def loctype(s, k):
        if k[0] == 'f': return k[2].typ
        if k[0] in ('v', 'g'): return k[1].typ
        if k[0] == 'i':
            t = s.loctype(k[1])
            return t.base if t is not None and t.form == 'array' else None
        return None
    def typerange(s, v):
        """range of an integer symbol by the declared type of the location it was read from"""
        if isc(v): return s.rng(None, v)
        if v[0] == 't' and v[1] == 'ORD': return (0, 65535)
        if v[0] == 't' and v[1].startswith('SHORT'):
            m = 1 << (8 * int(v[1][5:]) - 1); return (-m, m - 1)
        if v[0] == 's' and v[1][0] in ('init', 'hv'):
            l = next((x for x in v[1][1:] if isinstance(x, tuple) and x and x[0] in ('f', 'v', 'g', 'i')), None)
            t = s.loctype(l) if l is not None else None
            if t is not None and t.form == 'int' and t.size: return (-(1 << (8 * t.size - 1)), (1 << (8 * t.size - 1)) - 1)
        return (-INF, INF)
    # decide a boolean value: True / False / None
    def decide(s, st, v):
        if isc(v): return v[1] if isinstance(v[1], bool) else None
        f = st.facts.get(v)
        if f is not None:
            if f[0] == frozenset([True]): return True
            if f[0] == frozenset([False]): return False
            if True in f[1]: return False
            if False in f[1]: return True
        if v[0] != 't': return None
        op, a = v[1], v[2]
        if op == '~':
            d = s.decide(st, a[0]); return None if d is None else not d
        if op == '&':
            x, y = s.decide(st, a[0]), s.decide(st, a[1])
            if x is False or y is False: return False
            if x and y: return True
            return None
        if op == 'OR':
            x, y = s.decide(st, a[0]), s.decide(st, a[1])
            if x or y: return True
            if x is False and y is False: return False
            return None
        if op == '=': return s.dec_eq(st, a[0], a[1])
        if op == '<':
            x, y = s.rng(st, a[0]), s.rng(st, a[1])
            if x[1] < y[0]: return True
            if x[0] >= y[1]: return False
            if a[0] == a[1]: return False
            if isc(a[0]) and isc(a[1]) and isinstance(a[0][1], str) and isinstance(a[1][1], str): return a[0][1] < a[1][1]
            # char sets
            fa = a[0][1:2] if isc(a[0]) else s.fact(st, a[0])[0]
            fb = a[1][1:2] if isc(a[1]) else s.fact(st, a[1])[0]
            if fa and fb:
                try:
                    r = {p < q for p in fa for q in fb}
                    if len(r) == 1: return r.pop()
                except TypeError: pass
            return None
        if op == 'in': return s.dec_in(st, a[0], a[1])
        return None
    def dec_eq(s, st, a, b):
        if a == b: return True
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            if type(x) is bool or type(y) is bool: return x is y
            return x == y
        if isc(a): a, b = b, a
        fa = s.fact(st, a)
        if isc(b):
            c = b[1]
            if fa[0] is not None:
                if c not in fa[0]: return False
                if len(fa[0]) == 1: return True
            if c in fa[1]: return False
            if isinstance(c, int) and not isinstance(c, bool):
                lo, hi = s.rng(st, a)
                if c < lo or c > hi: return False
                if lo == hi == c: return True
            if c is None and (a in s.distinct or (a[0] == 's' and a[1][0] == 'new')): return False
            if a[0] == 't' and a[1] == 'incl' and c == frozenset(): return False
            return None
        fb = s.fact(st, b)
        if fa[0] is not None and fb[0] is not None and not (fa[0] & fb[0]): return False
        if a in s.distinct and b in s.distinct: return False
        if a[0] == 's' and b[0] == 's' and a[1][0] == 'new' and b[1][0] == 'new' and a != b: return False
        if a[0] == 's' and b[0] == 's' and (a[1][0] == 'new') != (b[1][0] == 'new'):
            o = b if a[1][0] == 'new' else a
            if o in s.distinct: return False
        if fa[0] == frozenset([None]) and None in fb[1]: return False
        if fb[0] == frozenset([None]) and None in fa[1]: return False
        x, y = s.rng(st, a), s.rng(st, b)
        if x[1] < y[0] or y[1] < x[0]: return False
        return None
    def dec_in(s, st, x, S):
        if isc(x) and isc(S) and isinstance(S[1], frozenset): return x[1] in S[1]
        if isc(S) and isinstance(S[1], frozenset):
            f = s.fact(st, x)
            if f[0] is not None:
                r = {e in S[1] for e in f[0]}
                if len(r) == 1: return r.pop()
            if S[1] and S[1] <= f[1]: return False
            if not S[1]: return False
            lo, hi = s.rng(st, x)
            if hi < min(S[1]) or lo > max(S[1]): return False
            return None
        f = st.facts.get(('t', 'in', (x, S)))
        if f is not None and f[0] is not None and len(f[0]) == 1: return next(iter(f[0]))
        if S[0] == 't':
            op, a = S[1], S[2]
            if op == 'incl':
                e = s.dec_eq(st, x, a[1])
                if e: return True
                if e is False: return s.dec_in(st, x, a[0])
                return None
            if op == 'excl':
                e = s.dec_eq(st, x, a[1])
                if e: return False
                if e is False: return s.dec_in(st, x, a[0])
                return None
            if op in ('+', '*', '-', '/') and len(a) == 2:
                p, q = s.dec_in(st, x, a[0]), s.dec_in(st, x, a[1])
                if op == '+': return True if p or q else False if p is False and q is False else None
                if op == '*': return False if p is False or q is False else True if p and q else None
                if op == '-': return False if p is False or q else True if p and q is False else None
                if p is None or q is None: return None
                return p != q
        return None
    def assume(s, st, v, truth):
        """refine st (in place) with v = truth; False if impossible"""
        d = s.decide(st, v)
        if d is not None: return d == truth
        if v[0] == 't':
            op, a = v[1], v[2]
            if op == '~': return s.assume(st, a[0], not truth)
            if op == '&':
                if truth: return s.assume(st, a[0], True) and s.assume(st, a[1], True)
                if s.decide(st, a[0]): return s.assume(st, a[1], False)
                if s.decide(st, a[1]): return s.assume(st, a[0], False)
            if op == 'OR':
                if not truth: return s.assume(st, a[0], False) and s.assume(st, a[1], False)
                if s.decide(st, a[0]) is False: return s.assume(st, a[1], True)
                if s.decide(st, a[1]) is False: return s.assume(st, a[0], True)
            if op == '=':
                x, y = a
                if isc(x): x, y = y, x
                if isc(y):
                    c = y[1]
                    ok = s.setfact(st, x, (frozenset([c]), frozenset(), -INF, INF) if truth else (None, frozenset([c]), -INF, INF))
                    if not ok: return False
                    if x[0] == 't' and x[1] == 'neg' and isinstance(c, int):
                        return s.setfact(st, x[2][0], (frozenset([-c]), frozenset(), -INF, INF) if truth else (None, frozenset([-c]), -INF, INF))
                    if x[0] == 't' and x[1] in ('+', '-') and len(x[2]) == 2 and isc(x[2][1]) and isinstance(c, int) and isinstance(x[2][1][1], int):
                        k = x[2][1][1]
                        c2 = c - k if x[1] == '+' else c + k
                        return s.setfact(st, x[2][0], (frozenset([c2]), frozenset(), -INF, INF) if truth else (None, frozenset([c2]), -INF, INF))
                    if x[0] == 't' and x[1] == '*' and c == frozenset() and len(x[2]) == 2:
                        p, q = x[2]
                        if isc(p): p, q = q, p
                        if isc(q) and isinstance(q[1], frozenset):
                            if truth:
                                for e in q[1]:
                                    if not s.assume(st, ('t', 'in', (C(e), p)), False): return False
                            elif len(q[1]) == 1:
                                return s.assume(st, ('t', 'in', (C(next(iter(q[1]))), p)), True)
                    return True
                if truth:
                    fx, fy = s.fact(st, x), s.fact(st, y)
                    if fy is not TOPF and not s.setfact(st, x, fy): return False
                    if fx is not TOPF and not s.setfact(st, y, fx): return False
                    st.facts[v] = (frozenset([True]), frozenset(), -INF, INF)
                    if None in s.fact(st, x)[1] or x in s.distinct: 
                        if not s.setfact(st, y, (None, frozenset([None]), -INF, INF)): return False
                    if y in s.distinct:
                        if not s.setfact(st, x, (None, frozenset([None]), -INF, INF)): return False
                    return True
            if op == '<':
                x, y = a
                xr, yr = s.rng(st, x), s.rng(st, y)
                if truth:
                    if not isc(x) and yr[1] < INF and not s.setfact(st, x, (None, frozenset(), -INF, yr[1] - 1)): return False
                    if not isc(y) and xr[0] > -INF and not s.setfact(st, y, (None, frozenset(), xr[0] + 1, INF)): return False
                else: # x >= y
                    if not isc(x) and yr[0] > -INF and not s.setfact(st, x, (None, frozenset(), yr[0], INF)): return False
                    if not isc(y) and xr[1] < INF and not s.setfact(st, y, (None, frozenset(), -INF, xr[1])): return False
                # char ordering against constants: filter in-sets
                for p, q, left in ((x, y, True), (y, x, False)):
                    if not isc(p) and isc(q) and isinstance(q[1], str):
                        f = s.fact(st, p)
                        if f[0] is not None:
                            try:
                                keep = frozenset(e for e in f[0] if ((e < q[1]) if left else (q[1] < e)) == truth)
                            except TypeError: continue
                            if not keep: return False
                            if not s.setfact(st, p, (keep, frozenset(), -INF, INF)): return False
            if op == 'in':
                x, S = a
                if isc(S) and isinstance(S[1], frozenset):
                    if truth: return s.setfact(st, x, (S[1], frozenset(), -INF, INF))
                    return s.setfact(st, x, (None, S[1], -INF, INF))
                if S[0] == 't' and S[1] == '-' and len(S[2]) == 2 and truth:
                    if not s.assume(st, ('t', 'in', (x, S[2][0])), True): return False
                    return s.assume(st, ('t', 'in', (x, S[2][1])), False)
                if S[0] == 't' and S[1] in ('incl', 'excl') and s.dec_eq(st, x, S[2][1]) is False:
                    return s.assume(st, ('t', 'in', (x, S[2][0])), truth)
        return s.setfact(st, v, (frozenset([truth]), frozenset(), -INF, INF))
    # ------------------------------------------------------------ symbols and locations
    def fresh(s, st, key):
        v = ('s', key)
        if v not in st.made:
            st.made = st.made | {v}
            return v
        for d in (st.env, st.facts):
            dead = [k for k in d if mentions(k, v)]
            for k in dead: del d[k]
        stale = [k for k, x in st.env.items() if mentions(x, v)]
        for k in stale: st.env[k] = ('s', ('stale', key, k))
        return v
    def gkey(s, loc):
        if loc[0] == 'f': return ('f', loc[2])
        if loc[0] == 'i': return s.gkey(loc[1])
        if loc[0] == '*': return loc if s.alias == 'strong' else ('*',)
        return loc
    def load(s, st, loc, typ=None):
        v = st.env.get(loc)
        if v is not None:
            if v[0] == 'l': return s.load(st, v[1], typ)
            return s.norm(st, v)
        if loc[0] == 'i':
            b = st.env.get(loc[1])
            if b is not None and isc(b) and isinstance(b[1], str) and isc(loc[2]) and isinstance(loc[2][1], int):
                i = loc[2][1]
                return C(b[1][i]) if i < len(b[1]) else C('\0') if i == len(b[1]) else ('s', ('strtail', loc))
        k = s.gkey(loc)
        return s.norm(st, ('s', ('init', loc, st.gens.get(k, 0), st.gens.get('*', 0))))
    def under(s, k, loc):
        """location k lies inside location loc"""
        while k[0] in ('f', 'i'):
            k = k[1]
            if k == loc: return True
        return False
    def store(s, st, loc, v, uid=0):
        b = st.env.get(loc)
        if b is not None and b[0] == 'l': loc = b[1]
        if loc in s.bases:
            dead = [k for k in st.env if k[0] in ('f', 'i') and s.under(k, loc)]
            for k in dead: del st.env[k]
        if loc[0] == 'i':
            # an element write invalidates other elements that may coincide, and the whole value
            base = loc[1]
            for k in [k for k in st.env if k[0] == 'i' and k[1] == base and k != loc]:
                if not (isc(k[2]) and isc(loc[2]) and k[2] != loc[2]): del st.env[k]
            b = st.env.pop(base, None)
            if b is not None and isc(b) and isinstance(b[1], str) and isc(loc[2]) and len(b[1]) <= 64:
                for j, ch in enumerate(b[1]):
                    if ('i', base, C(j)) not in st.env: st.env[('i', base, C(j))] = C(ch)
            st.gens[s.gkey(loc)] = ('w', uid, s.ctx)
            dead = [k for k in st.facts if mentions(k, ('w', uid, s.ctx))]
            for k in dead: del st.facts[k]
        elif s.alias == 'weak' and loc[0] == 'f' and loc[1][0] == '*':
            for k in [k for k in st.env if k[0] == 'f' and k[2] == loc[2] and k != loc and k[1][0] == '*']:
                if s.dec_eq(st, k[1][1], loc[1][1]) is not False: del st.env[k]
            g = ('w', uid, s.ctx); st.gens[s.gkey(loc)] = g
        st.env[loc] = v
    def copyagg(s, st, dst, src, uid):
        """record/array assignment"""
        b = st.env.get(dst)
        if b is not None and b[0] == 'l': dst = b[1]
        b = st.env.get(src)
        if b is not None and b[0] == 'l': src = b[1]
        if dst == src: return
        def reb(k): return dst if k == src else (k[0], reb(k[1])) + k[2:] if k[0] in ('f', 'i') else k
        add = {reb(k): v for k, v in st.env.items() if s.under(k, src)}
        dead = [k for k in st.env if s.under(k, dst)]
        for k in dead: del st.env[k]
        st.env[dst] = s.load(st, src)
        st.env.update(add)
    def havoc(s, st, mods, uid, frame=None):
        """forget everything a modification set may touch"""
        g = ('h', uid, s.ctx)
        if 'ALL' in mods:
            for k in [k for k in st.env if s.rootkind(k) in ('g', 'f')]: del st.env[k]
            st.gens = {k: v for k, v in st.gens.items() if k[0] == 'v'}
            st.gens['*'] = g
        fields = {m for m in mods if isinstance(m, Obj) and m.kind == 'field'}
        vs = [m for m in mods if isinstance(m, Obj) and m.kind != 'field']
        if fields:
            fset = {m for m in fields}
            for k in list(st.env):
                if s.touches(k, fset): del st.env[k]
            for m in fset: st.gens[('f', m)] = g
        for m in vs:
            loc = s.varloc(st, m)
            s.havocloc(st, loc, uid)
        if 'ALL' in mods or fields:
            dead = [k for k in st.facts if mentions(k, g)]
            for k in dead: del st.facts[k]
            dead = [k for k in st.env if mentions(k, g)]
            for k in dead: del st.env[k]
    def havocloc(s, st, loc, uid):
        b = st.env.get(loc)
        if b is not None and b[0] == 'l': loc = b[1]
        for k in [k for k in st.env if s.under(k, loc)]: del st.env[k]
        v = s.fresh(st, ('hv', uid, s.ctx, loc))
        st.env[loc] = v
        st.gens[s.gkey(loc)] = ('h', uid, s.ctx)
    @staticmethod
    def touches(k, fields):
        while k[0] in ('f', 'i', '*'):
            if k[0] == 'f' and k[2] in fields: return True
            if k[0] == '*': return False
            k = k[1]
        return False
    @staticmethod
    def rootkind(k):
        while k[0] in ('f', 'i'):
            k = k[1]
            if k[0] == '*': return 'f'
        return k[0]
    def varloc(s, st, o):
        if o.parent is None: return ('g', o)
        c = s.display.get(o.parent)
        if c is None: c = ()
        return ('v', o, c)
    def bound(s, st, loc):
        b = st.env.get(loc)
        while b is not None and b[0] == 'l': loc = b[1]; b = st.env.get(loc)
        return loc
    # lvalue: list of (loc, state)
    def lval(s, e, st):
        k = e.k
        if k == 'name':
            o = e.a
            if o.kind in ('var', 'par', 'varpar'): return [(s.bound(st, s.varloc(st, o)), st)]
            return [(('x', o), st)]
        if k == 'field':
            r = []
            if e.a.k == 'deref':
                for p, t in s.eval(e.a.a, st):
                    t = s.deref(t, p, e)
                    if t is None: continue
                    r.append((s.bound(t, ('f', ('*', p), e.b)), t))
                return r
            for l, t in s.lval(e.a, st): s.bases.add(l); r.append((s.bound(t, ('f', l, e.b)), t))
            return r
        if k == 'index':
            r = []
            for l, t in s.lval(e.a, st):
                s.bases.add(l)
                for i, u in s.eval(e.b, t): r.append((s.bound(u, ('i', l, i)), u))
            return r
        if k == 'deref':
            r = []
            for p, t in s.eval(e.a, st):
                t = s.deref(t, p, e)
                if t is not None: r.append((('*', p), t))
            return r
        if k == 'guard':
            if e.typ.form == 'pointer':
                # guarded pointer: same storage
                return s.lval(e.a, st) if e.a.k in ('name', 'field', 'index', 'deref', 'guard') else [(('x', e.uid), t) for v, t in s.eval(e.a, st)]
            return s.lval(e.a, st)
        r = []
        for v, t in s.eval(e, st):
            r.append((('x', e.uid, s.ctx), t)); t.env[('x', e.uid, s.ctx)] = v
        return r
    def deref(s, st, p, e):
        if s.on_deref is not None: s.on_deref(s, e, p, st)
        if p == NIL: return None             # run-time trap: this path ends
        if not isc(p) and not s.setfact(st, p, (None, frozenset([None]), -INF, INF)): return None
        return st
    # ------------------------------------------------------------ expressions
    def term(s, st, op, *a): return s.norm(st, ('t', op, tuple(a)))
    def eval(s, e, st):
        """list of (value, state); states may be shared-copied"""
        k = e.k
        if k == 'num': return [(C(e.a), st)]
        if k == 'char': return [(C(chr(e.a)), st)]
        if k == 'str': return [(C(e.a), st)]
        if k == 'real' and s.floats: return [(C(float(str(e.a).replace('D', 'E'))), st)]
        if k == 'real': return [(('t', 'real', (C(e.a),)), st)]
        if k == 'nil': return [(NIL, st)]
        if k == 'set':
            v = const_value(e)
            if v is not None: return [(C(v), st)]
            out = [(C(frozenset()), st)]
            for a, b in e.a:
                n = []
                for sv, t in out:
                    for x, u in s.eval(a, t):
                        if b is None: n.append((s.incl(sv, x), u))
                        else:
                            for y, w in s.eval(b, u): n.append((C(sv[1] | frozenset(range(x[1], y[1] + 1))) if isc(sv) and isc(x) and isc(y) else ('t', '+', (sv, ('t', 'range', (x, y)))), w))
                out = n
            return out
        if k == 'name':
            o = e.a
            if o.kind == 'const':
                if o.val is not None: return [(C(o.val), st)]
                return [(('s', ('const', o)), st)]
            if o.kind in ('var', 'par', 'varpar'): return [(s.load(st, s.varloc(st, o), o.typ), st)]
            return [(('s', ('obj', o)), st)]
        if k in ('field', 'index', 'deref'):
            if k == 'field' and e.b.kind == 'tproc': return [(('s', ('obj', e.b)), st)]
            if k == 'index' and e.a.k == 'str':
                return [(('s', ('chr', e.uid)), st)]
            if k == 'index' and e.a.k == 'name' and e.a.a.kind == 'const':
                cv = e.a.a.val; r = []
                for i, t in s.eval(e.b, st):
                    if isinstance(cv, str) and isc(i) and isinstance(i[1], int) and i[1] <= len(cv): r.append((C((cv + '\0')[i[1]]), t))
                    else: r.append((('t', 'idx', (C(cv), i)), t))
                return r
            return [(s.load(t, l, e.typ), t) for l, t in s.lval(e, st)]
        if k == 'guard':
            return s.eval(e.a, st)
        if k == 'typ': return [(('s', ('type', e.a.uid)), st)]
        if k == 'is':
            return [(s.term(t, 'is', v, ('s', ('type', e.b.uid))), t) for v, t in s.eval(e.a, st)]
        if k == 'un':
            if e.a == '~':
                if s.effectful(e.b):
                    tt, ff = s.cond(e.b, st)
                    return [(FALSE, t) for t in tt] + [(TRUE, t) for t in ff]
                r = []
                for v, t in s.eval(e.b, st):
                    d = s.decide(t, v)
                    r.append((C(not d) if d is not None else ('t', '~', (v,)), t))
                return r
            r = []
            for v, t in s.eval(e.b, st):
                if isc(v) and isinstance(v[1], int) and not isinstance(v[1], bool): r.append((C(s.fit(-v[1]) if e.a == '-' else v[1]), t))
                elif s.floats and isc(v) and isinstance(v[1], float): r.append((C(-v[1]), t))
                elif e.a == '+': r.append((v, t))
                elif v[0] == 't' and v[1] == 'neg': r.append((v[2][0], t))
                else: r.append((s.term(t, 'neg', v), t))
            return r
        if k == 'bin':
            op = e.a
            if op in ('&', 'OR'):
                if s.effectful(e.b) or s.effectful(e.c):
                    tt, ff = s.cond(e, st)
                    return [(TRUE, t) for t in tt] + [(FALSE, t) for t in ff]
                r = []
                for x, t in s.eval(e.b, st):
                    d = s.decide(t, x)
                    if d is not None and d == (op == 'OR'): r.append((C(d), t)); continue
                    # right operand evaluated under the left's outcome (guards null dereference)
                    if d is None:
                        probe = t.copy()
                        if not s.assume(probe, x, op == '&'): r.append((C(op == 'OR'), t)); continue
                        for y, u in s.eval(e.c, probe):
                            r.append((s.mkbool(t, op, x, y), t.copy()))
                        if not r or r[-1] is None: pass
                    else:
                        for y, u in s.eval(e.c, t): r.append((y, u))
                seen = set(); q = []
                for v, t in r:
                    kk = (v, t.key())
                    if kk not in seen: seen.add(kk); q.append((v, t))
                return q
            r = []
            for x, t in s.eval(e.b, st):
                for y, u in s.eval(e.c, t):
                    r.append((s.binop(u, op, x, y, e), u))
            return r
        if k == 'call': return s.call(e, st)
        if k == 'super': return s.eval(e.a, st)
        raise Exception('eval %s line %d' % (k, e.line))
    def mkbool(s, st, op, x, y):
        dx, dy = s.decide(st, x), s.decide(st, y)
        if op == '&':
            if dx is False or dy is False: return FALSE
            if dx: return y if dy is None else C(dy)
            if dy: return x
        else:
            if dx or dy: return TRUE
            if dx is False: return y if dy is None else C(dy)
            if dy is False: return x
        return ('t', op, (x, y))
    def incl(s, S, x):
        if isc(S) and isc(x): return C(S[1] | {x[1]})
        return ('t', 'incl', (S, x))
    def excl(s, S, x):
        if isc(S) and isc(x): return C(S[1] - {x[1]})
        return ('t', 'excl', (S, x))
    def fit(s, v):
        """64-bit arithmetic"""
        if s.floats and type(v) is int and not -2**63 <= v < 2**63: v = (v + 2**63) % 2**64 - 2**63
        return v
    def binop(s, st, op, x, y, e=None):
        from .front import const_bin
        if s.floats and isc(x) and isc(y) and isinstance(x[1], float) != isinstance(y[1], float):
            if type(x[1]) is int: x = C(float(x[1]))
            elif type(y[1]) is int: y = C(float(y[1]))
        if op in ('=', '#', '<', '>', '<=', '>=', 'IN'):
            v = s.rel(st, op, x, y)
            d = s.decide(st, v)
            return C(d) if d is not None else v
        if isc(x) and isc(y):
            r = const_bin(op, x[1], y[1])
            if r is not None: return C(s.fit(r))
        if op in ('+', '-') and isc(y) and y[1] == 0: return x
        # (a + c1) - c2 with integer constants
        if op in ('+', '-') and isc(y) and isinstance(y[1], int) and x[0] == 't' and x[1] in ('+', '-') and isc(x[2][1]) \
           and isinstance(x[2][1][1], int) and not isinstance(y[1], bool):
            k = (y[1] if op == '+' else -y[1]) + (x[2][1][1] if x[1] == '+' else -x[2][1][1])
            if k == 0: return x[2][0]
            return s.term(st, '+' if k > 0 else '-', x[2][0], C(abs(k)))
        if op in ('+', '*') and isc(x) and not isc(y): x, y = y, x
        return s.term(st, op, x, y)
    def rel(s, st, op, x, y):
        if op == '=' or op == '#':
            if isc(x) and not isc(y): x, y = y, x
            elif not isc(x) and not isc(y) and repr(x) > repr(y): x, y = y, x
            # boolean comparison with a constant
            if isc(y) and isinstance(y[1], bool): v = x if y[1] else ('t', '~', (x,))
            else: v = ('t', '=', (x, y))
            return v if op == '=' else ('t', '~', (v,))
        if op == '<': return ('t', '<', (x, y))
        if op == '>': return ('t', '<', (y, x))
        if op == '<=': return ('t', '~', (('t', '<', (y, x)),))
        if op == '>=': return ('t', '~', (('t', '<', (x, y)),))
        if op == 'IN': return ('t', 'in', (x, y))
    _eff = {}
    def effectful(s, e):
        """contains a call the engine would inline or hand to a rule"""
        r = s._eff.get(e.uid)
        if r is None:
            r = False
            for n in walk(e):
                if n.k == 'call':
                    t = callee(n)
                    if t is None or t.kind != 'sproc': r = True; break
            s._eff[e.uid] = r
        return r
    def cond(s, e, st):
        """(states where e is true, states where e is false)"""
        if e.k == 'un' and e.a == '~':
            t, f = s.cond(e.b, st); return f, t
        if e.k == 'bin' and e.a == '&':
            t, f = s.cond(e.b, st); T = []
            for u in t:
                a, b = s.cond(e.c, u); T += a; f += b
            return T, f
        if e.k == 'bin' and e.a == 'OR':
            t, f = s.cond(e.b, st); F = []
            for u in f:
                a, b = s.cond(e.c, u); t += a; F += b
            return t, F
        T = []; F = []
        for v, u in s.eval(e, st):
            d = s.decide(u, v)
            if d is True: T.append(u)
            elif d is False: F.append(u)
            else:
                a = u.copy(); b = u.copy()
                if s.assume(a, v, True): T.append(a)
                if s.assume(b, v, False): F.append(b)
        return T, F
    # ------------------------------------------------------------ calls
    def call(s, e, st):
        s.budget -= 1
        if s.budget < 0: raise Budget('step budget exceeded in %s' % (s.cur and s.cur.qname()))
        t = callee(e)
        if t is not None and t.kind == 'sproc': return s.sproc(e, t.name, st)
        if t is None or t.kind in ('var', 'par', 'varpar', 'field'):
            h = s.handlers.get('*procvar*')
            outs = [((), st)]
            for a in e.b:
                n = []
                for vs, u in outs:
                    for v, w in s.argval(a, u): n.append((vs + (v,), w))
                outs = n
            r = []
            for vs, u in outs:
                if h is not None: r += h(s, e, list(vs), u); continue
                u = u.copy(); s.havoc(u, {'ALL'}, e.uid)
                ft = e.a.typ
                for a, q in zip(e.b, (ft.params or []) if ft is not None and ft.form == 'proc' else []):
                    if q.kind == 'varpar' and a.k in ('name', 'field', 'index', 'deref', 'guard'):
                        for l, _ in s.lval(a, u.copy()): s.havocloc(u, l, e.uid)
                r.append((s.fresh(u, ('ret', e.uid, s.ctx)), u))
            return r
        # arguments
        params = list(t.params or [])
        actual = list(e.b)
        if t.kind == 'tproc':
            b = e.a
            while b.k == 'super': b = b.a
            params = [t.recv] + params; actual = [b.a] + actual
        outs = [((), st)]
        for i, a in enumerate(actual):
            p = params[i] if i < len(params) else None
            n = []
            for vs, u in outs:
                if p is not None and (p.kind == 'varpar' or (p.typ is not None and p.typ.form in ('array', 'dynarr', 'record'))) \
                   and a.k in ('name', 'field', 'index', 'deref', 'guard') and not (a.k == 'name' and a.a.kind not in ('var', 'par', 'varpar')):
                    for l, w in s.lval(a, u): n.append((vs + (('l', l),), w))
                else:
                    for v, w in s.eval(a, u): n.append((vs + (v,), w))
            outs = n
        r = []
        q = t.qname()
        h = s.handlers.get(q)
        for vs, u in outs:
            if h is not None:
                x = h(s, e, list(vs), u)
                if x is not None: r += x; continue
            mode = 'inline' if t.parent is not None and t.parent in s.stack else s.policy(t) if s.policy is not None else 'inline'
            if t in s.stack and (not s.recmax or s.stack.count(t) >= s.recmax):
                s.recursive.add(q)
                if s.recmax and mode == 'inline': raise Broken('%s: recursion too deep' % q)
                mode = 'opaque'
            if len(s.stack) >= s.depth or t.body is None:
                if s.recmax and mode == 'inline' and t.body is not None: raise Broken('%s: calls nested too deep' % q)
                mode = 'opaque'
            if mode == 'inline':
                s.calls_inlined.add((q, e.line))
                r += s.inline(t, params, vs, u, e)
            elif mode == 'skip':
                r.append((('s', ('ret', e.uid, s.ctx)), u))
            else:
                s.calls_opaque.add((q, e.line))
                r += s.opaque(t, params, vs, u, e)
        return r
    def argval(s, a, st):
        if a.k in ('name', 'field', 'index', 'deref', 'guard') and a.typ is not None and a.typ.form in ('array', 'dynarr', 'record') \
           and not (a.k == 'name' and a.a.kind == 'const'):
            return [(('l', l), t) for l, t in s.lval(a, st)]
        return s.eval(a, st)
    def opaque(s, t, params, vs, u, e):
        u = u.copy()
        if t.kind == 'unknown': return [(s.fresh(u, ('ret', e.uid, s.ctx)), u)]
        mods = s.mods.of(t) if t.body is not None or t.kind == 'cproc' else frozenset(('par', i) for i, p in enumerate(params) if p.kind == 'varpar')
        if t.qname() not in s.mods.pure:
            s.havoc(u, {m for m in mods if not isinstance(m, tuple) and not (isinstance(m, Obj) and m.kind != 'field' and m.parent is not None and Mods.encl(m, t))}, e.uid)
        for m in mods:
            if isinstance(m, tuple) and m[1] < len(vs):
                v = vs[m[1]]
                if v[0] == 'l': s.havocloc(u, v[1], e.uid)
        return [(s.fresh(u, ('ret', e.uid, s.ctx)), u)]
    def inline(s, t, params, vs, u, e, uid=None):
        old = s.ctx; oldd = s.display.get(t); oldcur = s.cur
        ctx = old + ((uid if uid is not None else e.uid),)
        before = u.env
        u = u.copy()
        for p, v in zip(params, vs):
            u.env[('v', p, ctx)] = v
        s.ctx = ctx; s.display[t] = ctx; s.stack.append(t); s.cur = t
        try:
            outs = s.exec(t.body, [u])
        finally:
            s.ctx = old; s.stack.pop(); s.cur = oldcur
            if oldd is None: s.display.pop(t, None)
            else: s.display[t] = oldd
        r = []
        for st in outs['n']: r.append((('s', ('noret', ctx)), st))
        for v, st in outs['r']: r.append((v if v is not None else ('s', ('noret', ctx)), st))
        res = []
        seen = set()
        for v, st in r:
            for k in [k for k in st.env if k not in before and s.rootctx(k) == ctx]: del st.env[k]
            if len(r) > 3:
                kk = (v, st.key())
                if kk in seen: continue
                seen.add(kk)
            res.append((v, st))
        if len(res) > s.K:
            by = {}
            for v, st in res: by.setdefault((v, st.cl), []).append(st)
            res = [(v, s.join(g, e.uid if e is not None else 0)) for (v, cl), g in by.items()]
        return res
    @staticmethod
    def rootctx(k):
        while k[0] in ('f', 'i'): k = k[1]
        return k[2] if k[0] == 'v' else None
    def sproc(s, e, n, st):
        h = s.handlers.get('$' + n)
        outs = [((), st)]
        lv = n in ('INC', 'DEC', 'INCL', 'EXCL', 'NEW', 'SYSTEM.NEW')
        for i, a in enumerate(e.b):
            nn = []
            for vs, u in outs:
                if (lv and i == 0) or (n == 'COPY' and i == 1) or (n in ('SYSTEM.GET', 'SYSTEM.GETREG') and i == 1):
                    for l, w in s.lval(a, u): nn.append((vs + (l,), w))
                elif n in ('SYSTEM.ADR', 'LEN', 'SIZE') and a.k in ('name', 'field', 'index', 'deref', 'guard') and not (a.k == 'name' and a.a.kind not in ('var', 'par', 'varpar')):
                    for l, w in s.lval(a, u): nn.append((vs + (('l', l),), w))
                else:
                    for v, w in s.argval(a, u): nn.append((vs + (v,), w))
            outs = nn
        r = []
        for vs, u in outs:
            if h is not None:
                x = h(s, e, list(vs), u)
                if x is not None: r += x; continue
            u = u.copy()
            if n in ('INC', 'DEC'):
                d = vs[1] if len(vs) > 1 else C(1)
                s.store(u, vs[0], s.binop(u, '+' if n == 'INC' else '-', s.load(u, vs[0]), d), e.uid); r.append((NIL, u))
            elif n in ('INCL', 'EXCL'):
                x = s.load(u, vs[0])
                s.store(u, vs[0], s.incl(x, vs[1]) if n == 'INCL' else s.excl(x, vs[1]), e.uid); r.append((NIL, u))
            elif n in ('NEW', 'SYSTEM.NEW'):
                v = s.fresh(u, ('new', e.uid, s.ctx))
                u.facts[v] = (None, frozenset([None]), -INF, INF)
                s.store(u, vs[0], v, e.uid)
                t = e.b[0].typ
                if n == 'NEW' and t.form == 'pointer' and t.base is not None and t.base.form == 'record':
                    s.zero(u, ('*', v), t.base)
                r.append((NIL, u))
            elif n == 'COPY':
                src = vs[0]
                if src[0] == 'l': s.copyagg(u, vs[1], src[1], e.uid)
                else: s.store(u, vs[1], src, e.uid)
                r.append((NIL, u))
            elif n in ('SYSTEM.GET', 'SYSTEM.GETREG'):
                s.havocloc(u, vs[1], e.uid); r.append((NIL, u))
            elif n == 'HALT': s.halt(e, vs, u)
            elif n == 'ASSERT':
                if s.assume(u, vs[0], True): r.append((NIL, u))
            elif n in ('SYSTEM.PUT', 'SYSTEM.PUTREG', 'SYSTEM.MOVE'): r.append((NIL, u))
            elif n == 'LONG': r.append((vs[0], u))
            elif n == 'SYSTEM.VAL' and isc(vs[-1]) and type(vs[-1][1]) is int and e.typ is not None and e.typ.form == 'int' and e.typ.size:
                m = 8 * e.typ.size; v = vs[-1][1] & ((1 << m) - 1); r.append((C(v - (1 << m) if v >> (m - 1) else v), u))
            elif n == 'SHORT':
                v = vs[0]
                if e.typ is not None and e.typ.form == 'int' and e.typ.size:
                    m = 1 << (8 * e.typ.size - 1)
                    lo, hi = s.rng(u, v); tl, th = s.typerange(v)
                    if n == 'SHORT' and not (v[0] == 't' and v[1] == 'ORD' and m > 255) and (max(lo, tl) < -m or min(hi, th) > m - 1): v = s.term(u, 'SHORT%d' % e.typ.size, v)
                if s.floats and isc(v) and isinstance(v[1], float): v = C(struct.unpack('f', struct.pack('f', v[1]))[0] if abs(v[1]) < 3.4028235e38 else v[1])
                r.append((v, u))
            elif n == 'ORD' and vs[0][0] == 't' and vs[0][1] == 'CHR' and s.chr_ord: r.append((vs[0][2][0], u))
            elif n == 'CHR' and vs[0][0] == 't' and vs[0][1] == 'ORD': r.append((vs[0][2][0], u))
            elif n == 'ORD': r.append((C(ord(vs[0][1])) if isc(vs[0]) and isinstance(vs[0][1], str) and len(vs[0][1]) == 1 else s.term(u, 'ORD', vs[0]), u))
            elif n == 'CHR': r.append((C(chr(vs[0][1] & 255)) if isc(vs[0]) and isinstance(vs[0][1], int) else s.term(u, 'CHR', vs[0]), u))
            elif n == 'ODD' and isc(vs[0]) and isinstance(vs[0][1], int): r.append((C(vs[0][1] % 2 == 1), u))
            elif n == 'ASH' and all(isc(x) and type(x[1]) is int for x in vs) and abs(vs[1][1]) < 64: r.append((C(vs[0][1] << vs[1][1] if vs[1][1] >= 0 else vs[0][1] >> -vs[1][1]), u))
            elif s.floats and n in ('MAX', 'MIN') and e.b[0].k == 'typ' and e.b[0].typ.form == 'lreal': r.append((C(sys.float_info.max if n == 'MAX' else -sys.float_info.max), u))
            elif s.floats and n in ('ABS', 'ENTIER') and isc(vs[0]) and isinstance(vs[0][1], float): r.append((C(abs(vs[0][1]) if n == 'ABS' else math.floor(vs[0][1])), u))
            elif n == 'ABS' and isc(vs[0]) and isinstance(vs[0][1], int): r.append((C(abs(vs[0][1])), u))
            else:
                v = const_value(e)
                r.append((C(v), u) if v is not None else (s.term(u, n, *[x for x in vs]), u))
        return r
    def halt(s, e, vs, u): pass
    def zero(s, st, loc, t, depth=0):
        s.bases.add(loc)
        while t is not None and depth < 4:
            for f in (t.fields or {}).values():
                k = f.typ.form
                if k in ('pointer', 'proc'): st.env[('f', loc, f)] = NIL
                elif k == 'int' or k == 'byte': st.env[('f', loc, f)] = C(0)
                elif k == 'bool': st.env[('f', loc, f)] = FALSE
                elif k == 'char': st.env[('f', loc, f)] = C('\0')
                elif k == 'set': st.env[('f', loc, f)] = C(frozenset())
            t = t.base; depth += 1
    # ------------------------------------------------------------ statements
    def join(s, states, uid):
        """merge states that share a client part"""
        if len(states) == 1: return states[0]
        s.merged += len(states) - 1
        a = states[0]
        env = {}
        for k, v in a.env.items():
            ok = True
            for b in states[1:]:
                w = b.env.get(k)
                if w != v: ok = False; break
            if ok: env[k] = v
        allk = set()
        for b in states: allk |= set(b.env)
        facts = {}
        for k in allk - set(env):
            vals = {b.env.get(k) for b in states}
            v = ('s', ('join', uid, s.ctx, k))
            # constants survive as an in-set
            if all(x is not None and x[0] == 'c' for x in vals):
                try: facts[v] = (frozenset(x[1] for x in vals), frozenset(), -INF, INF)
                except TypeError: pass
            elif all(x is not None and (x[0] == 'c' and x[1] is not None or None in b.facts.get(x, TOPF)[1]) for b in states for x in (b.env.get(k),)):
                facts[v] = (None, frozenset([None]), -INF, INF)
            if any(x is not None and x[0] == 'l' for x in vals): continue
            env[k] = v
        for k, f in a.facts.items():
            fs = [b.facts.get(k) for b in states]
            if any(x is None for x in fs): continue
            i = None
            if all(x[0] is not None for x in fs): i = frozenset().union(*[x[0] for x in fs])
            out = frozenset.intersection(*[x[1] for x in fs]) if i is None else frozenset()
            if i is None:
                # exclusions hold when every state excludes them or has an in-set without them
                cand = frozenset().union(*[x[1] for x in fs])
                out = frozenset(c for c in cand if all(c in x[1] or (x[0] is not None and c not in x[0]) for x in fs))
            lo = min(x[2] if x[0] is None else min([y for y in x[0] if isinstance(y, int)] or [-INF]) for x in fs)
            hi = max(x[3] if x[0] is None else max([y for y in x[0] if isinstance(y, int)] or [INF]) for x in fs)
            if i is not None: lo, hi = -INF, INF
            nf = (i, out, lo, hi)
            if nf != TOPF: facts[k] = nf
        gens = {}
        for k in set().union(*[set(b.gens) for b in states]):
            vs = {b.gens.get(k, 0) for b in states}
            gens[k] = vs.pop() if len(vs) == 1 else ('j', uid, s.ctx)
        n = State(env, facts, gens, a.cl, a.tr, frozenset().union(*[b.made for b in states]))
        trs = {b.tr for b in states}
        if len(trs) > 1:
            t = s.tnode(('join', uid, s.ctx, tuple(sorted(trs))))
            for x in trs: s.teps(x, t)
            n.tr = t
        return n
    def limit(s, states, uid):
        if len(states) < 6: return states
        seen = {}
        for st in states: seen.setdefault(st.key(), st)
        r = list(seen.values())
        if len(r) <= s.K: return r
        by = {}
        for st in r: by.setdefault(st.cl, []).append(st)
        return [s.join(g, uid) for g in by.values()]
    def exec(s, body, states):
        """-> dict n: fallthrough states, r: [(value, state)], x: EXIT states"""
        out = {'n': states, 'r': [], 'x': []}
        for n in body or []:
            cur = s.limit(out['n'], n.uid)
            if not cur: break
            out['n'] = []
            s.visited.add(n.uid)
            for st in cur:
                o = s.stmt(n, st)
                out['n'] += o['n']; out['r'] += o['r']; out['x'] += o['x']
        if len(out['r']) > s.K:
            by = {}
            for v, st in out['r']: by.setdefault((v, st.cl), []).append(st)
            u = body[0].uid if body else 0
            out['r'] = [(v, s.join(g, u)) for (v, c), g in by.items()]
        return out
    def stmt(s, n, st):
        s.budget -= 1
        if s.budget < 0: raise Budget('step budget exceeded in %s' % (s.cur and s.cur.qname()))
        N = []; R = []; X = []
        k = n.k
        if s.on_stmt is not None: st = s.on_stmt(s, n, st) or st
        def add(o):
            N.extend(o['n']); R.extend(o['r']); X.extend(o['x'])
        if k == 'assign':
            agg = n.a.typ is not None and n.a.typ.form in ('record', 'array', 'dynarr') and n.b.k in ('name', 'field', 'index', 'deref', 'guard') \
                  and not (n.b.k == 'name' and n.b.a.kind == 'const')
            for v, t in (s.argval(n.b, st) if agg else s.eval(n.b, st)):
                for l, u in s.lval(n.a, t):
                    u = u.copy()
                    if s.on_store is not None: s.on_store(s, n, l, v, u)
                    if agg and v[0] == 'l': s.copyagg(u, l, v[1], n.uid)
                    else: s.store(u, l, v, n.uid)
                    N.append(u)
        elif k == 'callst':
            for v, t in s.call(n.a, st): N.append(t)
        elif k == 'if':
            cur = [st.copy()]
            for c, b, _ in n.a:
                nxt = []
                for u in cur:
                    T, F = s.cond(c, u)
                    if T: add(s.exec(b, T))
                    nxt += F
                cur = s.limit(nxt, n.uid)
                if not cur: break
            if cur:
                if n.b is not None: add(s.exec(n.b, cur))
                else: N += cur
        elif k == 'case':
            for v, t in s.eval(n.a, st.copy()):
                rest = [t]
                for labs, b, _ in n.b:
                    take = []; nr = []
                    for u in rest:
                        a, f = s.caserefine(u, v, labs)
                        take += a; nr += f
                    if take: add(s.exec(b, take))
                    rest = nr
                    if not rest: break
                if rest and n.c is not None: add(s.exec(n.c, rest))
                # without ELSE an unmatched selector traps
        elif k in ('while', 'repeat', 'loop', 'for'):
            o = s.loop(n, st); add(o)
        elif k == 'with':
            cur = [st.copy()]
            for v, t, b, _ in n.a:
                nxt = []
                for u in cur:
                    for x, w in s.eval(v, u):
                        tm = ('t', 'is', (x, ('s', ('type', t.uid))))
                        p = w.copy(); q = w.copy()
                        if s.assume(p, tm, True): add(s.exec(b, [p]))
                        if s.assume(q, tm, False): nxt.append(q)
                cur = nxt
            if cur and n.b is not None: add(s.exec(n.b, cur))
        elif k == 'return':
            if n.a is None:
                R.append((None, st))
            else:
                # boolean results with effects fork into constants
                for v, t in s.eval(n.a, st): R.append((v, t))
            if s.on_return is not None:
                for v, t in R: s.on_return(s, n, v, t)
        elif k == 'exit': X.append(st)
        else: raise Exception('stmt ' + k)
        return {'n': N, 'r': R, 'x': X}
    def caserefine(s, st, v, labs):
        vals = set(); ranges = []
        for lo, hi, _, _ in labs:
            if lo is None or hi is None: ranges.append(None); continue
            if isinstance(lo, str): vals |= {chr(x) for x in range(ord(lo), ord(hi) + 1)}
            elif hi - lo < 600: vals |= set(range(lo, hi + 1))
            else: ranges.append((lo, hi))
        if isc(v):
            c = v[1]
            if c in vals or any(r is not None and r[0] <= c <= r[1] for r in ranges): return [st], []
            if any(r is None for r in ranges): return [st.copy()], [st]
            return [], [st]
        a = []; b = []
        t = st.copy()
        if ranges: a.append(t)
        elif s.setfact(t, v, (frozenset(vals), frozenset(), -INF, INF)): a.append(t)
        u = st.copy()
        if s.setfact(u, v, (None, frozenset(vals), -INF, INF)): b.append(u)
        return a, b
    def loop(s, n, st):
        if not s.peel: return s.wloop(n, [st])
        return s.ploop(n, st)
    def ploop(s, n, st):
        k = n.k; N = []; R = []; X = []
        old = s.ctx
        cur = [st.copy()]
        body = {'for': n.c, 'while': n.b, 'repeat': n.a, 'loop': n.a}[k]
        hi = None
        if k == 'for':
            nxt = []
            for u in cur:
                for lo, t in s.eval(n.b[0], u):
                    for h, w in s.eval(n.b[1], t):
                        w = w.copy()
                        l = s.lval(n.a, w)[0][0]; s.store(w, l, lo, n.uid)
                        w.env[('forhi', n.uid, old)] = h; nxt.append(w)
            cur = nxt
        def forcond(u):
            v = s.load(u, s.lval(n.a, u)[0][0]); h = u.env[('forhi', n.uid, old)]
            c = s.rel(u, '<=', v, h) if (n.b[2] or 1) > 0 else s.rel(u, '>=', v, h)
            d = s.decide(u, c)
            if d is True: return [u], []
            if d is False: return [], [u]
            a = u.copy(); b = u.copy()
            return ([a] if s.assume(a, c, True) else []), ([b] if s.assume(b, c, False) else [])
        def clean(u):
            if k == 'for': u = u.copy(); u.env.pop(('forhi', n.uid, old), None)
            return u
        for i in range(s.peel + 1):
            if not cur: break
            s.ctx = old + (('it', n.uid, i),)
            if k in ('while', 'for'):
                T = []
                for u in cur:
                    a, b = s.cond(n.a, u.copy()) if k == 'while' else forcond(u)
                    T += a; N += [clean(x) for x in b]
                cur = T
            if i == s.peel: break
            o = s.exec(body, s.limit(cur, n.uid))
            R += o['r']
            if k == 'loop': N += o['x']
            else: X += o['x']
            cur = o['n']
            if k == 'repeat':
                F = []
                for u in cur:
                    a, b = s.cond(n.b, u.copy()); N += a; F += b
                cur = F
            elif k == 'for':
                nx = []
                for u in cur:
                    u = u.copy(); l = s.lval(n.a, u)[0][0]
                    s.store(u, l, s.binop(u, '+', s.load(u, l), C(n.b[2] or 1)), n.uid); nx.append(u)
                cur = nx
        s.ctx = old
        if cur:
            if s.peel_only:
                # iterations that do not touch the client part may be widened
                idle = [u for u in cur if u.cl == st.cl]
                s.pruned += len(cur) - len(idle); cur = idle
            if cur:
                if k == 'for':
                    # remaining iterations: counter anywhere up to the bound
                    for u in cur:
                        mods = s.mods.stmts(n.c) | {s.mods.root(n.a)}
                        h = u.copy(); s.havoc(h, mods, n.uid)
                        o = s.fix(n, h, n.c, forcond, after=None)
                        N += [clean(x) for x in o['n']]; R += [(v, clean(x)) for v, x in o['r']]; X += [clean(x) for x in o['x']]
                else:
                    o = s.wloop(n, cur); N += o['n']; R += o['r']; X += o['x']
        return {'n': s.limit(N, n.uid), 'r': R, 'x': X}
    def wloop(s, n, sts):
        N = []; R = []; X = []
        for st in s.limit(sts, n.uid):
            o = s.wloop1(n, st); N += o['n']; R += o['r']; X += o['x']
        return {'n': N, 'r': R, 'x': X}
    def wloop1(s, n, st):
        k = n.k
        N = []; R = []; X = []
        if k == 'for':
            a, b, step = n.b
            body = n.c
            outs = []
            for lo, t in s.eval(a, st):
                for hi, u in s.eval(b, t):
                    outs.append((lo, hi, u))
            mods = s.mods.stmts(body) | {s.mods.root(n.a)}
            for lo, hi, u in outs:
                if isc(lo) and isc(hi) and isinstance(lo[1], int) and isinstance(hi[1], int) and step and s.unroll and abs(hi[1] - lo[1]) <= s.unroll:
                    cur = [u.copy()]
                    i = lo[1]
                    while (i <= hi[1]) if step > 0 else (i >= hi[1]):
                        for w in cur:
                            for l, _ in s.lval(n.a, w): s.store(w, l, C(i), n.uid)
                        o = s.exec(body, cur); R += o['r']; X += o['x']; cur = [w.copy() for w in s.limit(o['n'], n.uid)]
                        i += step
                        if not cur: break
                    N += cur; continue
                d = s.decide(u, s.rel(u, '<', hi, lo)) if step and step > 0 else s.decide(u, s.rel(u, '<', lo, hi))
                if d is True: N.append(u); continue
                h = u.copy()
                if d is not False:
                    z = u.copy()
                    if s.assume(z, s.rel(z, '<', hi, lo) if (step or 1) > 0 else s.rel(z, '<', lo, hi), True): N.append(z)
                s.havoc(h, mods, n.uid)
                def enter(w):
                    v = s.load(w, s.lval(n.a, w)[0][0])
                    ok = True
                    if (step or 1) > 0:
                        ok = s.assume(w, s.rel(w, '>=', v, lo), True) and s.assume(w, s.rel(w, '<=', v, hi), True)
                    else:
                        ok = s.assume(w, s.rel(w, '<=', v, lo), True) and s.assume(w, s.rel(w, '>=', v, hi), True)
                    return ([w] if ok else []), []
                o = s.fix(n, h, body, lambda w: enter(w), after=None)
                N += o['n']; R += o['r']; X += o['x']
            return {'n': N, 'r': R, 'x': X}
        if k == 'while':
            T, F = s.cond(n.a, st.copy())
            N += F
            mods = s.mods.stmts(n.b + [n.a])
            heads = []
            for t in T:
                h = t.copy(); s.havoc(h, mods, n.uid); heads.append(h)
            for h in s.limit(heads, n.uid):
                o = s.fix(n, h, n.b, lambda w: s.cond(n.a, w), first=True)
                N += o['n']; R += o['r']; X += o['x']
            return {'n': N, 'r': R, 'x': X}
        if k == 'repeat':
            h = st.copy(); s.havoc(h, s.mods.stmts(n.a + [n.b]), n.uid)
            o = s.fix(n, h, n.a, None, after=lambda w: s.cond(n.b, w))
            return o
        if k == 'loop':
            h = st.copy(); s.havoc(h, s.mods.stmts(n.a), n.uid)
            o = s.fix(n, h, n.a, None)
            return {'n': o['x'], 'r': o['r'], 'x': []}
    def fix(s, n, head, body, enter, after=None, first=False):
        """client-part fixpoint of a loop whose head state is already havocked.
        enter(w) -> (body states, exit states); after(w) -> (exit states, back states)"""
        N = []; R = []; X = []
        pre = head.tr
        hn = s.tnode((pre, 'loop', n.uid, s.ctx))
        s.teps(pre, hn); head.tr = hn
        work = [head.cl]; seen = set()
        rounds = 0
        while work:
            cl = work.pop()
            if cl in seen: continue
            seen.add(cl); rounds += 1
            if rounds > 2000: raise Budget('loop client states')
            w = head.copy(); w.cl = cl
            if enter is not None:
                T, F = enter(w)
                N += F
                if not T and first and not F: pass
            else: T = [w]
            if T:
                o = s.exec(body, [t.copy() for t in T])
                R += o['r']; X += o['x']
                if after is None: back = o['n']
                else:
                    back = []
                    for t in o['n']:
                        a, b = after(t.copy()); N += a; back += b
                for t in back:
                    s.teps(t.tr, hn)
                    if enter is not None and after is None and n.k == 'for':
                        # the loop may end after any iteration
                        z = head.copy(); z.cl = t.cl; z.tr = hn; N.append(z)
                    if t.cl not in seen: work.append(t.cl)
        if n.k == 'loop': return {'n': [], 'r': R, 'x': X}
        if n.k in ('while', 'repeat', 'for'):
            # EXIT inside refers to an enclosing LOOP
            return {'n': s.limit(N, n.uid), 'r': R, 'x': X}
        return {'n': N, 'r': R, 'x': X}
    # ------------------------------------------------------------ entry
    def run(s, p, st=None, args=None):
        """analyse procedure p from state st; args: {param name: value}. -> dict of outcomes"""
        st = st.copy() if st is not None else State()
        s.ctx = (); s.stack = [p]; s.display = {p: ()}
        q = p.parent
        while q is not None: s.display[q] = (); q = q.parent
        s.cur = p
        for a, v in (args or {}).items():
            o = next((x for x in ([p.recv] if p.recv else []) + (p.params or []) if x.name == a), None)
            if o is None: raise KeyError('%s has no parameter %s' % (p.qname(), a))
            st.env[('v', o, ())] = v
        o = s.exec(p.body, [st])
        s.stack = []
        return o

# ---------------------------------------------------------------- automata over trace graphs
class NFA:
    def __init__(s, edges, start, finals):
        s.edges, s.start, s.finals = edges, start, set(finals)
        # restrict to nodes that can reach a final node
        rev = {}
        for a, es in edges.items():
            for l, b in es: rev.setdefault(b, []).append(a)
        live = set(s.finals); st = list(s.finals)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in live: live.add(y); st.append(y)
        s.live = live
    def close(s, S):
        S = set(S); st = list(S)
        while st:
            x = st.pop()
            for l, y in s.edges.get(x, ()):
                if l is None and y not in S and y in s.live: S.add(y); st.append(y)
        return frozenset(S)
    def init(s): return s.close([s.start] if s.start in s.live else [])
    def step(s, S):
        r = {}
        for x in S:
            for l, y in s.edges.get(x, ()):
                if l is not None and y in s.live: r.setdefault(l, set()).add(y)
        return {l: s.close(t) for l, t in r.items()}
    def acc(s, S): return bool(S & s.finals)

def nfa_diff(A, B, match=None, limit=20000):
    """compare languages by product determinisation; returns None if equal or
    (prefix, labels only in A, labels only in B, acceptance)"""
    from collections import deque
    a, b = A.init(), B.init()
    seen = {(a, b)}; q = deque([(a, b, ())])
    while q:
        x, y, pre = q.popleft()
        if A.acc(x) != B.acc(y): return (pre, None, None, (A.acc(x), B.acc(y)))
        p, r = A.step(x), B.step(y)
        if set(p) != set(r): return (pre, set(p) - set(r), set(r) - set(p), None)
        for l in p:
            k = (p[l], r[l])
            if k not in seen:
                seen.add(k)
                if len(seen) > limit: raise Budget('automaton product')
                q.append((p[l], r[l], pre + (l,)))
    return None

def words(A, maxlen=40, limit=5000):
    """enumerate accepted words without repeating a determinised state on a path"""
    res = []
    def rec(S, pre, seen):
        if len(res) > limit: return
        if A.acc(S): res.append(pre)
        if len(pre) >= maxlen: return
        for l, T in A.step(S).items():
            if T in seen: continue
            rec(T, pre + (l,), seen | {T})
    i = A.init(); rec(i, (), {i})
    return res

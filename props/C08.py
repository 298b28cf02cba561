"""Constants: an expression of constants is folded by the compiler (OPB.ConstOp, MOp, In, SetElem, SetRange, StPar0, StPar1, Convert), and an
operator with one constant operand may be replaced by a cheaper one (OPB.Op).  The folding procedures are interpreted on constant nodes; the
value in the node has to be the one the language defines, and anything that cannot be represented has to be rejected."""
import itertools, math, struct
from oblib.comp import *
from .C04 import PRE
LEVEL = 'other'
INT = {'INT8': 8, 'INT16': 16, 'INT32': 32, 'INT64': 64}
LO, HI = -2 ** 63, 2 ** 63 - 1
def size(v): return next((k for k, n in INT.items() if -2 ** (n - 1) <= v < 2 ** (n - 1)), None)
class Folder(Comp):
    def engine(s, **kw):
        e = super().engine(**kw); e.floats = True; e.handlers.pop('OPB.SetSetType', None)
        def peek(E, n, vs, st):
            a, off = vs[0], 0
            if a[0] == 't' and a[1] == '+' and isc(a[2][1]): a, off = a[2][0], a[2][1][1]
            if not (a[0] == 't' and a[1] == 'SYSTEM.ADR' and a[2][0][0] == 'l' and n.b[1].typ is not None and n.b[1].typ.form == 'int'): return None
            v = E.load(st, a[2][0][1])
            if not isc(v) or not isinstance(v[1], (int, frozenset)): return None
            bits = sum(1 << (i & 63) for i in v[1]) if isinstance(v[1], frozenset) else v[1]; m = 8 * n.b[1].typ.size
            bits = bits >> 8 * off & (1 << m) - 1; st = st.copy(); E.store(st, vs[1], C(bits - (1 << m) if bits >> (m - 1) else bits), n.uid)
            return [(NIL, st)]
        e.handlers['$SYSTEM.GET'] = peek; return e
class CTree:
    """constants by name, opaque variables, and the value of the tree the parser makes of an expression"""
    def __init__(s, ctx, model='2'):
        s.ctx = ctx; s.G = G = Folder(ctx); s.st = st = G.begin((), 0, model); G.predeclare(st); G.scopes(st)
        for n, v in (('OPM.MaxReal', 3.40282346e38), ('OPM.MinReal', -3.40282346e38), ('OPM.MaxLReal', MAXREAL), ('OPM.MinLReal', -MAXREAL)): G.glob(st, n, C(v))
        for n, k in (('realtyp', 'REAL'), ('lrltyp', 'LREAL'), ('booltyp', 'BOOL'), ('chartyp', 'CHAR')): G.glob(st, 'OPT.' + n, G.typ(st, k))
        for k in list(INT) + ['SET32', 'SET64', 'BOOL', 'CHAR', 'REAL', 'LREAL']: G.typ(st, k)
        s.names = {}; s.vars = {}; s.use()
    def use(s): s.G.use(s.st); s.E = s.G.E0
    def k(s, kind, v):
        """the name of a constant"""
        key = kind, v if not isinstance(v, (set, list)) else frozenset(v)
        return s.names.setdefault(key, 'k%d' % len(s.names))
    def declare(s, st, n, kind, v):
        G = s.G; f = dict(intval=C(-1), intval2=C(0), setval=C(frozenset()), realval=C(0.0))
        f['setval' if kind.startswith('SET') else 'realval' if kind in ('REAL', 'LREAL') else 'intval'] = C(v)
        G.idents[n] = G.rec(st, 'N_' + n, G.O, name=C(n), mode=C(G.c('Con')), typ=G.typ(st, kind), conval=G.rec(st, 'kv_' + n, G.K, **f), mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL, left=NIL, right=NIL, scope=NIL)
    def i(s, v): return s.k(size(v), v)
    def x(s, kind):
        """an opaque variable"""
        if kind not in s.vars: s.vars[kind] = s.G.opaque_(s.st, 'v' + kind, s.G.typ(s.st, kind))
        return '$v' + kind
    def parse(s, text):
        """-> [(errors, value, type)]; the value is a function of the variable"""
        G = s.G; r = []; st = s.st.copy(); used = set(re.findall(r'\bk\d+\b', text))
        for (kind, v), n in s.names.items():
            if n in used: s.declare(st, n, kind, v)
        for x, e, t in G.parse_(st, text, 'OPP.Expression', 'x'):
            e = [y for y in e if not (isinstance(y, int) and y < 0)]
            if t.env[POS][1] < len(G.toks): raise Broken('%s is not read to its end' % text)
            r.append((e, None, None) if e else (e, (x, t), s.tname(t, s.get(t, x, 'typ'))))
        if not r: raise Broken('no path through ' + text)
        return r
    def get(s, t, x, f, tab='N'): return s.E.norm(t, s.E.load(t, ('f', ('*', x), getattr(s.G, tab)[f])))
    def tname(s, t, v): return next((k for k, x in s.G.types.items() if x == v), None)
    def con(s, t, x):
        """the constant in a node"""
        ty = s.tname(t, s.get(t, x, 'typ')); k = s.get(t, x, 'conval')
        f = 'setval' if ty and ty.startswith('SET') else 'realval' if ty in ('REAL', 'LREAL') else 'intval'
        return ty, s.term(s.get(t, k, f, 'K'), ty)
    def term(s, v, ty=None):
        if isc(v): return v[1]
        if v[0] == 't':
            a = [s.term(y) for y in v[2]]; o = v[1]
            F = {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1], '/': lambda: a[0] / a[1], 'DIV': lambda: a[0] // a[1], 'MOD': lambda: a[0] % a[1], 'ENTIER': lambda: math.floor(a[0]), 'ABS': lambda: abs(a[0]), 'ORD': lambda: ord(a[0]) if isinstance(a[0], str) else a[0], 'CHR': lambda: a[0], 'CAP': lambda: cap(a[0]), 'SHORT': lambda: single(a[0]) if isinstance(a[0], float) else a[0], 'LONG': lambda: a[0],
                 'neg': lambda: frozenset(range(64)) - a[0] if isinstance(a[0], frozenset) else -a[0], 'ASH': lambda: a[0] << a[1] if a[1] >= 0 else a[0] >> -a[1]}
            try:
                if o in F: return F[o]()
            except (ArithmeticError, ValueError): return math.nan
        raise Broken('the value of a constant is %s' % (v,))
    def value(s, xt, at):
        """the value of a tree where the variable has the value at"""
        x, t = xt; G = s.G; cl = s.get(t, x, 'class'); is_ = lambda n: cl == C(G.c(n))
        if x in s.vars.values(): return at
        if is_('Nconst'): return s.con(t, x)[1]
        sub = s.get(t, x, 'subcl'); l = s.get(t, x, 'left')
        ops = lambda n: sub == C(s.ctx.const('OPS.' + SYM[n])); fn = lambda n: sub == C(G.c(n))
        if is_('Nmop'):
            a = s.value((l, t), at); ty = s.tname(t, s.get(t, x, 'typ'))
            if fn('conv'):
                fr = s.tname(t, s.get(t, l, 'typ'))
                if ty in ('REAL', 'LREAL') and not isinstance(a, float): return float(a)
                if ty in INT and isinstance(a, float): return math.floor(a)
                if ty and ty.startswith('SET') and fr in INT: return frozenset([a])
                if ty == 'CHAR' or fr == 'CHAR': return a
                return a
            if ops('-'): return (frozenset(range(64 if ty == 'SET64' else 32)) - a) if isinstance(a, frozenset) else -a
            if ops('~'): return 0 if a else 1
            if fn('abs'): return abs(a)
            if fn('odd'): return a % 2
            if fn('cap'): return cap(a)
        if is_('Nupto'): return frozenset(range(s.value((l, t), at), s.value((s.get(t, x, 'right'), t), at) + 1))
        if is_('Ndop'):
            a, b = s.value((l, t), at), s.value((s.get(t, x, 'right'), t), at)
            if fn('ash'): return a << b if b >= 0 else a >> -b
            if fn('msk'): return a & ~b
            for o, f in FUN.items():
                if ops(o): return f(a, b)
        raise Broken('tree outside the model: %s %s' % (cl, sub))
def single(v): return struct.unpack('f', struct.pack('f', v))[0] if abs(v) < 3.4028235e38 else v
def cap(c):
    if isinstance(c, str): c = ord(c)
    return c - 32 if 97 <= c <= 122 else c
def slash(a, b): return a ^ b if isinstance(a, frozenset) else a / b
def times(a, b): return a & b if isinstance(a, frozenset) else a * b
def plus(a, b): return a | b if isinstance(a, frozenset) else a + b
ARI = {'+': plus, '-': lambda a, b: a - b, '*': times, 'DIV': lambda a, b: a // b, 'MOD': lambda a, b: a % b}
REL = {'=': lambda a, b: int(a == b), '#': lambda a, b: int(a != b), '<': lambda a, b: int(a < b), '<=': lambda a, b: int(a <= b), '>': lambda a, b: int(a > b), '>=': lambda a, b: int(a >= b)}
FUN = {**ARI, **REL, '/': slash, '&': lambda a, b: int(bool(a and b)), 'OR': lambda a, b: int(bool(a or b)), 'IN': lambda a, b: int(a in b)}
VALS = sorted({s * v for v in (0, 1, 2, 3, 7, 8, 10, 63, 64, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 3037000499, 3037000500, 2 ** 32, 2 ** 62, 2 ** 62 + 1, HI) for s in (1, -1)} | {LO})
CORE = sorted({s * v for v in (0, 1, 2, 3, 8, 127, 128, 32768, 2 ** 31 - 1, 2 ** 31, 3037000499, 3037000500, 2 ** 32, 2 ** 62, HI) for s in (1, -1)} | {LO})
SETS = [frozenset(x) for x in ((), (0,), (31,), (0, 31), (1, 3, 5), (1, 2, 3, 4), range(32), (32,), (63,), (0, 63), (3, 40), range(64))]
MAXREAL = 1.7976931348623157e307 * 9.999999
REALS = (0.0, 1.0, -1.0, MAXREAL, 2.5, -0.1, 1e10, 3.0e-40, 1e200, -1e300)
class J:
    def __init__(s, ctx, **kw): s.ctx = ctx; s.T = CTree(ctx, **kw)
    def fold(s, rule, inst, text, want, ty=None, where='OPB.ConstOp', may=False):
        """text is the constant want (of type ty), or rejected if want is None; may: it may be rejected as well"""
        T = s.T; bad = None; T.use(); rs = T.parse(text)
        for e, xt, k in rs:
            if want is None: bad = bad or (None if e else 'accepted as %s' % (T.value(xt, None),))
            elif e: bad = bad or (None if may else 'rejected (error %s)' % ', '.join(map(str, e)))
            else:
                x, t = xt
                if T.get(t, x, 'class') != C(s.T.G.c('Nconst')):
                    bad = bad or (None if T.value(xt, None) == want else 'compiled to something else than %s' % (want,)); continue
                v = T.con(t, x)[1]
                if k == 'REAL': v, want = single(v), single(want)
                if v != want: bad = 'folded to %s' % (v,)
                elif ty is not None and k != ty: bad = 'given the type %s, not %s' % (k, ty)
        used = set(re.findall(r'\bk\d+\b', text))
        what = '%s with %s' % (text, ', '.join('%s = %s' % (n, d) for (_, d), n in T.names.items() if n in used))
        s.ctx.check(bad is None, rule, inst, s.ctx.where(s.ctx.proc(where)), '%s is %s; it is %s' % (what, bad, 'no legal constant' if want is None else want), sample='%s: %s' % (inst, want))
def integers(ctx, part=None):
    j = J(ctx); T = j.T
    V = VALS if ctx.tier == 'thorough' else CORE
    for a in V if part is None else V[part::4]:
        for b in V:
            for o in ARI:
                w = None
                if not (o in ('DIV', 'MOD') and b == 0):
                    w = ARI[o](a, b)
                    if not LO <= w <= HI: w = None
                j.fold('integer ' + o, '%d %s %d' % (a, o, b), '%s %s %s' % (T.i(a), o, T.i(b)), w, size(w) if w is not None else None)
            for o in REL: j.fold('integer relation', '%d %s %d' % (a, o, b), '%s %s %s' % (T.i(a), o, T.i(b)), REL[o](a, b), 'BOOL')
            if b != 0 and abs(a) <= 2 ** 24 and abs(b) <= 2 ** 24: j.fold('integer /', '%d / %d' % (a, b), '%s / %s' % (T.i(a), T.i(b)), a / b, 'REAL')
            if b == 0: j.fold('integer /', '%d / 0' % a, '%s / %s' % (T.i(a), T.i(0)), None)
        for b in list(range(-66, 67, 1)) if abs(a) < 3 or a in (LO, HI) else (-64, -63, -31, -1, 0, 1, 2, 31, 32, 62, 63, 64):
            w = a << b if b >= 0 else a >> -b
            ok = LO <= w <= HI; lim = abs(b) > 62 or not abs(a) <= HI >> max(b, 0)
            j.fold('ASH', 'ASH(%d, %d)' % (a, b), 'ASH(%s, %s)' % (T.i(a), T.i(b)), w if ok else None, where='OPB.StPar1', may=lim)
def functions(ctx):
    j = J(ctx); T = j.T; s0 = 'OPB.StPar0'
    for a in VALS:
        j.fold('-', '- %d' % a, '- ' + T.i(a), -a if a != LO else None, size(-a), 'OPB.MOp'); j.fold('ABS', 'ABS(%d)' % a, 'ABS(%s)' % T.i(a), abs(a) if a != LO else None, size(abs(a)), 'OPB.MOp')
        j.fold('ODD', 'ODD(%d)' % a, 'ODD(%s)' % T.i(a), a % 2, 'BOOL', 'OPB.MOp'); j.fold('+', '+ %d' % a, '+ ' + T.i(a), a, size(a), 'OPB.MOp')
        j.fold('CHR', 'CHR(%d)' % a, 'CHR(%s)' % T.i(a), a if 0 <= a <= 255 else None, 'CHAR', 'OPB.Convert')
        for f in ('SHORT', 'LONG'):
            # the operand may have been declared in any type that holds it
            j.fold(f, '%s(%d)' % (f, a), '%s(%s)' % (f, T.i(a)), a, None, 'OPB.Convert', may=True)
        j.fold('integer expression', 'ABS(- %d) + %d' % (a, 1), 'ABS(- %s) + %s' % (T.i(a), T.i(1)), None if a == LO or abs(a) == HI else abs(a) + 1, None)
    for c in range(256):
        k = T.k('CHAR', c); j.fold('CAP', 'CAP(%02XX)' % c, 'CAP(%s)' % k, cap(c), 'CHAR', 'OPB.MOp') if c < 128 else None; j.fold('ORD', 'ORD(%02XX)' % c, 'ORD(%s)' % k, c, None, s0); j.fold('CHR', 'CHR(%d)' % c, 'CHR(%s)' % T.i(c), c, 'CHAR', 'OPB.Convert')
    for a, b in itertools.product((0, 1, 0x41, 0x61, 0x7f, 0x80, 0xff), repeat=2):
        for o in REL: j.fold('character relation', '%02XX %s %02XX' % (a, o, b), '%s %s %s' % (T.k('CHAR', a), o, T.k('CHAR', b)), REL[o](a, b), 'BOOL')
    for a in (0, 1):
        j.fold('~', '~ %d' % a, '~ ' + T.k('BOOL', a), 1 - a, 'BOOL', 'OPB.MOp')
        for b in (0, 1):
            for o in ('&', 'OR', '=', '#'): j.fold('boolean ' + o, '%d %s %d' % (a, o, b), '%s %s %s' % (T.k('BOOL', a), o, T.k('BOOL', b)), FUN[o](a, b), 'BOOL')
    S = ('ab', 'abc', 'abd', 'b2', 'zzz', 'abcd', 'AB')
    for a in S:
        for b in S:
            for o in REL: j.fold('string relation', '"%s" %s "%s"' % (a, o, b), '"%s" %s "%s"' % (a, o, b), REL[o](a, b), 'BOOL')
    BIG = REALS + (3.5, 2147483647.0, 4194304.0, 9.2e18, -9.2e18, 2.0 ** 63, -2.0 ** 63, 2.0 ** 63 - 1024, 9.3e18, 1e19, -0.5, 0.5, 17592186044416.5, -2147483648.5)
    for r in BIG:
        k = T.k('LREAL', r); w = math.floor(r)
        j.fold('ENTIER', 'ENTIER(%r)' % r, 'ENTIER(%s)' % k, w if LO <= w <= HI else None, None, 'OPB.Convert', may=not -2 ** 31 <= w < 2 ** 31); j.fold('real -', '- %r' % r, '- ' + k, -r, 'LREAL', 'OPB.MOp'); j.fold('real ABS', 'ABS(%r)' % r, 'ABS(%s)' % k, abs(r), 'LREAL', 'OPB.MOp')
    v = J(ctx, model='V')   # LONGINT has 64 bits
    for r in BIG:
        w = math.floor(r); v.fold('ENTIER', 'ENTIER(%r)/-OV' % r, 'ENTIER(%s)' % v.T.k('LREAL', r), w if LO <= w <= HI else None, None, 'OPB.Convert')
    for a, b in itertools.product(REALS, repeat=2):
        for o in ('+', '-', '*', '/'):
            if o == '/' and b == 0: w = None
            else:
                try: w = FUN[o](a, b)
                except OverflowError: w = None
                if w is not None and abs(w) > MAXREAL: w = None
            j.fold('real ' + o, '%r %s %r' % (a, o, b), '%s %s %s' % (T.k('LREAL', a), o, T.k('LREAL', b)), w, 'LREAL')
        for o in REL: j.fold('real relation', '%r %s %r' % (a, o, b), '%s %s %s' % (T.k('LREAL', a), o, T.k('LREAL', b)), REL[o](a, b), 'BOOL')
    for a, b in itertools.product((0.0, 1.0, -2.5, 1.5, 2.0 ** 100, -2.0 ** 60, 2.0 ** -100, 3.0), repeat=2):
        for ka, kb in (('REAL', 'REAL'), ('REAL', 'LREAL'), ('LREAL', 'REAL')):
            for o in ('+', '-', '*', '/'):
                w = None if o == '/' and b == 0 else FUN[o](a, b); k = 'REAL' if ka == kb else 'LREAL'
                if w is not None and k == 'REAL' and abs(w) > 3.4e38: w = None
                j.fold('real ' + o, '%s %r %s %s %r' % (ka, a, o, kb, b), '%s %s %s' % (T.k(ka, a), o, T.k(kb, b)), w, k)
            for o in REL: j.fold('real relation', '%s %r %s %s %r' % (ka, a, o, kb, b), '%s %s %s' % (T.k(ka, a), o, T.k(kb, b)), REL[o](a, b), 'BOOL')
    for a in (0.0, 1.0, -2.5, 2.0 ** 100, 2.0 ** 127, -2.0 ** 128, 1e300):
        j.fold('SHORT', 'SHORT(%r)' % a, 'SHORT(%s)' % T.k('LREAL', a), a if abs(a) < 3.4e38 else None, 'REAL', 'OPB.Convert')
        if abs(a) < 3.4e38: j.fold('LONG', 'LONG(%r)' % a, 'LONG(%s)' % T.k('REAL', a), a, 'LREAL', 'OPB.Convert'); j.fold('real -', 'REAL - %r' % a, '- ' + T.k('REAL', a), -a, 'REAL', 'OPB.MOp'); j.fold('real ABS', 'REAL ABS(%r)' % a, 'ABS(%s)' % T.k('REAL', a), abs(a), 'REAL', 'OPB.MOp')
    for a in (0, 3, -7, 1000):
        for b in (2.5, -0.5):
            for o in ('+', '-', '*', '/'): j.fold('real ' + o, '%d %s %r' % (a, o, b), '%s %s %s' % (T.i(a), o, T.k('LREAL', b)), FUN[o](a, b), 'LREAL'); j.fold('real ' + o, '%r %s %d' % (b, o, a), '%s %s %s' % (T.k('LREAL', b), o, T.i(a)), FUN[o](b, a) if o != '/' or a else None, 'LREAL')
            for o in REL: j.fold('real relation', '%d %s %r' % (a, o, b), '%s %s %s' % (T.i(a), o, T.k('LREAL', b)), REL[o](a, b), 'BOOL')
def sets(ctx):
    j = J(ctx); T = j.T
    ty = lambda v: 'SET64' if any(x > 31 for x in v) else 'SET32'
    for a in SETS:
        for b in SETS:
            for o in ('+', '-', '*', '/'): j.fold('set ' + o, '%s %s %s' % (sorted(a), o, sorted(b)), '%s %s %s' % (T.k(ty(a), a), o, T.k(ty(b), b)), FUN[o](a, b), ty(FUN[o](a, b)))
            for o in ('=', '#'): j.fold('set ' + o, '%s %s %s' % (sorted(a), o, sorted(b)), '%s %s %s' % (T.k(ty(a), a), o, T.k(ty(b), b)), REL[o](a, b), 'BOOL')
        j.fold('set complement', '- %s' % sorted(a), '- ' + T.k(ty(a), a), frozenset(range(64 if ty(a) == 'SET64' else 32)) - a, None, 'OPB.MOp')
        for i in (0, 1, 2, 3, 5, 30, 31, 32, 33, 62, 63, 64, -1, 255): j.fold('IN', '%d IN %s' % (i, sorted(a)), '%s IN %s' % (T.i(i), T.k(ty(a), a)), int(i in a) if 0 <= i < (64 if ty(a) == 'SET64' else 32) else None, 'BOOL', 'OPB.In')
    for i in (-1, 0, 1, 5, 30, 31, 32, 62, 63, 64, 200):
        j.fold('set element', '{%d}' % i, '{%s}' % T.i(i), frozenset([i]) if 0 <= i < 64 else None, None, 'OPB.SetElem', may=i > 31); j.fold('set element', '{1, %d}' % i, '{1, %s}' % T.i(i), frozenset([1, i]) if 0 <= i < 64 else None, None, 'OPB.SetElem', may=i > 31)
        for k in (-1, 0, 1, 5, 31, 32, 63, 64): j.fold('set range', '{%d..%d}' % (i, k), '{%s..%s}' % (T.i(i), T.i(k)), frozenset(range(i, k + 1)) if 0 <= i <= k < 64 else None, None, 'OPB.SetRange', may=max(i, k) > 31); j.fold('set range', '{%d..%d, 7}' % (i, k), '{%s..%s, 7}' % (T.i(i), T.i(k)), frozenset(range(i, k + 1)) | {7} if 0 <= i <= k < 64 else None, None, 'OPB.SetRange', may=max(i, k) > 31)
def limits(ctx):
    """MIN, MAX, SIZE of the basic types in each model"""
    for m, sz in (('2', (1, 2, 4)), ('C', (2, 4, 8)), ('V', (1, 4, 8))):
        j = J(ctx, model=m)
        for n, k in list(zip(('SHORTINT', 'INTEGER', 'LONGINT'), sz)) + [('HUGEINT', 8), ('SYSTEM.INT8', 1), ('SYSTEM.INT16', 2), ('SYSTEM.INT32', 4), ('SYSTEM.INT64', 8)]:
            j.fold('MAX', '%s/-O%s' % (n, m), 'MAX(%s)' % n, 2 ** (8 * k - 1) - 1, None, 'OPB.StPar0'); j.fold('MIN', '%s/-O%s' % (n, m), 'MIN(%s)' % n, -2 ** (8 * k - 1), None, 'OPB.StPar0'); j.fold('SIZE', '%s/-O%s' % (n, m), 'SIZE(%s)' % n, k, None, 'OPB.StPar0')
            j.fold('MAX', '-MAX(%s) - 1/-O%s' % (n, m), '- MAX(%s) - 1' % n, -2 ** (8 * k - 1), None); j.fold('MAX', 'MAX(%s) + 1/-O%s' % (n, m), 'MAX(%s) + 1' % n, 2 ** (8 * k - 1) if k < 8 else None, None); j.fold('MIN', 'MIN(%s) - 1/-O%s' % (n, m), 'MIN(%s) - 1' % n, -2 ** (8 * k - 1) - 1 if k < 8 else None, None)
        for n, lo, hi, k in (('BOOLEAN', 0, 1, 1), ('CHAR', 0, 255, 1), ('SYSTEM.SET32', 0, 31, 4), ('SYSTEM.SET64', 0, 63, 8)):
            j.fold('MAX', '%s/-O%s' % (n, m), 'MAX(%s)' % n, hi, None, 'OPB.StPar0'); j.fold('MIN', '%s/-O%s' % (n, m), 'MIN(%s)' % n, lo, None, 'OPB.StPar0'); j.fold('SIZE', '%s/-O%s' % (n, m), 'SIZE(%s)' % n, k, None, 'OPB.StPar0')
def simplified(ctx):
    """an operator with one constant operand"""
    j = J(ctx); T = j.T; w = ctx.where(ctx.proc('OPB.Op'))
    def tree(inst, text, at, f, fits=lambda v: True):
        T.use(); bad = None; undefined = True
        for v in at:
            try: f(v); undefined = False
            except (ZeroDivisionError, ValueError): pass
        for e, xt, k in T.parse(text):
            if e or undefined:
                if bool(e) != undefined: bad = 'accepted, though it is undefined for every x' if undefined else 'rejected (error %s)' % ', '.join(map(str, e))
                continue
            for v in at:
                try: want = f(v)
                except (ZeroDivisionError, ValueError): continue
                if want is None or k in INT and size(want) and INT[size(want)] > INT[k] or isinstance(want, int) and not LO <= want <= HI: continue
                have = T.value(xt, v)
                if have != want: bad = 'for x = %s compiled to an expression with the value %s, not %s' % (v if not isinstance(v, frozenset) else sorted(v), have, want); break
        ctx.check(bad is None, 'operator with a constant', inst, w, '%s is %s' % (inst, bad), sample=inst)
    for k, n in INT.items():
        x = T.x(k); at = sorted({s * v + d for v in (0, 1, 2, 5, 8, 100, 2 ** (n - 1), 2 ** (n - 2)) for s in (1, -1) for d in (-1, 0, 1)}); at = [v for v in at if -2 ** (n - 1) <= v < 2 ** (n - 1)]
        for c in [v for v in VALS if -2 ** 33 < v < 2 ** 33] + [4, 16, 1024, 2 ** 62, HI, LO]:
            for o in list(ARI) + list(REL):
                f = FUN[o]
                tree('x %s %d (%s)' % (o, c, k), '%s %s %s' % (x, o, T.i(c)), at, lambda v: f(v, c)); tree('%d %s x (%s)' % (c, o, k), '%s %s %s' % (T.i(c), o, x), at, lambda v: f(c, v))
            if abs(c) < 63: tree('ASH(x, %d) (%s)' % (c, k), 'ASH(%s, %s)' % (x, T.i(c)), at, lambda v: v << c if c >= 0 else v >> -c)
            tree('x IN, %d (%s)' % (c, k), '%s + %s - %s' % (x, T.i(c), T.i(c)), at, lambda v: v if -2 ** 31 < v + c < 2 ** 31 else None)
            tree('nested %d (%s)' % (c, k), '(%s * %s) * %s' % (x, T.i(c), T.i(2)), at, lambda v: v * c * 2 if abs(v * c) < 2 ** (n - 2) else None)
    for c in (0, 1):
        x = T.x('BOOL')
        for o in ('&', 'OR', '=', '#'): tree('x %s %s' % (o, bool(c)), '%s %s %s' % (x, o, T.k('BOOL', c)), (0, 1), lambda v: FUN[o](v, c)); tree('%s %s x' % (bool(c), o), '%s %s %s' % (T.k('BOOL', c), o, x), (0, 1), lambda v: FUN[o](c, v))
    for k, x in (('SET32', T.x('SET32')), ('SET64', T.x('SET64'))):
        at = [z for z in SETS if k == 'SET64' or all(y < 32 for y in z)]
        for c in at:
            for o in ('+', '-', '*', '/', '=', '#'):
                tree('x %s %s (%s)' % (o, sorted(c), k), '%s %s %s' % (x, o, T.k(k, c)), at, lambda v: FUN[o](v, c)); tree('%s %s x (%s)' % (sorted(c), o, k), '%s %s %s' % (T.k(k, c), o, x), at, lambda v: FUN[o](c, v))
        for i in (0, 1, 31): tree('%d IN x (%s)' % (i, k), '%s IN %s' % (T.i(i), x), at, lambda v: int(i in v))
    for k in ('REAL', 'LREAL'):
        x = T.x(k)
        for c in (0.0, 1.0, 2.0, -0.5):
            for o in ('+', '-', '*', '/', '<', '=', '>='): tree('x %s %r (%s)' % (o, c, k), '%s %s %s' % (x, o, T.k(k, c)), (0.0, 1.5, -2.25), lambda v: FUN[o](v, c)); tree('%r %s x (%s)' % (c, o, k), '%s %s %s' % (T.k(k, c), o, x), (0.5, 1.5, -2.25), lambda v: FUN[o](c, v))
        for c in (0, 1, 2, 4, -8):
            for o in ('+', '-', '*', '/', '<', '=', '>='): tree('x %s %d (%s)' % (o, c, k), '%s %s %s' % (x, o, T.i(c)), (0.0, 1.5, -2.25), lambda v: FUN[o](v, c)); tree('%d %s x (%s)' % (c, o, k), '%s %s %s' % (T.i(c), o, x), (0.5, 1.5, -2.25), lambda v: FUN[o](c, v))
SECTIONS = (integers, functions, sets, limits, simplified)
FLOORS = {'integer +': 800, 'integer -': 800, 'integer *': 800, 'integer DIV': 800, 'integer MOD': 800, 'integer relation': 5000, 'integer /': 200, 'ASH': 1000, '-': 50, 'ABS': 50, 'ODD': 50, 'CHR': 300, 'SHORT': 50, 'CAP': 128, 'ORD': 256, 'character relation': 290, 'string relation': 290, 'ENTIER': 20, 'real +': 280, 'real *': 280, 'real /': 280, 'real relation': 1600, 'set +': 144, 'set /': 144, 'set complement': 12, 'IN': 168, 'set element': 22, 'set range': 176, 'MAX': 84, 'MIN': 60, 'SIZE': 36, 'operator with a constant': 5600}
def run(ctx):
    ctx.parallel([lambda c, f=f: f(c) for f in SECTIONS if f is not integers] + [lambda c, i=i: integers(c, i) for i in range(4)])
    for r, n in FLOORS.items(): ctx.floor(r, n)

"""Operators: for every operator, conversion and function of the language, every combination of operand types and every code generation
option, the C text the code generator writes (extracted from OPV/OPC by abstract interpretation of the emitting procedures over a syntax
tree node with opaque operands) is parsed as C and evaluated, with C's types, promotions and conversions, to an operation on the operands;
it has to be the operation the language defines, exact in the range of the result type."""
from oblib.codegen import *
LEVEL = 'other'
OPTS = ((), ('ranchk',), ('ranchk', 'typchk', 'inxchk'))
def run(ctx):
    G = Gen(ctx)
    S = 'OPS.'; n_ = [0]
    where = ctx.where(G.expr)
    def decide(rule, name, build, T, expect, opts=(), kinds=None, resct=None):
        """build(st) -> (node, {hole: type}); expect(holes' terms) -> term or list of accepted terms"""
        st = G.start(opts); n, ch = build(st)
        inst = name + ('/' + '+'.join(opts) if opts and 'real, expression' not in name else '')
        res = G.emit(st, n, -1)
        if not res: raise Broken('%s: the code generator has no path' % inst)
        for toks, t in res:
            H = {}
            try: text = G.text(toks, H); ast = cexpr.expr(text, G.istype)
            except CErr as e:
                ctx.check(False, rule, inst, where, 'writes %s, which is not a C expression: %s' % (' '.join(str(x[1]) for x in toks)[:120], e)); continue
            def se(f, a, t=t):
                for h in holes(a):
                    k = H.get(h)
                    if k and k[0] in ('E', 'D'):
                        c = k[1]
                        f_ = t.facts.get(('s', ('se', c)), TOPF)
                        if f_[0] == frozenset([False]) or t.env.get(('f', ('*', c), G.N['class'])) == C(G.c('Nconst')): continue
                        raise SemErr('%s writes out its operand more than once although it may have side effects' % f)
            names = [h for h in H if H[h][0] in ('E', 'D')]
            for v in variants(ch):
                env = {}
                for h in H:
                    tk = H[h]
                    if tk[0] in ('E', 'D'):
                        if h not in v: raise Broken('%s: operand %s unexpected' % (inst, h))
                        ty, ct = v[h]; kd = {'Int': 'i', 'Set': 's', 'Real': 'r', 'LReal': 'r', 'Char': 'c', 'Bool': 'b'}.get(BASIC[ty][0], 'p') if ty in BASIC else 'p'
                        env[h] = (h, ct, BITS.get(ty, 64), kd)
                    elif tk[0] == 'N': env[h] = (('num', tk[1]), 'i32', 32, 'i')
                    elif h[0] == '@': env[h[1:]] = (h[1:], 'p', 64, 'p')
                try:
                    term, rct, b, kd = Sem(env, BITS.get(T, 64), se=se).ev(ast)
                    ex = expect(*[h for h in v]) if not callable(getattr(expect, 'st', None)) else expect
                    ex = ex if isinstance(ex, list) else [ex]
                    bad = None if term in ex else 'computes %s, not %s' % (sh(term), ' or '.join(sh(x) for x in ex))
                    if bad is None: bad = ctbad(T, rct, v) if resct is None else resct(rct, v)
                except SemErr as e: bad = str(e)
                ctx.check(bad is None, rule, inst, where, 'is written as %s (operands %s): %s' % (text, ', '.join('%s %s as %s' % (h[1:], a, b) for h, (a, b) in v.items()), bad), sample='%s: %s' % (inst, text))
                n_[0] += 1
        if opts == OPTS[1] or rule == 'reinterpretation' and not name.startswith(GRP): return
        for p in PRECS:
            st = G.start(opts); n, ch = build(st)
            for toks, t in G.emit(st, n, p):
                try: bad = G.grouping(toks, 'E', p, ch); tx = G.text(toks)
                except CErr as e: continue
                if bad is None and T in SETS and 5 < cexpr.grouped(tx, G.istype)[0] < cexpr.UNARY: bad = 'a set written as a comparison or sum'
                if bad is None and T in ('PTR', 'PTR2', 'PROC') and cexpr.grouped(tx, G.istype)[0] < cexpr.UNARY: bad = 'a pointer written with an operator'
                ctx.check(bad is None, 'grouping', inst, where, 'is written as %s: %s' % (tx, bad))
    GRP = ('VAL(INT64, Nvar INT32)', 'VAL(INT32, Nvar REAL)', 'VAL(INT64, Ndop PTR)', 'VAL(PTR, Ncall INT64)', 'VAL(INT64, Nindex INT64)', 'VAL(INT64, Nderef ARR)')
    def both(rule, name, build, T, expect, **kw):
        for o in OPTS: decide(rule, name, build, T, expect, opts=o, **kw)
    def leafs(st, *ts, **kw):
        r = []; ch = {}
        for k, ty in zip('LR', ts):
            base = {'REALi': 'REAL', 'LREALi': 'LREAL'}.get(ty, ty)
            x = {}
            if ty.endswith('i') and ty[:-1] in BASIC: x = dict(cls=G.c('Nmop'), subcl=G.op('conv'), obj=NIL)
            r.append(G.leaf(st, k, tstruct(G, st, base), **x)); ch['$' + k] = ty
        return r, ch
    def dop(op, a, b, T, **kw):
        def build(st):
            (l, r), ch = leafs(st, a, b)
            return G.node(st, 'Ndop', op, left=l, right=r, typ=tstruct(G, st, T)), ch
        return build
    def mop(op, a, T, **kw):
        def build(st):
            (l,), ch = leafs(st, a)
            return G.node(st, 'Nmop', op, left=l, typ=tstruct(G, st, T), **kw), ch
        return build
    comm = lambda n: (lambda l, r: (n,) + tuple(sorted((l, r), key=repr)))
    plain = lambda n: (lambda l, r: (n, l, r))
    # ---- arithmetic
    for T in INTS:
        both('arithmetic', T + ' + ' + T, dop(S + 'plus', T, T, T), T, comm('add'))
        both('arithmetic', T + ' - ' + T, dop(S + 'minus', T, T, T), T, plain('sub'))
        both('arithmetic', T + ' * ' + T, dop(S + 'times', T, T, T), T, comm('mul'))
        both('arithmetic', T + ' DIV ' + T, dop(S + 'div', T, T, T), T, plain('div'))
        both('arithmetic', T + ' MOD ' + T, dop(S + 'mod', T, T, T), T, plain('mod'))
        both('arithmetic', '- ' + T, mop(S + 'minus', T, T), T, lambda l: ('neg', l))
        both('function', 'ABS(%s)' % T, mop('abs', T, T), T, lambda l: ('abs', l))
        both('function', 'ODD(%s)' % T, mop('odd', T, 'BOOL'), 'BOOL', lambda l: ('odd', l))
    for T in REALS:
        for a, b in ((T, T), (T + 'i', T), (T, T + 'i')):
            both('arithmetic', a + ' + ' + b, dop(S + 'plus', a, b, T), T, comm('add'))
            both('arithmetic', a + ' - ' + b, dop(S + 'minus', a, b, T), T, plain('sub'))
            both('arithmetic', a + ' * ' + b, dop(S + 'times', a, b, T), T, comm('mul'))
        for a, b in ((T, T), (T + 'i', T), (T, T + 'i'), (T + 'i', T + 'i')):
            both('arithmetic', a + ' / ' + b, dop(S + 'slash', a, b, T), T, plain('rdiv'))
        both('arithmetic', '- ' + T, mop(S + 'minus', T, T), T, lambda l: ('neg', l))
        both('function', 'ABS(%s)' % T, mop('abs', T, T), T, lambda l: ('abs', l))
    # ---- sets
    for T in SETS:
        both('sets', T + ' + ' + T, dop(S + 'plus', T, T, T), T, comm('union'))
        both('sets', T + ' - ' + T, dop(S + 'minus', T, T, T), T, plain('diff'))
        both('sets', T + ' * ' + T, dop(S + 'times', T, T, T), T, comm('inter'))
        both('sets', T + ' / ' + T, dop(S + 'slash', T, T, T), T, comm('symdiff'))
        both('sets', '- ' + T, mop(S + 'minus', T, T), T, lambda l: ('compl', l))
        for I in INTS:
            both('sets', '%s IN %s' % (I, T), dop(S + 'in', I, T, 'BOOL'), 'BOOL', lambda l, r, n=BITS[T]: ('in', l, r, n))
            both('sets', '{%s} : %s' % (I, T), mop('conv', I, T), T, lambda l, n=BITS[T]: ('setof', l, n))
            def upto(st, I=I, T=T):
                (l, r), ch = leafs(st, I, I)
                return G.node(st, 'Nupto', None, left=l, right=r, typ=tstruct(G, st, T)), ch
            both('sets', '{%s..%s} : %s' % (I, I, T), upto, T, lambda l, r, n=BITS[T]: ('setrng', l, r, n))
    both('sets', 'SET32 as SET64', mop('conv', 'SET32', 'SET64'), 'SET64', lambda l: l)
    # ---- booleans and relations
    both('boolean', '~ BOOL', mop(S + 'not', 'BOOL', 'BOOL'), 'BOOL', lambda l: ('not', l))
    both('boolean', 'BOOL & BOOL', dop(S + 'and', 'BOOL', 'BOOL', 'BOOL'), 'BOOL', plain('and'))
    both('boolean', 'BOOL OR BOOL', dop(S + 'or', 'BOOL', 'BOOL', 'BOOL'), 'BOOL', plain('or'))
    for op, n in (('eql', 'eq'), ('neq', 'ne'), ('lss', 'lt'), ('leq', 'le'), ('gtr', 'gt'), ('geq', 'ge')):
        def ex(l, r, n=n):
            if n in ('eq', 'ne'): return (n,) + tuple(sorted((l, r), key=repr))
            return ('lt', r, l) if n == 'gt' else ('le', r, l) if n == 'ge' else (n, l, r)
        for T in INTS + REALS + ('CHAR',) + (SETS + ('BOOL', 'BYTE', 'PTR', 'PROC') if n in ('eq', 'ne') else ()):
            for a, b in ((T, T),) + (((T + 'i', T), (T, T + 'i')) if T in REALS else (('PTR', 'PTR2'), ('PTR', 'NIL'), ('NIL', 'PTR')) if T == 'PTR' else (('PROC', 'NIL'),) if T == 'PROC' else ()):
                both('relation', '%s %s %s' % (a, op, b), dop(S + op, a, b, 'BOOL'), 'BOOL', ex)
        for a in ('STRING', 'CHARS', 'OPENCHARS'):
            for b in ('STRING', 'CHARS', 'OPENCHARS'):
                both('relation', '%s %s %s' % (a, op, b), dop(S + op, a, b, 'BOOL'), 'BOOL', lambda l, r, n=n: ('str' + n, l, r))
    # ---- shifts
    def shift(op, a, b, const=None):
        def build(st):
            l = G.leaf(st, 'L', tstruct(G, st, a))
            if const is None: r = G.leaf(st, 'R', tstruct(G, st, b))
            else:
                iv = ('s', 'count'); r = G.const_(st, 'R', tstruct(G, st, b), iv)
                st.facts[iv] = (None, frozenset(), 0, 63) if const == '+' else (None, frozenset(), -63, -1)
            return G.node(st, 'Ndop', op, left=l, right=r, typ=tstruct(G, st, a)), {'$L': a, '$R': b}
        return build
    NEG = ('num', ('t', 'neg', (('s', 'count'),)))
    def shex(op, n=None):
        t = () if n is None else (n,)
        return (lambda l, r: (op + 'l', l, r) + t), (lambda l, r: [(op + 'r', l, ('num', x)) + t for x in (('t', '-', (('s', 'count'),)), ('t', '-', (C(0), ('s', 'count'))), ('t', 'neg', (('s', 'count'),)), ('t', '*', (C(-1), ('s', 'count'))), ('t', '*', (('s', 'count'), C(-1))))]), (lambda l, r: (op, l, r) + t)
    for T in INTS:
        p, m, g = shex('ash')
        both('shift', 'ASH(%s, c >= 0)' % T, shift('ash', T, 'INT8', '+'), T, p)
        both('shift', 'ASH(%s, c < 0)' % T, shift('ash', T, 'INT8', '-'), T, m)
        for I in INTS: both('shift', 'ASH(%s, %s)' % (T, I), shift('ash', T, I), T, g)
        both('shift', '%s MOD 2^k' % T, shift('msk', T, T, '-'), T, lambda l, r: ('msk', l, r))
        both('shift', 'BIT(%s)' % T, dop('bit', 'INT64', T, 'BOOL'), 'BOOL', plain('bit'))
    for T in INTS + SETS + ('CHAR', 'BYTE'):
        for f in ('lsh', 'rot'):
            p, m, g = shex(f, BASIC[T][1] * 8)
            both('shift', '%s(%s, c >= 0)' % (f, T), shift(f, T, 'INT8', '+'), T, p)
            both('shift', '%s(%s, c < 0)' % (f, T), shift(f, T, 'INT8', '-'), T, m)
            for I in INTS: both('shift', '%s(%s, %s)' % (f, T, I), shift(f, T, I), T, g)
    # ---- functions, conversions
    both('function', 'CAP(CHAR)', mop('cap', 'CHAR', 'CHAR'), 'CHAR', lambda l: ('cap', l))
    def convex(f, T, opts):
        rk = 'ranchk' in opts
        def e(l):
            src = ('entier', l) if f in REALS and T not in REALS else l
            if T == 'CHAR': return ('chk', 0, 256, src) if rk else [('trunc', 8, src), ('unsigned', 8, src)]
            if T in INTS and BITS[T] < (64 if f in REALS else BITS[f]):
                h = 1 << (BITS[T] - 1)
                return ('chk', -h, h, src) if rk else ('trunc', BITS[T], src)
            if T == 'REAL' and f == 'LREAL': return ('round', 32, src)
            return src
        return e
    for o in OPTS:
        for f in INTS + ('CHAR',) + REALS:
            for T in (INTS if f != 'CHAR' else INTS[1:]) + (('CHAR',) if f not in ('CHAR',) else ()) + (REALS if f != 'CHAR' else ()):
                if f == T: continue
                decide('conversion', '%s to %s' % (f, T), mop('conv', f, T), T, convex(f, T, o), opts=o, resct=(lambda ct, v: None) if f in INTS and T in REALS else None)
    for a in ('INT64', 'ARR', 'REC', 'OPEN'):
        def adr(st, a=a):
            l = G.leaf(st, 'L', tstruct(G, st, a), cls=G.c('Nvar'))
            return G.node(st, 'Nmop', 'adr', left=l, typ=tstruct(G, st, 'INT64')), {'$L': a}
        both('function', 'ADR(%s variable)' % a, adr, 'INT64', lambda l, a=a: l if a in ('ARR', 'OPEN') else ('addr', l))
    ADDRK = ('INT64', 'PTR', 'PROC', 'SET64')
    for cl in ('Nvar', 'Nfield', 'Nindex', 'Nvarpar', 'Ndop', 'Ncall'):
        for a in INTS + SETS + ('PTR', 'PROC', 'CHAR', 'BOOL') + REALS:
            for T in INTS + SETS + ('PTR', 'PROC', 'CHAR') + REALS:
                if a == T or a == 'BOOL' and T in REALS: continue
                sa, sT = size(a), size(T); lv = cl in ('Nvar', 'Nfield', 'Nindex', 'Nvarpar')
                if not lv and sa != sT and (a in REALS or T in REALS): continue
                if lv and sT > sa: continue                            # reads beyond the operand: the program's business
                def val(st, a=a, T=T, cl=cl):
                    l = G.leaf(st, 'L', tstruct(G, st, a), cls=G.c(cl))
                    return G.node(st, 'Nmop', 'val', left=l, typ=tstruct(G, st, T)), {'$L': a}
                CN = BASIC[T][2] if T in BASIC else {'PTR': 'TyPTR', 'PROC': 'TyPROC'}[T]
                def ex(l, a=a, T=T, CN=CN, sa=sa, sT=sT):
                    r = [('reint', CN, l)]
                    if a not in REALS and T not in REALS:
                        b = 64 if T in ('PTR', 'PROC') else BITS[T]
                        r += [l, ('trunc', sT * 8, l), ('unsigned', sT * 8, l), ('tcast', CN, l)]
                    return r
                rx = not lv and (a in REALS) != (T in REALS)            # one known finding: reinterpretation of a value that is not a variable
                both('reinterpretation', 'VAL(real, expression)' if rx else 'VAL(%s, %s %s)' % (T, cl, a), val, T, ex, resct=lambda ct, v: None)
    for a in ('ARR', 'REC'):
        for cl in ('Nvar', 'Nvarpar', 'Nfield', 'Nindex', 'Nderef'):
            for T in INTS + SETS + ('PTR', 'CHAR') + REALS:
                def val(st, a=a, T=T, cl=cl):
                    l = G.leaf(st, 'L', tstruct(G, st, a), cls=G.c(cl))
                    return G.node(st, 'Nmop', 'val', left=l, typ=tstruct(G, st, T)), {'$L': a}
                both('reinterpretation', 'VAL(%s, %s %s)' % (T, cl, a), val, T, lambda l, T=T: ('reint', BASIC[T][2] if T in BASIC else 'TyPTR', l), resct=lambda ct, v: None)
    # ---- side effects
    P = ctx.proc('OPV.SideEffects')
    for cl in ('Nvar', 'Nvarpar', 'Nfield', 'Nderef', 'Nindex', 'Nguard', 'Nconst', 'Nupto', 'Nmop', 'Ndop', 'Ncall'):
        for two in (False, True):
            st = G.start(); (l, r), ch = leafs(st, 'INT32', 'INT32')
            n = G.node(st, cl, None, left=l, right=r if two else NIL, typ=tstruct(G, st, 'INT32'))
            E = G.engine(); o = E.run(P, st, {'n': n}); ok = True; c_ = 0
            for v, t in o['r']:
                a = t.facts.get(('s', ('se', l)), TOPF)[0]; b = t.facts.get(('s', ('se', r)), TOPF)[0] if two else frozenset([False])
                for va in a if a is not None else (True, False):
                    for vb in b if b is not None else (True, False):
                        t2 = t.copy(); t2.facts[('s', ('se', l))] = (frozenset([va]), frozenset(), -INF, INF); t2.facts[('s', ('se', r))] = (frozenset([vb]), frozenset(), -INF, INF)
                        got = E.decide(t2, v) if not isc(v) else bool(v[1]); c_ += 1
                        if got is not True and (cl == 'Ncall' or va or vb): ok = False
            ctx.check(ok and c_ > 0, 'side effects', '%s/%d' % (cl, 1 + two), ctx.where(P), 'SideEffects does not report a call in a node of class %s' % cl, sample='%s: reported exactly when the node or an operand is a call' % cl)
    constants(ctx, G, where)
    ctx.extra['templates'] = n_[0]
    for r, k in (('arithmetic', 400), ('sets', 150), ('relation', 600), ('shift', 600), ('conversion', 180), ('reinterpretation', 300), ('constant', 150), ('side effects', 20)): ctx.floor(r, k)
def size(T): return BASIC[T][1] if T in BASIC else 8
def holes(a):
    if isinstance(a, tuple):
        if a[:1] == ('id',): return {a[1]}
        return set().union(*[holes(x) for x in a]) if a else set()
    return set()
def sh(t):
    if isinstance(t, tuple) and t and isinstance(t[0], str): return '%s(%s)' % (t[0], ', '.join(sh(x) for x in t[1:]))
    return str(t).lstrip('$')
def variants(ch):
    l = [{}]
    for h, ty in ch.items():
        if ty.endswith('i') and ty[:-1] in BASIC: vs = [(ty[:-1], c) for c in ('i32', 'i64')]
        else: vs = [(ty, c) for c in VAR.get(ty, ('p',))]
        l = [dict(d, **{h: v}) for d in l for v in vs]
    return l
def ctbad(T, ct, v):
    if T in INTS + ('CHAR',): ct = promote(ct)
    if T in INTS: return None if ct[0] == 'i' and bits(ct) >= min(32, BITS[T]) and bits(ct) >= BITS[T] else 'the result has the C type %s, too narrow for %s' % (ct, T)
    if T in SETS: return None if ct == 'u%d' % BITS[T] or T == 'SET64' and ct == 'i64' else 'the set has the C type %s' % ct
    if T == 'CHAR': return None if ct in ('u8', 'i32') else 'the character has the C type %s' % ct
    if T == 'LREAL': return None if ct == 'f64' else 'the result has the C type %s' % ct
    if T == 'REAL': return None if ct[0] == 'f' else 'the result has the C type %s' % ct
    return None
def tstruct(G, st, T):
    if T in BASIC: return G.typ(st, T)
    if T in G.types: return G.types[T]
    c = lambda n: C(G.c(n))
    if T in ('PTR', 'PTR2'):
        b = G.ptyp(st, 'Ty%sD' % T, form=c('Comp'), comp=c('Record'), extlev=C(3)); r = G.ptyp(st, 'Ty' + T, form=c('Pointer'), comp=c('Basic'), size=C(8), BaseTyp=b)
    elif T == 'PROC': r = G.ptyp(st, 'TyPROC', form=c('ProcTyp'), comp=c('Basic'), size=C(8))
    elif T == 'CHARS': r = G.ptyp(st, 'TyCHARS', form=c('Comp'), comp=c('Array'), BaseTyp=G.typ(st, 'CHAR'), n=C(20), size=C(20))
    elif T == 'OPENCHARS': r = G.ptyp(st, 'TyOPENCHARS', form=c('Comp'), comp=c('DynArr'), BaseTyp=G.typ(st, 'CHAR'), n=C(0))
    elif T == 'ARR': r = G.ptyp(st, 'TyARR', form=c('Comp'), comp=c('Array'), BaseTyp=G.typ(st, 'INT32'), n=C(10), size=C(40))
    elif T == 'OPEN': r = G.ptyp(st, 'TyOPEN', form=c('Comp'), comp=c('DynArr'), BaseTyp=G.typ(st, 'INT32'), n=C(0))
    elif T == 'REC': r = G.ptyp(st, 'TyREC', form=c('Comp'), comp=c('Record'))
    else: raise Broken('type ' + T)
    G.types[T] = r
    return r

def chrval(a):
    if a[0] == 'num': return int(a[1].rstrip('uUlL'), 0)
    if a[0] == 'chr':
        b = a[1][1:-1]
        if len(b) == 1: return ord(b)
        if len(b) == 2 and b[0] == '\\' and b[1] in '\\\'"?': return ord(b[1])
    return None
def strvals(text):
    """character codes of a C string literal (trigraphs excluded by the ? escape)"""
    if len(text) < 2 or text[0] != '"' or text[-1] != '"': return None
    b = text[1:-1]; r = []; i = 0
    while i < len(b):
        if b[i] == '"': return None
        if b[i] == '\\':
            if i + 1 >= len(b): return None
            if b[i + 1] in '01234567':
                j = i + 1
                while j < len(b) and j < i + 4 and b[j] in '01234567': j += 1
                r.append(int(b[i + 1:j], 8)); i = j; continue
            if b[i + 1] in '\\\'"?': r.append(ord(b[i + 1])); i += 2; continue
            return None
        r.append(ord(b[i])); i += 1
    return r
def cint(a):
    """(value, written in 64 bits) of a decimal constant expression"""
    if a[0] == 'num':
        v = int(a[1].rstrip('L')); w = a[1].endswith('LL')
        if not w and v > 2 ** 31 - 1: raise SemErr('too big for int')
        return v, w
    if a[0] == 'un' and a[1] == '-': v, w = cint(a[2]); return -v, w
    if a[0] == 'bin' and a[1] in '+-': (v, w), (x, y) = cint(a[2]), cint(a[3]); return (v + x if a[1] == '+' else v - x), w or y
    raise SemErr('not a constant')
def constants(ctx, G, where):
    for T in INTS + REALS + SETS + ('CHAR', 'BOOL'):
        for p in PRECS:
            st = G.start(); k = G.rec(st, 'K', G.K, intval=('s', 'iv') if T != 'CHAR' else C(39), realval=('s', 'rv'), setval=C(frozenset([0, 5])))
            for toks, t in G.emit(st, G.node(st, 'Nconst', None, typ=tstruct(G, st, T), conval=k), p, peel=70):
                bad = G.grouping(toks, 'E', p); ctx.check(bad is None, 'grouping', 'constant ' + T, where, 'is written as %s: %s' % (G.text(toks), bad))
    W = ctx.proc('OPC.Constant'); ww = ctx.where(W)
    def emit(T, **kv):
        st = G.start(); k = G.rec(st, 'K', G.K, **kv)
        n = G.node(st, 'Nconst', None, typ=tstruct(G, st, T), conval=k)
        return G.emit(st, n, -1, peel=70, unroll=70) if 'setval' in kv else G.emit(st, n, -1)
    # the primitives: two hexadecimal digits, decimal integers that keep their value and get the type LL beyond 32 bits
    def prim(name, v):
        P = ctx.proc('OPM.' + name); E = G.engine(peel=30); H0 = E.handlers.pop('OPM.' + name)
        if name == 'WriteInt':                             # the recursive call writes another value: by induction
            def rec(E, n, a, st): st = st.copy(); x = a[0][1]; st.cl += (('T', '%d%s' % (x, '' if abs(x) < 2 ** 31 else 'LL')),); return [(NIL, st)] if x != v else []
            E.handlers['OPM.WriteInt'] = rec
        E.policy = lambda o: 'inline' if o.mod == 'OPM' else 'opaque'
        st = G.start(); o = E.run(P, st, {'i': C(v)})
        return P, [merge(t.cl) for t in o['n'] + [t for _, t in o['r']]]
    for v in range(256):
        P, r = prim('WriteHex', v)
        ctx.check(bool(r) and all(x == (('T', '%02x' % v),) for x in r), 'constant', 'hex %02x' % v, ctx.where(P), 'byte %d of a set is written as %s' % (v, r), sample='%02x' % v)
    B = [0, 1, 9, 10, 11, 99, 100, 101, 12345, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 10 ** 18, 10 ** 18 + 1, 2 ** 63 - 1, 2 ** 15, 2 ** 15 - 1, 1234567890123456789]
    for v in B + [-x for x in B[1:]] + [-2 ** 63]:
        P, r = prim('WriteInt', v); ok = bool(r)
        for x in r:
            a = None
            try: a = cexpr.expr(G.text(x), G.istype); val, wide = cint(a); ok = ok and val == v and (wide or -2 ** 31 <= v < 2 ** 31)
            except (CErr, SemErr): ok = False
        ctx.check(ok, 'constant', 'integer %d' % v, ctx.where(P), 'the integer %d is written as %s' % (v, r), sample='%d: %s' % (v, r))
    # characters: every value of the byte, as the constant and as a case label
    cs = ctx.proc('OPC.Case')
    for v in range(256):
        for toks, t in emit('CHAR', intval=C(v)):
            a = chrval(G.parse(toks)) if all(x[0] == 'T' for x in toks) else None
            ctx.check(a == v, 'constant', 'CHAR %02XX' % v, ww, 'character %02XX is written as %s' % (v, G.text(toks)), sample='%02XX: %s' % (v, G.text(toks)))
        st = G.start(); r, E = G.run(cs, st, {'caseVal': C(v), 'form': C(G.c('Char'))})
        for toks, t in r:
            s_ = G.text(toks); a = None
            try:
                b = cexpr.stmts(s_, G.istype)[1]
                if len(b) == 1 and b[0][0] == 'case': a = chrval(b[0][1])
            except CErr: pass
            ctx.check(a == v, 'constant', 'label CHAR %02XX' % v, ctx.where(cs), 'case label %02XX is written as %s' % (v, s_))
    st = G.start(); r, E = G.run(cs, st, {'caseVal': ('s', 'cv'), 'form': C(G.c('Int'))})
    for toks, t in r:
        ok = len(toks) == 3 and toks[0] == ('T', 'case ') and toks[1] == ('N', ('s', 'cv')) and toks[2][1].strip() == ':'
        ctx.check(ok, 'constant', 'label INT', ctx.where(cs), 'integer case label is written as %s' % (toks,), sample='case N:')
    # strings: a literal of one and of two characters, every code; the second decides whether an escape absorbs it
    sl = ctx.proc('OPC.StringLiteral')
    def lit(codes):
        st = G.start(); base = ('l', ('x', 'str'))
        r = []
        try:
            res, E = G.run(sl, st, {'s': C(''.join(map(chr, codes)) + '\0'), 'l': C(len(codes))})
        except Exception as e: raise Broken('StringLiteral: %s' % e)
        return [G.text(toks) for toks, t in res]
    for v in range(1, 256):
        for w in (0x37, 0x41):
            for tx in lit((v, w)):
                ctx.check(strvals(tx) == [v, w], 'constant', 'string %02X %02X' % (v, w), ctx.where(sl), 'the string with the codes %02XX %02XX is written as %s' % (v, w, tx), sample='%02X %02X: %s' % (v, w, tx))
    # sets: every single element, with and without the first and last ones
    for T in SETS:
        n = BITS[T]
        for e in [None] + list(range(n)):
            for o in ((), (0,), (n - 1,), (n // 2,)):
                s_ = frozenset(o) | (frozenset() if e is None else frozenset([e]))
                for toks, t in emit(T, setval=C(s_)):
                    tx = G.text(toks)
                    try:
                        a = G.parse(toks); ct = 'i32'
                        if a[0] == 'cast': ct = CT.get(a[1], '?'); a = a[2]
                        v = int(a[1].rstrip('uUlL'), 0) if a[0] == 'num' else None
                    except CErr: v = None
                    ok = v == sum(1 << k for k in s_) and (T == 'SET32' or ct == 'u64')
                    ctx.check(ok, 'constant', '%s %s' % (T, sorted(s_)), ww, 'set constant %s of type %s is written as %s' % (sorted(s_), T, tx), sample='%s: %s' % (sorted(s_), tx))
    for T in INTS + ('BOOL',):
        for toks, t in emit(T, intval=('s', 'iv')):
            ctx.check(toks == (('N', ('s', 'iv')),), 'constant', T, ww, 'integer constant is written as %s' % (toks,), sample='%s: N' % T)
    # reals: every value of a REAL constant is rounded to REAL, a LONGREAL constant keeps its digits
    wr = ctx.proc('OPM.WriteReal'); calls = []
    for T in REALS:
        for toks, t in emit(T, realval=('s', 'rv')):
            ok = len(toks) == 1 and toks[0][0] == 'R' and toks[0][1] == ('s', 'rv') and toks[0][2] == C('f' if T == 'REAL' else '\0') or len(toks) == 1 and toks[0][0] == 'R' and isc(toks[0][2]) and (toks[0][2][1] in ('f', ord('f'))) == (T == 'REAL')
            ctx.check(ok, 'constant', T, ww, 'real constant is written as %s' % (toks,), sample='%s: %s' % (T, toks))
    for T, suf in (('REAL', 'f'), ('LREAL', '\0')):
        E = G.engine()
        for h in ('WriteReal',): E.handlers.pop('OPM.' + h, None)
        E.policy = lambda o: 'inline' if o.mod == 'OPM' else 'opaque'; WL = []
        E.handlers['Texts.WriteLongReal'] = lambda E, n, a, st, WL=WL: WL.append(a[2]) or None
        st = G.start(); o = E.run(wr, st, {'r': ('s', 'rv'), 'suffx': C(suf)})
        for t in o['n'] + [t for v, t in o['r']]:
            tx = merge(t.cl)
            cast = bool(tx) and tx[0][0] == 'T' and tx[0][1].startswith('(%s)' % ('REAL' if T == 'REAL' else 'LONGREAL'))
            num = any(x[0] == 'N' for x in tx)
            if num: ctx.check(cast, 'constant', T + ' integral value', ctx.where(wr), 'an integral %s constant is written without a cast to the type: %s' % (T, tx), sample='%s: %s' % (T, tx))
            else:
                w = WL
                if T == 'LREAL': ctx.check(bool(w) and all(isc(x) and x[1] - 8 >= 17 for x in w), 'constant', 'LREAL digits', ctx.where(wr), 'a LONGREAL constant is written with %s significant digits, 17 are needed to keep its value' % ', '.join(sorted({str(x[1] - 8) if isc(x) else '?' for x in w})), sample='LONGREAL: %s' % (w,))
            if T == 'REAL' and not num: ctx.check(cast, 'constant', 'REAL fraction', ctx.where(wr), 'a REAL constant that is not a whole number is written as a C double, so that r = 0.1 is FALSE after r := 0.1')

"""Calls: source calls are taken through parser, tree construction and code generator; the C call is parsed and its arguments have to be, one
by one, what the C parameters of the callee stand for (the contract that C03 establishes for the body of the callee).  The C parameter lists
themselves - prototypes, procedure types, macros of type-bound procedures - have to be that same list."""
from oblib.comp import *
from props.C03 import var_kinds, comp, dims, S, locs, plen
import itertools
LEVEL = 'other'
def contract(G, st, name, mode, typ):
    """[(role, C type)] of the C parameters of an Oberon parameter"""
    k = comp(G, st, typ); ct = G.ctof(typ, st)
    if k == 'DynArr':
        n, e = dims(G, st, typ); e = G.ctof(e, st)
        if n == 1 and is_byte(G, st, typ): e = ('SYSTEM_BYTE', ())
        return [('to', (e[0], ('*',) + e[1]))] + [(('len', d), ('ADDRESS', ())) for d in range(n)]
    if k == 'Array': e = G.deref(ct); return [('to', (e[0], ('*',) + e[1]))]
    if mode == 'VarPar': return [('to', (ct[0], ('*',) + ct[1]))] + ([('tag', ('ADDRESS', ('*',)))] if k == 'Record' else [])
    return [('value', ct)]
def base(G, st, t): return st.env[('f', ('*', t), G.S['BaseTyp'])]
def form(G, st, t): return st.env[('f', ('*', t), G.S['form'])][1]
def is_byte(G, st, t): return base(G, st, t) == G.types.get('BYTE')
def decay(G, t):
    if G.isarr(t): d = G.deref(t); return (d[0], ('*',) + d[1])
    return t
def params(G, pl):
    """[(name or '', C type)] of a parsed parameter list"""
    r = []
    for b, d, n in pl:
        r.append((n, decay(G, G.ctype(b, d))))
    if len(r) == 1 and r[0][1] == ('void', ()): return []
    return r
def plist(G, text, what):
    """parameter list written as (...)"""
    f = cexpr.stmts('extern void Q_ %s;' % text, G.istype)[1]
    if len(f) != 1: raise CErr('parameter list expected: %s' % text)
    x = f[0]
    if x[0] != 'decl': raise CErr('declaration expected')
    (n, d, i), = x[3]
    if d[0][0] != '()': raise CErr('parameter list expected: %s' % text)
    return params(G, d[0][1])
def same_list(G, have, want):
    if len(have) != len(want): return 'has %d C parameters, not %d' % (len(have), len(want))
    for i, ((n, h), (role, w)) in enumerate(zip(have, want)):
        if not G.same(h, w): return 'its C parameter %d is %s, not %s' % (i + 1, G.ctshow(h), G.ctshow(w))
    return None
def formal(G, st, name, mode, typ, link=NIL, lev=1):
    o = G.rec(st, 'F:' + name, G.O, name=C(name), mode=C(G.c(mode)), typ=typ, mnolev=C(lev), leaf=C(True), vis=C(0), adr=C(0), link=link, left=NIL, right=NIL, conval=NIL, scope=NIL)
    G.vars[o] = name; return o
def proc(G, st, name, pars, mode='LProc', res=None, lev=0):
    """procedure object with parameters [(mode, type)]"""
    link = NIL; fs = []
    for i, (m, t) in reversed(list(enumerate(pars))): link = formal(G, st, '%s_%d' % (name, i), m, t, link); fs.insert(0, link)
    kv = G.rec(st, 'KV_' + name, G.K, setval=C(frozenset()))
    o = G.rec(st, 'P:' + name, G.O, name=C(name), mode=C(G.c(mode)), typ=res or G.types['NOTYP'], mnolev=C(lev), leaf=C(True), vis=C(0), adr=C(0), link=link, left=NIL, right=NIL, scope=NIL, conval=kv, history=C(0))
    G.vars[o] = name; G.idents[name] = o
    return o, fs
# ---------------------------------------------------------------- parameter lists
def kinds(G, st): return [(k[0][:-10], k[1], k[2]) for k in var_kinds(G, st) if k[3]] + [('open ARRAY OF BYTE', 'Var', G.openarr(st, 'TyOB', G.typ(st, 'BYTE'))), ('VAR open ARRAY OF BYTE', 'VarPar', G.openarr(st, 'TyOB', G.typ(st, 'BYTE')))]
def lists(ctx, G):
    A = ctx.proc('OPC.AnsiParamList'); H = ctx.proc('OPC.ProcHeader'); D = ctx.proc('OPC.DeclareObj'); B = ctx.proc('OPC.DeclareBase')
    def start():
        st = G.begin(); G.vars = {}; G.tmps = {}; G.scopes(st); return st
    st = start(); names = [k[0] for k in kinds(G, st)]
    for i, nm in enumerate(names):
        for shape in ('alone', 'first', 'last', 'twice'):
            st = start(); _, mode, typ = kinds(G, st)[i]; other = ('Var', G.typ(st, 'INT16'))
            ps = {'alone': [(mode, typ)], 'first': [(mode, typ), other], 'last': [other, (mode, typ)], 'twice': [(mode, typ), (mode, typ)]}[shape]
            for variant in ('names', 'types', 'header', 'prototype', 'variable'):
                s2 = st.copy(); G.vars = {}
                o, fs = proc(G, s2, 'Q', ps, res=G.typ(s2, 'INT64') if shape == 'first' else None); G.use(s2)
                want = [y for m, t in ps for y in contract(G, s2, '', m, t)]; w = ctx.where(A); bad = None
                try:
                    if variant in ('names', 'types'):
                        r, E = G.run(A, s2, {'obj': fs[0], 'showParamNames': C(variant == 'names')}); G.single(r, 'AnsiParamList')
                        have = plist(G, G.text(r[0][0]), nm); c = G.text(r[0][0])
                    elif variant in ('header', 'prototype'):
                        w = ctx.where(H)
                        r, E = G.run(H, s2, {'proc': o, 'define': C(variant == 'header')}); G.single(r, 'ProcHeader'); c = G.text(r[0][0])
                        f = cexpr.stmts(c + ('{}' if variant == 'header' else ''), G.istype)[1]
                        if len(f) != 1: raise CErr('declaration expected: %s' % c)
                        x = f[0]
                        if x[0] == 'func': b, n, d = x[2], x[3], x[4]
                        else: b, ((n, d, init),) = x[2], x[3]
                        if n != 'Q_': raise SemErr('declares %s' % n)
                        rt = G.ctype(b, d[1:])
                        if rt != (('INT64' if shape == 'first' else 'void'), ()): raise SemErr('returns %s' % G.ctshow(rt))
                        have = params(G, d[0][1])
                    else:
                        pt = G.ptyp(s2, 'TyPV', named=False, form=C(G.m('ProcTyp')), comp=C(G.m('Basic')), size=C(8), BaseTyp=G.typ(s2, 'INT64') if shape == 'first' else G.types['NOTYP'], link=fs[0])
                        v = G.var(s2, 'v', pt, 'Var'); G.vars[v] = 'v'; w = ctx.where(D)
                        r, E = G.run(B, s2, {'dcl': v}); G.single(r, 'DeclareBase'); b = r[0]
                        t2 = b[1].copy(); t2.cl = (); r, E = G.run(D, t2, {'dcl': v, 'scopeDef': C(False)}); G.single(r, 'DeclareObj')
                        c = G.text(b[0]) + ' ' + G.text(r[0][0])
                        f = cexpr.stmts(c + ';', G.istype)[1]; (n, d, init), = f[0][3]
                        if n != 'v_' or d[0] != '*' or d[1][0] != '()': raise SemErr('is not a pointer to a function')
                        rt = G.ctype(f[0][2], d[2:])
                        if rt != (('INT64' if shape == 'first' else 'void'), ()): raise SemErr('returns %s' % G.ctshow(rt))
                        have = params(G, d[1][1])
                    bad = same_list(G, have, want)
                    if bad is None and variant in ('names', 'header', 'prototype'):
                        ns = [n for n, _ in have]
                        if len(set(ns)) != len(ns) or '' in ns: bad = 'names its C parameters %s' % ', '.join(ns)
                    # the parameters keep their names
                    u = r[0][1]
                    if bad is None and any(E.norm(u, E.load(u, ('f', ('*', f_), G.O['name']))) != C('Q_%d' % j) for j, f_ in enumerate(fs)): bad = 'changes the names of the parameters'
                except (CErr, SemErr) as e: bad = str(e)
                ctx.check(bad is None, 'parameter list', '%s, %s/%s' % (nm, shape, variant), w, 'the parameter list (%s) of a procedure with a %s parameter %s' % (variant, nm, bad), sample='%s: %s' % (nm, c if bad is None else ''))
# ---------------------------------------------------------------- type-bound procedures
def macros(ctx, G):
    """#define __T_m(receiver, parameters) __SEND(tag, number, type, arguments)"""
    M = ctx.proc('OPC.DefineTProcMacros'); w = ctx.where(M)
    st = start(G); names = [k[0] for k in kinds(G, st)]
    for rk in ('pointer', 'record'):
        for i, nm in enumerate([None] + names):
            for rest in ([], ['INT16'], ['REAL']) if nm else ([],):
                for res in (None, 'INT64'):
                    st = start(G); G.vars = {}; ks = kinds(G, st)
                    R = G.types['TyR']; ps = ([ks[i - 1][1:]] if nm else []) + [('Var', G.typ(st, t)) for t in rest]
                    ps = [('Var', G.types['TyPTR']) if rk == 'pointer' else ('VarPar', R)] + ps
                    o, fs = proc(G, st, 'm', ps, mode='TProc', res=G.typ(st, res) if res else None)
                    G.setf(st, o, G.O, 'adr', C(3 * 0x10000 + 7)); G.setf(st, o, G.O, 'vis', C(1)); G.setf(st, R, G.S, 'n', C(4)); G.flds[(R, 'm')] = o; G.use(st)
                    inst = '%s receiver, %s' % (rk, ', '.join(([nm] if nm else []) + rest)); text = ''
                    try:
                        r, E = G.run(M, st, {'obj': o, 'empty': C(True)}); G.single(r, 'DefineTProcMacros'); text = ' '.join(G.text(r[0][0]).split())
                        bad = macro(G, st, text, ps, rk, res, 3)
                    except (CErr, SemErr) as e: bad = str(e)
                    ctx.check(bad is None, 'method macro', inst + (' : ' + res if res else ''), w, 'the macro of a type-bound procedure (%s) is written as %s: %s' % (inst, text, bad), sample=text)
def macro(G, st, text, ps, rk, res, num):
    m = re.match(r'#\s*define __m_\(([^()]*)\)\s*(.*)$', text)
    if not m: return 'no macro __m'
    fm = [x.strip() for x in m.group(1).split(',')]
    want = [y for mo, t in ps for y in contract(G, st, '', mo, t)]
    if len(fm) != len(want): return 'it has %d parameters, the C procedure has %d' % (len(fm), len(want))
    if len(set(fm)) != len(fm): return 'two of its parameters have the same name'
    b = m.group(2)
    k = re.match(r'__SEND\((.*)\)$', b)
    if not k: return 'it does not use __SEND'
    a = split_args(k.group(1))
    if len(a) != 4: return '__SEND with %d arguments' % len(a)
    tag = cexpr.expr(a[0], G.istype)
    if strip(tag) != (('call', ('id', '__TYPEOF'), (('id', fm[0]),)) if rk == 'pointer' else ('id', fm[1])): return 'it takes the type tag %s' % a[0]
    if int(a[1]) != num: return 'it selects procedure %s, not %d' % (a[1], num)
    t = re.match(r'(\w+)\s*\(\s*\*\s*\)\s*(\(.*\))$', a[2])
    if not t: return 'it calls through the type %s' % a[2]
    if t.group(1) != (res or 'void'): return 'the procedure called returns %s' % t.group(1)
    bad = same_list(G, plist(G, t.group(2), ''), want)
    if bad: return 'the procedure type it calls through ' + bad
    if not re.match(r'\(.*\)$', a[3]): return 'no argument list'
    av = [x.strip() for x in split_args(a[3][1:-1])]
    if av != fm: return 'its parameters (%s) are passed on as (%s)' % (', '.join(fm), ', '.join(av))
    return None
def split_args(t):
    r = []; d = 0; cur = ''
    for c in t:
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == ',' and d == 0: r.append(cur.strip()); cur = ''
        else: cur += c
    return r + [cur.strip()]
def strip(a):
    if isinstance(a, tuple):
        if a[:1] == ('par',) and len(a) == 2: return strip(a[1])
        return tuple(strip(x) for x in a)
    return a
def start(G, opts=(), level=1):
    st = G.begin(opts, level); G.vars = {}; G.tmps = {}; G.scopes(st); return st

# ---------------------------------------------------------------- calls
BK = {'b': 'BOOL', 'c': 'CHAR', 'i8': 'INT8', 'i16': 'INT16', 'i32': 'INT32', 'i64': 'INT64', 'r': 'REAL', 'lr': 'LREAL', 's32': 'SET32', 's64': 'SET64', 'by': 'BYTE'}
INTS = {'INT8': 1, 'INT16': 2, 'INT32': 4, 'INT64': 8}
class World:
    """variables x (local), vx (VAR parameter), wx (value parameter; open arrays) and opaque operands $x of all types; formal types"""
    def __init__(s, G, level=1, own=True, opts=(), names=None):
        s.G = G; st = s.st = G.begin(opts, level); G.vars = {}; G.tmps = {}; s.pr = G.scopes(st); G.predeclare(st); T = lambda k: G.typ(st, k); s.T = T
        G.idents['x1'] = None
        s.level, s.own = level, own; s.lev = level if own else level - 1
        s.sc = G.rec(st, 'scopeQ', G.O, name=C('Z'), leaf=C(False))
        s.env = {} if own else {'Z_s': ('rv', ('to', ('scope', 'Z')), ('struct Z', ('*',)))}; s.fields = {}; s.names = names; s.tys = {}
        R = G.record(st, 'R', extlev=C(0)); R1 = G.record(st, 'R1', base=R, extlev=C(1)); R2 = G.record(st, 'R2', base=R1, extlev=C(2)); AR_ = G.record(st, 'ARec', named=False)
        for x, z in ((R, 8), (R1, 16), (R2, 24), (AR_, 8)): G.setf(st, x, G.S, 'size', C(z))
        P = G.pointer(st, 'PR', R); P1 = G.pointer(st, 'PR1', R1); P2 = G.pointer(st, 'PR2', R2)
        def arr(k, e, n, size, named=True): v = G.array(st, k, e, n, named); G.setf(st, v, G.S, 'size', C(size)); return v
        oa = lambda k, e: G.openarr(st, k, e)
        for n, k in BK.items(): s.tys[n] = T(k)
        row = arr('ROW', T('INT16'), 4, 8); s10 = arr('S10', T('CHAR'), 10, 10)
        pt = G.proct(st); G.setf(st, pt, G.S, 'BaseTyp', G.types['NOTYP'])
        s.tys.update(rec=R, rec1=R1, rec2=R2, p=P, p1=P1, p2=P2, pt=pt, s=s10, t=arr('S20', T('CHAR'), 20, 20), a=arr('AI', T('INT32'), 10, 40), aa=arr('AA', row, 7, 56), row=row,
                     ar=arr('AR', R, 3, 24), ap=arr('AP', P, 5, 40), ab=arr('AB', T('BYTE'), 12, 12), an=arr('AN', T('INT64'), 6, 48, False), arow=arr('ASR', s10, 4, 40), alr=arr('AL', T('LREAL'), 6, 48))
        pf = {T('INT8'): 1, T('INT16'): 2, T('INT32'): 4, T('INT64'): 8, T('CHAR'): 1, T('BYTE'): 1, T('LREAL'): 8}
        s.opn = dict(oi=oa('O_I', T('INT32')), oc=oa('O_C', T('CHAR')), ob=oa('O_B', T('BYTE')), ob2=oa('O_B2', oa('O_B2b', T('BYTE'))), o2=oa('O_2', oa('O_2b', T('INT32'))), o3=oa('O_3', oa('O_3b', oa('O_3c', T('INT16')))), oo=oa('O_O', row), orec=oa('O_R', R), orec1=oa('O_R1', R1), op=oa('O_P', P), oal=oa('O_L', T('LREAL')), oc2=oa('O_C2', oa('O_C2b', T('CHAR'))), osr=oa('O_SR', s10), oi64=oa('O_I64', T('INT64')))
        s.tys.update(s.opn)
        for n in s.opn: s.tys['q' + n] = G.pointer(st, 'P_' + n, s.opn[n])
        s.tys.update(qa=G.pointer(st, 'P_a', s.tys['a']), qs=G.pointer(st, 'P_s', s10), qr1=P1)
        s.tys['pp'] = G.rec(st, 'T_SYSPTR', G.S, form=C(G.m('Pointer')), comp=C(G.m('Basic')), size=C(8), BaseTyp=G.types['NOTYP'], strobj=G.rec(st, 'o_SYSPTR', G.O, name=C('SYSTEM_PTR'), typ=NIL, mnolev=C(0), linkadr=G.pre, vis=C(1), mode=C(G.c('Typ'))), mno=C(0))
        G.glob(st, 'OPT.sysptrtyp', s.tys['pp']); G.types['SYSPTR'] = s.tys['pp']; G.tn['SYSTEM_PTR'] = ('pointer', G.types['NOTYP'])
        nil = G.rec(st, 'T_NIL', G.S, form=C(G.m('NilTyp')), comp=C(G.m('Basic')), size=C(8), BaseTyp=G.types['NOTYP'], strobj=NIL); G.glob(st, 'OPT.niltyp', nil)
        for k in ('R', 'R1', 'R2', 'PR', 'PR1', 'PR2', 'S10', 'AI', 'ROW'): G.idents[k] = G.sobj[G.types[k]]
        s.fld = {}
        G.use(st); G.tn['TyQ'] = None
    def want(s, n): return s.names is None or n in s.names
    def declare(s):
        G, st = s.G, s.st
        for n, t in s.tys.items():
            isopen = n in s.opn
            if s.want(n) and not isopen: s.var(n, t, 'Var')
            if s.want('v' + n): s.var('v' + n, t, 'VarPar')
            if s.want('w' + n): s.var('w' + n, t, 'Var', par=True)
            if s.want('$' + n) and not isopen:
                G.opaque_(st, n, t, **({'cls': s.cls} if s.cls else {})); ct = G.ctof(t, st); s.env['$' + n] = ('lv', S('$' + n), ct)
        for n in s.opn:
            if s.want('$q' + n):
                b = ('deref', S('$q' + n)); e = s.elem(s.opn[n]); d = s.ndim(s.opn[n])
                s.fields[(b, 'data')] = ('lv', ('data', b), (e[0], (('[', ('num', '1')),) + e[1])); s.fields[(b, 'len')] = ('lv', ('lens', b), ('ADDRESS', (('[', ('num', str(d))),)))
    cls = None
    def elem(s, t): n, e = dims(s.G, s.st, t); return s.G.ctof(e, s.st)
    def ndim(s, t): return dims(s.G, s.st, t)[0]
    def var(s, n, t, mode, par=False):
        G, st = s.G, s.st; o = G.variable(st, n, t, mode, lev=s.lev, scope=s.sc) if s.own else G.variable(st, n, t, mode, lev=s.lev, scope=s.sc)
        k = comp(G, st, t); ct = G.ctof(t, st); c = n + '_'; d = {}
        if k == 'DynArr':
            e = s.elem(t); d[c] = ('rv', ('to', S(n)), (e[0], ('*',) + e[1]))
            for i in range(s.ndim(t)): d[n + '___len' + (str(i) if i else '')] = ('rv', ('len', n, i), ('ADDRESS', ()))
        elif k == 'Array' and not s.own: d[c] = ('rv', ('to', S(n)), (ct[0], ('*',) + ct[1]))
        elif k == 'Array' and (par or mode == 'VarPar'): e = G.deref(ct); d[c] = ('rv', ('to', S(n)), (e[0], ('*',) + e[1]))
        elif mode == 'VarPar':
            d[c] = ('rv', ('to', S(n)), (ct[0], ('*',) + ct[1]))
            if k == 'Record': d[n + '___typ'] = ('rv', ('tag', n), ('ADDRESS', ('*',)))
        elif s.own: d[c] = ('lv', S(n), ct)
        else: d[c] = ('rv', ('to', S(n)), (ct[0], ('*',) + ct[1]))
        if s.own: s.env.update(d)
        else:
            for a, b in d.items(): s.fields[(('scope', 'Z'), a)] = b
        return o
    # ---- what the actual parameters of the source denote: ('value', text of the opaque operand), ('at', location, element or own type, tag, lengths)
    def at(s, src):
        """designator -> (location, Oberon type, tag, [length polynomials])"""
        G, st = s.G, s.st
        m = re.match(r'^(\$?\w+)$', src)
        if m:
            n = src.lstrip('$'); t = s.tys.get(n); k = src
            if not src.startswith('$') and t is None: t = s.tys[n[1:]]
            tag = ('tag', n) if src[0] == 'v' and src[1:] in s.tys and comp(G, st, t) == 'Record' else ('desc', s.tname(t)) if comp(G, st, t) == 'Record' else None
            return S(src), t, tag, s.lens(t, lambda i: pa(repr(('len', n, i))))
        m = re.match(r'^(.*)\^$', src)
        if m:
            l, t, tag, ln = s.at(m.group(1)); b = st.env[('f', ('*', t), G.S['BaseTyp'])]; d = ('deref', l)
            if comp(G, st, b) == 'DynArr': return ('data', d), b, None, s.lens(b, lambda i: pa(repr(('elem', ('lens', d), fz(pc(i)), ('ADDRESS', ())))))
            return d, b, ('tagof', d) if comp(G, st, b) == 'Record' else None, s.fixed(b)
        m = re.match(r'^(.*)\((\w+)\)$', src)
        if m:
            l, t, tag, ln = s.at(m.group(1)); t2 = G.types[m.group(2)]
            return l, t2, tag, s.fixed(t2)
        m = re.match(r'^(.*)\[(\$\w+)\]$', src)
        if m:
            l, t, tag, ln = s.at(m.group(1)); b = st.env[('f', ('*', t), G.S['BaseTyp'])]
            if comp(G, st, t) == 'DynArr':
                p = pa(m.group(2))
                for x in ln[1:s.ndim(t)]: p = pmul(p, x)
                return ('elem', l, fz(p), s.elem(t)), b, ('desc', s.tname(b)) if comp(G, st, b) == 'Record' else None, ln[1:]
            return ('elem', l, fz(pa(m.group(2))), G.ctof(b, st)), b, ('desc', s.tname(b)) if comp(G, st, b) == 'Record' else None, s.fixed(b)
        m = re.match(r'^(.*)\.f$', src)
        if m:
            l, t, tag, ln = s.at(m.group(1)); ft = s.tys['i32']; return ('field', l, 'f_'), ft, None, []
        raise Broken('designator %s' % src)
    def lens(s, t, f):
        n = s.ndim(t) if comp(s.G, s.st, t) == 'DynArr' else 0
        return [f(i) for i in range(n)] + s.fixed(dims(s.G, s.st, t)[1] if n else t)
    def tname(s, t): return [k for k, v in s.G.types.items() if v == t][0]
    def fixed(s, t):
        r = []; G, st = s.G, s.st
        while comp(G, st, t) == 'Array': r.append(pc(st.env[('f', ('*', t), G.S['n'])][1])); t = st.env[('f', ('*', t), G.S['BaseTyp'])]
        return r
    def size(s, t): return s.st.env[('f', ('*', t), s.G.S['size'])][1]
def ival(a):
    """value of a C integer constant expression, or None"""
    if a[0] == 'par': return ival(a[1])
    if a[0] == 'num': return int(a[1].rstrip('uUlL'), 0)
    if a[0] == 'chr': return None
    if a[0] == 'cast': return ival(a[2])
    if a[0] == 'un' and a[1] == '-': v = ival(a[2]); return None if v is None else -v
    if a[0] == 'bin' and a[1] in '+-': x, y = ival(a[2]), ival(a[3]); return None if x is None or y is None else x + y if a[1] == '+' else x - y
    return None
CTYPES = ('INT8', 'INT16', 'INT32', 'INT64', 'ADDRESS', 'CHAR', 'SYSTEM_BYTE', 'BOOLEAN', 'REAL', 'LONGREAL', 'UINT32', 'UINT64')
WIDE = {'INT8': (1, 1), 'INT16': (1, 2), 'INT32': (1, 4), 'INT64': (1, 8), 'ADDRESS': (1, 8), 'REAL': (2, 4), 'LONGREAL': (2, 8), 'CHAR': (0, 1), 'SYSTEM_BYTE': (0, 1), 'UINT32': (3, 4), 'UINT64': (3, 8)}
def uncast(a, want):
    """drop the casts that keep every value of the operand: casts to the parameter's own type or wider ones"""
    while True:
        if a[0] == 'par': a = a[1]
        elif a[0] == 'cast' and (a[1] == want or a[1].replace(' ', '') == 'void*' or a[1] in WIDE and want in WIDE and (WIDE[a[1]][0] == WIDE[want][0] or WIDE[want][0] == 0) and WIDE[a[1]][1] >= WIDE[want][1]): a = a[2]
        else: return a
SHORT = 'shorter array: '
def argument(W, ev, a, role, ct, src, fm, ft):
    """None or why the C argument a is not the actual parameter src for (role, C type) of the formal parameter of mode fm and type ft"""
    G, st = W.G, W.st; k = comp(G, st, ft)
    if isinstance(src, tuple):                                               # constants
        kind, v = src[0], src[1]
        if role[0] == 'len' if isinstance(role, tuple) else False: return None if ival(a) == v_len(src) else 'the length %s is passed, not %d' % (cexpr.show(a), v_len(src))
        b = uncast(a, ct[0])
        if kind == 'int':
            if ct[0] in ('REAL', 'LONGREAL') and b[0] == 'num': return None if float(b[1].rstrip('f')) == v else 'it is not %d' % v
            return None if ival(b) == v else 'it is not %d' % v
        if kind == 'chr': return None if ival(b) == ord(v) or b[0] == 'chr' and cstr(b[1]) == v else 'it is not the character %s' % v
        if kind == 'bool': return None if ival(b) == v else 'it is not %s' % v
        if kind == 'nil': return None if b == ('id', 'NIL') or ival(b) == 0 else 'it is not NIL'
        if kind == 'set': return None if ival(b) == v else 'it is not that set'
        if kind == 'proc': return None if b == ('id', v + '_') else 'it is not that procedure'
        if kind == 'str':
            x = a
            while x[0] in ('par', 'cast'):
                if x[0] == 'cast' and x[1].replace(' ', '') not in ('CHAR*', 'void*', 'SYSTEM_BYTE*'): return 'it is cast to %s' % x[1]
                x = x[1] if x[0] == 'par' else x[2]
            n = None
            if x[0] == 'compound': n, x = compound(x)
            if x[0] != 'str' or cstr(x[1]) != v: return 'it is not the string "%s"' % v
            need = W.size(ft) if k == 'Array' else 0; have = n or len(v) + 1
            return None if have >= need else 'the callee copies %d bytes, but the string has only %d' % (need, have)
        raise Broken(kind)
    if src.startswith('$') and role == 'value' and src[1:] in W.tys and comp(G, st, W.tys[src[1:]]) is None:
        b = uncast(a, ct[0]); t = W.tys[src[1:]]
        if b == ('id', src): return None
        if form(G, st, t) == G.m('Pointer'):
            v = ev.rv(ev.ev(b)); return None if v[1] == ('to', ('deref', S(src))) else 'it is %s' % locs(v[1])
        return 'it is not the value of %s' % src
    loc, t, tag, ln = W.at(src)
    if role == 'value':
        v = ev.ev(uncast(a, ct[0]))
        if k == 'Record':
            if v[0] != 'lv' or v[1] != loc: return 'it denotes %s' % locs(v[1])
            return None if G.same(v[2], ct) else 'it has the C type %s, not %s' % (G.ctshow(v[2]), G.ctshow(ct))
        if v[0] == 'lv' and v[1] == loc: return None if G.same(v[2], ct) or G.isptr(v[2]) or v[2][0] in WIDE else 'it has the C type %s' % G.ctshow(v[2])
        if v[0] == 'rv' and v[1] in (('to', ('deref', loc)), ('value', loc)): return None
        return 'it denotes %s' % locs(v[1])
    if role == 'to':
        v = ev.rv(ev.ev(a))
        if v[1] == ('to', loc):
            e = v[2]
            if fm != 'VarPar' and k == 'Array' and W.size(t) < W.size(ft): return SHORT + 'the callee copies %d bytes, but the actual parameter has only %d' % (W.size(ft), W.size(t))
            return None
        return 'it is %s' % locs(v[1])
    if role == 'tag':
        g = ev.tag(a); return None if g == tag else 'the type tag of %s is passed as %s' % (src, g)
    if role[0] == 'len':
        d = role[1]
        if dims(G, st, ft)[1] == G.types.get('BYTE') and d == dims(G, st, ft)[0] - 1:
            p = pc(1)
            for x in ln[d:]: p = pmul(p, x)
            e = t
            while comp(G, st, e) in ('Array', 'DynArr'): e = base(G, st, e)
            z = W.size(e)
            p = pmul(p, pc(z))
        else: p = ln[d]
        return None if ev.poly(strip_len(a)) == p else 'the length %s is passed for dimension %d' % (cexpr.show(a), d)
    raise Broken(str(role))
def strip_len(a):
    while a[0] in ('par', 'cast'):
        if a[0] == 'cast' and a[1] not in ('ADDRESS', 'INT64'): raise SemErr('length cast to %s' % a[1])
        a = a[1] if a[0] == 'par' else a[2]
    if a[0] == 'bin' and a[1] == '*': return a[:2] + (strip_len(a[2]), strip_len(a[3]))
    return a
def v_len(src): return len(src[1]) + 1 if src[0] == 'str' else 2
def cstr(t):
    """characters of a C string or character constant"""
    t = t[1:-1]; r = ''; i = 0
    while i < len(t):
        if t[i] != '\\': r += t[i]; i += 1; continue
        m = re.match(r'\\([0-7]{1,3})|\\x([0-9a-fA-F]+)|\\(.)', t[i:])
        r += chr(int(m.group(1), 8)) if m.group(1) else chr(int(m.group(2), 16)) if m.group(2) else {'n': '\n', 't': '\t', 'r': '\r'}.get(m.group(3), m.group(3)); i += m.end()
    return r
def compound(x):
    """(size in bytes, initialiser) of a compound literal of characters"""
    n = ival(x[2]) if x[2] is not None else None
    if x[1] != 'CHAR' or n is None: raise SemErr('compound literal of type %s' % x[1])
    if x[3][0] != 'str' or len(cstr(x[3][1])) + 1 > n: raise SemErr('the string does not fit the compound literal')
    return n, x[3]


def cases():
    """(mode and formal type, source of the actual parameter, what it denotes)"""
    r = []
    def add(f, *srcs):
        for x in srcs: r.append((f, x, x) if isinstance(x, str) else (f,) + x)
    for f in BK:                                                             # values of basic types
        if f != 'by': add(f, '$' + f)
        add(f, f, 'v' + f)
    for f, k in (('i8', 1), ('i16', 2), ('i32', 3), ('i64', 4)):
        for x in ('i8', 'i16', 'i32')[:k - 1]: add(f, '$' + x, 'v' + x)
        for v in (0, 1, 100, -7): add(f, (str(v), ('int', v)))
        if k > 1: add(f, ('1000', ('int', 1000)))
        if k > 2: add(f, ('100000', ('int', 100000)))
        if k > 3: add(f, ('5000000000', ('int', 5000000000)), ('-5000000000', ('int', -5000000000)))
    for x in ('i8', 'i16', 'i32', 'i64'): add('r', '$' + x); add('lr', '$' + x)
    add('lr', '$r', 'vr')
    add('s64', '$s32'); add('s32', ('{1, 3}', ('set', 10))); add('s64', ('{0}', ('set', 1)))
    for ch in 'ax': add('c', ("'%s'" % ch, ('chr', ch)))
    add('b', ('TRUE', ('bool', 1)), ('FALSE', ('bool', 0)))
    add('by', '$by', '$c', '$i8', 'c', 'vi8', ("'a'", ('chr', 'a')), ('5', ('int', 5)))
    add('p', '$p', 'p', 'vp', '$p1', '$p2', 'p1', 'vp2', ('NIL', ('nil', 0)), 'p1(PR2)', 'vp(PR1)', 'ap[$i32]')
    add('p1', '$p1', 'p2'); add('pp', '$p', 'vp1', '$pp', ('NIL', ('nil', 0)), '$qoi')
    add('pt', '$pt', 'pt', 'vpt', ('NIL', ('nil', 0)), ('Other', ('proc', 'Other')))
    for f in BK:                                                             # VAR parameters
        add('V' + f, '$' + f, f, 'v' + f)
    add('Vi32', 'a[$i32]', 'va[$i16]', 'wa[$i32]', 'voi[$i32]', 'woi[$i32]', 'qoi^[$i32]', 'p^.f', 'rec.f', 'vrec.f', 'vrec(R1).f', 'p(PR1)^.f', 'ar[$i32].f')
    add('Vby', 'c', 'vi8', '$by', '$c', 'i8', 'voc[$i32]', 's[$i16]')
    add('Vp', '$p', 'p', 'vp', 'ap[$i32]', 'vap[$i8]', 'wop[$i32]'); add('Vpp', '$pp', 'p', 'vp1', '$qoi', 'pp')
    add('Vpt', '$pt', 'pt', 'vpt')
    for f, c in (('rec', ('rec', 'rec1', 'rec2')), ('rec1', ('rec1', 'rec2'))):   # records
        for x in c: add(f, x, 'v' + x, '$' + x); add('V' + f, x, 'v' + x, '$' + x)
    for f in ('rec', 'Vrec'): add(f, 'p^', 'p1^', 'vp^', 'vp2^', 'vrec(R1)', 'vrec(R2)', 'vrec1(R2)', 'p(PR1)^', 'ar[$i32]', 'vorec[$i16]', 'worec[$i16]')
    for f in ('s', 'a', 'aa', 'ar', 'ap', 'an'):                              # arrays
        for m in ('', 'V'): add(m + f, f, 'v' + f, 'w' + f, '$' + f)
    add('a', 'qa^'); add('Va', 'qa^', 'vqa^'); add('row', 'aa[$i32]', 'vaa[$i32]', 'oo'[:0] or 'woo[$i32]'); add('Vrow', 'aa[$i32]', 'waa[$i32]', 'voo[$i8]'); add('s', 'arow[$i32]'); add('Vs', 'varow[$i32]', 'qs^', 'wosr[$i32]')
    add('s', ('"abc"', ('str', 'abc')), ('"abcdefghi"', ('str', 'abcdefghi')), ("'a'", ('str', 'a'))); add('t', '$s', 's', ('"abc"', ('str', 'abc')))
    for m in ('', 'V'):                                                      # open arrays
        add(m + 'oi', 'a', 'va', 'wa', '$a', 'voi', 'woi', 'qoi^', 'vqoi^', 'vo2[$i32]', 'wo2[$i16]', 'qo2^[$i32]')
        add(m + 'oc', 's', 'vs', 'ws', '$t', 'voc', 'woc', 'qoc^', 'arow[$i32]', 'voc2[$i32]', 'osr'[:0] or 'wosr[$i32]', 'qs^')
        add(m + 'o2', 'vo2', 'wo2', 'qo2^'); add(m + 'oc2', 'arow', 'varow', 'warow', 'vosr', 'wosr', 'voc2', 'woc2', 'qoc2^')
        add(m + 'o3', 'vo3', 'wo3', 'qo3^'); add(m + 'oo', 'aa', 'vaa', 'voo', 'woo', 'qoo^', '$aa'); add(m + 'op', 'ap', 'vop', 'wap', 'qop^'); add(m + 'orec', 'ar', 'vorec', 'worec', 'qorec^'); add(m + 'oal', 'alr', 'voal', 'qoal^', '$alr'); add(m + 'oi64', 'an', 'van', 'voi64')
        add(m + 'ob', 'ab', 'vab', 'vob', 'wob', 'qob^')
    add('oc', ('"abc"', ('str', 'abc')), ('"abcdefghijklmnopq"', ('str', 'abcdefghijklmnopq')), ("'x'", ('str', 'x')))
    for x in ('s', 'a', 'aa', 'an', 'voi', 'woi', 'voc', 'vo2', 'wo3', 'voo', 'voal', 'qoi^', 'qo2^', 'qoc^', 'vo2[$i32]', 'vo3[$i32]', 'ar', 'vorec', 'i32', 'vi64', 'lr', 'rec', 'vrec', 'p^', 'vp', 'c', 'a[$i32]', 'vrec.f', '$i16'): add('Vob', x)
    for x in ('aa', 'vo2', 'vo3', 'wo3', 'voo', 'qo2^', 'arow', 'vob2', 'wob2'): add('Vob2', x)
    return r
def names_of(src): return set(re.findall(r'\$?[A-Za-z]\w*', src))
def argtypes(W, pars): return [(m, W.tys[f]) for m, f in pars]
def split_mode(f): return ('VarPar', f[1:]) if f[0] == 'V' else ('Var', f)
def calls(ctx, G):
    A = ctx.proc('OPV.ActualPar'); w = ctx.where(A); C_ = ctx.proc('OPV.expr')
    def build(callee, pars, names, level, own, opts=()):
        """the world and the callee; -> (W, source of the call up to its parameters, prefix of expected C arguments)"""
        W = World(G, level, own, opts, names); st = W.st; W.declare(); W.fld = {}
        proc(G, st, 'Other', []); G.flds.clear()
        fo = G.rec(st, 'fld_f', G.O, name=C('f'), mode=C(G.c('Fld')), typ=W.tys['i32'], mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL); G.vars[fo] = 'f'
        for r in ('R', 'R1', 'R2'): G.flds[(G.types[r], 'f')] = fo
        ps = argtypes(W, pars); res = W.tys['i64'] if callee.endswith('()') else None; k = callee.replace('()', '')
        if k in ('LProc', 'XProc', 'nested'): proc(G, st, 'Q', ps, mode='XProc' if k == 'XProc' else 'LProc', res=res, lev=0 if k != 'nested' else max(0, level - 1)); head, cname, recv = 'Q', ('id', 'Q_'), []
        elif k.startswith('variable'):
            link = NIL; o, fs = proc(G, st, 'QT', ps)
            pt = G.named(st, 'TyPV', form=C(G.m('ProcTyp')), comp=C(G.m('Basic')), size=C(8), BaseTyp=res or G.types['NOTYP'], link=fs[0] if fs else NIL); G.tn['TyPV'] = ('proc', None)
            W.tys['qv'] = pt
            how = k[9:]
            if how == 'local': W.var('qv', pt, 'Var'); head = 'qv'
            elif how == 'VAR': W.var('vqv', pt, 'VarPar'); head = 'vqv'
            elif how == 'element': W.tys['aqv'] = G.array(st, 'AQV', pt, 5); W.var('aqv', W.tys['aqv'], 'Var'); head = 'aqv[$i32]'; W.names = None if W.names is None else W.names | {'$i32'}; W.env['$i32'] = ('lv', S('$i32'), ('INT32', ())); 'i32' in G.opq or G.opaque_(st, 'i32', W.tys['i32'])
            elif how in ('field', 'pointer field'):
                f2 = G.rec(st, 'fld_q', G.O, name=C('q'), mode=C(G.c('Fld')), typ=pt, mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL); G.vars[f2] = 'q'; G.flds[(G.types['R'], 'q')] = f2
                if how == 'field': 'rec' in G.idents or W.var('rec', W.tys['rec'], 'Var'); head = 'rec.q'
                else: 'p' in G.idents or W.var('p', W.tys['p'], 'Var'); head = 'p^.q'
            cname, recv = None, []
        else:                                                                # type-bound
            kind, rk = k.split(' ', 1)                                       # bound, super / receiver
            prec = rk.startswith('pointer'); rt = 'p' if prec else 'rec'
            fm = ('Var', W.tys['p']) if prec else ('VarPar', W.tys['rec'])
            o, fs = proc(G, st, 'm', [fm] + ps, mode='TProc', res=res); G.setf(st, o, G.O, 'adr', C(3 * 0x10000 + 7)); G.setf(st, o, G.O, 'vis', C(1)); G.flds[(G.types['R'], 'm')] = o
            for x in ('R1', 'R2'): G.flds[(G.types[x], 'm')] = o
            recv = rk.split(' ')[1]; head = recv + '.m'; cname = ('id', '__m_'); cname = ('id', '__m_')
            n = recv.rstrip('^').split('(')[0].split('[')[0]
            for x in names_of(recv) - {'PR1', 'R1', 'PR2', 'R2'}:
                if x not in G.idents and not x.startswith('$'): W.var(x, W.tys[x if x in W.tys else x[1:]], 'VarPar' if x not in W.tys else 'Var')
                elif x.startswith('$') and x[1:] not in G.opq: G.opaque_(st, x[1:], W.tys[x[1:]]); W.env[x] = ('lv', S(x), G.ctof(W.tys[x[1:]], st))
            if kind == 'super':
                # the calling procedure is the method m of R1
                o1, f1 = proc(G, st, 'm1', [(fm[0], W.tys['p1' if prec else 'rec1'])] + ps, mode='TProc', res=res); G.setf(st, o1, G.O, 'name', C('m')); G.setf(st, o1, G.O, 'link', G.idents[recv]); G.setf(st, o1, G.O, 'adr', C(3 * 0x10000 + 7)); G.vars[o1] = 'm1'
                G.setf(st, G.idents[recv], G.O, 'link', f1[0] and st.env[('f', ('*', f1[0]), G.O['link'])])
                G.flds[(G.types['R1'], 'm')] = o1; sc = st.env[('g', ctx.obj('OPT.topScope'))]; G.setf(st, sc, G.O, 'link', o1)
                head = recv + '.m^'; cname = ('id', 'm_')
            recv = [(('p' if prec else 'Vrec'), recv)]
        for n in list(W.tys):
            if n in W.opn or not n.startswith('q') or n == 'qv' or n[1:] not in W.opn: continue
            for v in (n, 'v' + n):
                if v in names:
                    l = ('deref', S(v)); e = W.elem(W.opn[n[1:]]); d = W.ndim(W.opn[n[1:]])
                    W.fields[(l, 'data')] = ('lv', ('data', l), (e[0], (('[', ('num', '1')),) + e[1])); W.fields[(l, 'len')] = ('lv', ('lens', l), ('ADDRESS', (('[', ('num', str(d))),)))
        G.use(st)
        return W, head, cname, recv
    def check(callee, pars, acts, level=1, own=True, rule='argument', opts=()):
        """pars: formal parameters, acts: (source, what it denotes)"""
        names = set().union(*[names_of(x) for x, d in acts]) if acts else set()
        if callee.endswith('()'): names |= {'i64'}
        W, head, cname, recv = build(callee, [split_mode(f) for f in pars], names, level, own, opts); st = W.st
        if callee.endswith('()') and 'i64' not in G.idents: W.var('i64', W.tys['i64'], 'Var')
        text = '%s(%s)' % (head, ', '.join(x for x, d in acts)); src = text
        if callee.endswith('()'): src = 'i64 := ' + text
        inst = '%s: %s%s' % (callee, text, ' for ' + ', '.join(pars) if pars else '')
        if opts: inst += ' with run-time checks'
        if not own: inst += ' (variables of an enclosing procedure)'
        res = G.compile(st, src, W.pr)
        if not res: raise Broken('%s: no path' % inst)
        bad = None; c = ''
        for c, errs, toks, u in res:
            if errs: bad = 'is rejected with error %s' % errs; break
            try: bad = decode(W, cexpr.stmts(c, G.istype), callee, cname, recv, pars, acts)
            except (CErr, SemErr) as e: bad = str(e)
            if bad: bad = 'is written as %s: %s' % (' '.join(c.split()), bad); break
        short = bad is not None and SHORT in bad
        ctx.check(bad is None, rule if not short else 'argument length', inst if not short else 'shorter array passed to an array value parameter', w, '%s %s' % (inst, bad), sample='%s => %s' % (inst, ' '.join((c or '').split())))
        if bad is not None: return
        # every operand of the source is evaluated once
        for c, errs, toks, u in res:
            f = cexpr.stmts(c, G.istype)[1][0][1]
            while f[0] != 'call': f = f[3] if f[0] == 'assign' else f[-1]
            have = {}
            def count(a, k):
                if isinstance(a, tuple):
                    if a[:1] == ('id',) and a[1].startswith('$'): have[a[1]] = have.get(a[1], 0) + k
                    else:
                        for x in a: count(x, k)
            double = f[1] == ('id', '__m_') and recv and recv[0][0] == 'p'          # __SEND takes the type tag of the receiver and passes it on
            count(f[1], 1)
            for i, x in enumerate(f[2]): count(x, 2 if i == 0 and double else 1)
            want = {}
            for n in re.findall(r'\$\w+', text): want[n] = want.get(n, 0) + 1
            for n in sorted(set(have) | set(want)):
                if n == '$i32' and have.get(n, 0) == want.get(n, 0) + 1 and double and '$i32' in recv[0][1]:
                    ctx.check(False, 'evaluated once', 'receiver of a type-bound procedure', w, '%s is written as %s: the macro of the type-bound procedure evaluates its receiver twice' % (inst, ' '.join(c.split())))
                else: ctx.check(have.get(n, 0) == want.get(n, 0), 'evaluated once', inst, w, '%s is written as %s, which evaluates %s %d times' % (inst, ' '.join(c.split()), n, have.get(n, 0)), sample=inst)
    def decode(W, ast, callee, cname, recv, pars, acts):
        st = W.st
        if ast[0] != 'seq' or len(ast[1]) != 1 or ast[1][0][0] != 'expr': return 'one statement expected'
        e = ast[1][0][1]
        if callee.endswith('()'):
            if e[0] != 'assign' or e[1] != '=': return 'the result is not assigned'
            e = e[3]
            while e[0] == 'par' or e[0] == 'cast' and e[1] == 'INT64': e = e[1] if e[0] == 'par' else e[2]
        if e[0] != 'call': return 'it is not a call'
        f = e[1]
        while f[0] == 'par': f = f[1]
        ev = CEval(G, W.env, W.fields); ev.ft = {'f_': ('INT32', ()), 'q_': ('TyPV', ())}
        if cname is not None:
            if f != cname: return 'it calls %s' % cexpr.show(f)
        else:
            while f[0] == 'par' or f[0] == 'un' and f[1] == '*' and not (strip(f[2])[0] == 'id' and callee.startswith('variable VAR')): f = f[1] if f[0] == 'par' else f[2]
            v = ev.ev(f); how = callee.replace('()', '')[9:]
            loc = {'local': S('qv'), 'VAR': S('vqv'), 'element': ('elem', S('aqv'), fz(pa('$i32')), ('TyPV', ())), 'field': ('field', S('rec'), 'q_'), 'pointer field': ('field', ('deref', S('p')), 'q_')}[how]
            if v[1] not in (loc, ('to', ('deref', loc))): return 'it calls the procedure in %s' % locs(v[1])
        fp = [(split_mode(x), (a, d)) for x, (a, d) in [(f, (x, x[:-1] if f == 'p' and x.endswith('^') else x)) for f, x in recv] + list(zip(pars, acts))]
        want = []
        for (m, f_), (a, d) in fp:
            for role, ct in contract(G, st, '', m, W.tys[f_]): want.append((role, ct, d, m, W.tys[f_], a))
        if len(e[2]) != len(want): return 'it passes %d C arguments, not %d' % (len(e[2]), len(want))
        for i, (x, (role, ct, d, m, t, a)) in enumerate(zip(e[2], want)):
            b = argument(W, ev, x, role, ct, d, m, t)
            if b: return 'C argument %d: %s' % (i + 1, b)
        return None
    table = cases()
    for f, src, den in table:
        for own in (True, False):
            if not own and not re.search(r'(?<!\$)\b[a-z]\w*', re.sub(r'\(\w+\)', '', src)) : continue
            if not own and isinstance(den, tuple): continue
            check('LProc', [f], [(src, den)], level=1 if own else 2, own=own)
            if re.search(r'\(|\[', src) and isinstance(den, str): check('LProc', [f], [(src, den)], opts=('typchk', 'inxchk'))
    # every kind of callee
    acts = [([], []), (['i64'], [('$i16', '$i16')]), (['Vi32'], [('vi32', 'vi32')]), (['Vrec'], [('vrec1', 'vrec1')]), (['oc'], [('"abc"', ('str', 'abc'))]), (['Vo2'], [('vo2', 'vo2')]), (['p'], [('$p1', '$p1')]), (['rec'], [('rec1', 'rec1')]),
            (['i32', 'Vrec', 'oi', 'p'], [('$i32', '$i32'), ('rec2', 'rec2'), ('woi', 'woi'), ('NIL', ('nil', 0))]), (['Vo3', 'Vrec', 'i64', 'Vob'], [('vo3', 'vo3'), ('p^', 'p^'), ('7', ('int', 7)), ('a', 'a')])]
    kinds_ = ['LProc', 'XProc', 'nested'] + ['variable ' + x for x in ('local', 'VAR', 'element', 'field', 'pointer field')]
    kinds_ += ['bound %s %s' % x for x in (('pointer', 'p'), ('pointer', 'p1'), ('pointer', 'vp'), ('pointer', 'p^'), ('pointer', 'p(PR1)'), ('pointer', 'ap[$i32]'), ('record', 'vrec'), ('record', 'rec'), ('record', 'vrec1'), ('record', 'rec2'), ('record', 'p^'), ('record', 'vrec(R1)'), ('record', 'ar[$i32]'))]
    kinds_ += ['super pointer p1', 'super record vrec1']
    for k in kinds_:
        for f in ('', '()'):
            for pars, a in acts: check(k + f, pars, a, level=1 if k != 'nested' else 2, rule='call')

def run(ctx):
    G = Comp(ctx)
    lists(ctx, G); macros(ctx, G); calls(ctx, G)
    for r, k in (('parameter list', 900), ('method macro', 500), ('argument', 800), ('call', 400), ('evaluated once', 400)): ctx.floor(r, k)

"""Designators and scopes: for every kind of variable and parameter, the declarations, the entry and exit code of procedures, and the C
designators the code generator writes for it - in its own procedure, in nested ones, under WITH - are parsed as C and evaluated to storage
locations; each has to be the location the Oberon designator denotes, with its C type, bounds check, type check, lengths and type tag."""
from oblib.cenv import *
LEVEL = 'other'
TC, IC = ('typchk',), ('inxchk',)
def var_kinds(G, st):
    """(name, mode, type, parameter?, dims) of every kind of variable"""
    T = lambda k: G.typ(st, k)
    rec = G.record(st); arec = G.record(st, 'TyAREC', named=False); ptr = G.pointer(st, 'TyPTR', rec); aptr = G.pointer(st, 'TyAPTR', rec, named=False)
    arr = G.array(st, 'TyARR', T('INT32'), 10); arr2 = G.array(st, 'TyARR2', G.array(st, 'TyROW', T('INT32'), 4), 7); aarr = G.array(st, 'TyAARR', T('INT16'), 10, named=False)
    aarr2 = G.array(st, 'TyAARR2', G.array(st, 'TyAROW', T('INT32'), 4, named=False), 7, named=False); rarr = G.array(st, 'TyRARR', rec, 3); parr = G.array(st, 'TyPARR', aptr, 3, named=False)
    o1 = G.openarr(st, 'TyO1', T('INT32')); o2 = G.openarr(st, 'TyO2', G.openarr(st, 'TyO2b', T('CHAR'))); o3 = G.openarr(st, 'TyO3', G.openarr(st, 'TyO3b', G.openarr(st, 'TyO3c', T('INT64'))))
    oa = G.openarr(st, 'TyOA', arr); orc = G.openarr(st, 'TyOR', rec); op = G.openarr(st, 'TyOP', ptr); o2a = G.openarr(st, 'TyO2A', G.openarr(st, 'TyO2Ab', arr2))
    scal = [(n, T(n)) for n in ('BOOL', 'CHAR', 'INT8', 'INT16', 'INT32', 'INT64', 'REAL', 'LREAL', 'SET32', 'SET64', 'BYTE')] + [('POINTER', ptr), ('PROCEDURE', G.proct(st)), ('RECORD', rec)]
    farr = [('ARRAY OF INT32', arr), ('ARRAY OF ARRAY', arr2), ('ARRAY OF RECORD', rarr)]
    opn = [('open ARRAY OF INT32', o1), ('open 2-dim CHAR', o2), ('open 3-dim INT64', o3), ('open ARRAY OF ARRAY', oa), ('open ARRAY OF RECORD', orc), ('open ARRAY OF POINTER', op), ('open 2-dim OF 2-dim', o2a)]
    anon = [('anonymous RECORD', arec), ('anonymous POINTER', aptr), ('anonymous ARRAY', aarr), ('anonymous 2-dim ARRAY', aarr2), ('anonymous ARRAY OF POINTER', parr)]
    r = []
    for n, t in scal + farr + opn:
        for m in ('Var', 'VarPar'): r.append(('%s%s parameter' % ('VAR ' if m == 'VarPar' else '', n), m, t, True))
    for n, t in scal + farr + anon: r.append(('local ' + n, 'Var', t, False))
    return r
def comp(G, st, t): return {G.c('Array'): 'Array', G.c('DynArr'): 'DynArr', G.c('Record'): 'Record'}.get(st.env[('f', ('*', t), G.S['comp'])][1])
def dims(G, st, t):
    n = 0
    while comp(G, st, t) == 'DynArr': n += 1; t = st.env[('f', ('*', t), G.S['BaseTyp'])]
    return n, t
def lenname(k): return 'x___len' + (str(k) if k else '')

class Scope:
    """one procedure with the parameter or local variable x (not used by this procedure alone) and a neutral one before and after it"""
    def __init__(s, G, st, kind, ret=False, level=1):
        nm, mode, typ, par = kind; s.G, s.st, s.kind, s.typ, s.mode, s.par, s.ret = G, st, nm, typ, mode, par, ret
        s.scope = G.rec(st, 'scopeobj', G.O, name=C('P'), leaf=C(False), right=NIL, mnolev=C(level))
        G.vars = {}
        other = G.typ(st, 'INT16'); y = G.var(st, 'y', other, lev=level, scope=s.scope, leaf=True)
        s.x = G.var(st, 'x', typ, mode, lev=level, scope=s.scope)
        z = G.var(st, 'z', other, lev=level, scope=s.scope, leaf=True)
        G.setf(st, y, G.O, 'link', s.x); G.setf(st, s.x, G.O, 'link', z)
        G.setf(st, s.scope, G.O, 'scope', NIL if par else y)
        s.proc = G.rec(st, 'I:P', G.O, name=C('P'), mode=C(G.c('LProc')), vis=C(0), link=y if par else NIL, scope=s.scope, typ=G.typ(st, 'INT64') if ret else G.types['NOTYP'], mnolev=C(level - 1))
        G.glob(st, 'OPT.notyp', G.types['NOTYP'])
        for v, n in ((s.x, 'x'), (y, 'y'), (z, 'z')): G.vars[v] = n
    def entry(s, exit_=True):
        """C of DefineInter, then EnterProc, ExitProc"""
        G = s.G; R = G.rctx.proc
        o, E = G.run(R('OPC.DefineInter'), s.st, {'proc': s.proc}); G.single(o, 'DefineInter'); inter = G.text(o[0][0])
        o, E = G.run(R('OPC.EnterProc'), s.st, {'proc': s.proc}); G.single(o, 'EnterProc'); ent = o[0]
        st = ent[1].copy(); st.cl = ()
        o, E = G.run(R('OPC.ExitProc'), st, {'proc': s.proc, 'eoBlock': C(True), 'implicitRet': C(True)}); G.single(o, 'ExitProc')
        o2, E = G.run(R('OPC.ExitProc'), st, {'proc': s.proc, 'eoBlock': C(False), 'implicitRet': C(False)}); G.single(o2, 'ExitProc')
        ext, ret = G.text(o[0][0]), G.text(o2[0][0])
        if s.ret:                                                  # falling off the end of a function halts, RETURN leaves
            b = cexpr.stmts('{' + ext, G.istype)[1][0][1][1]
            if b != (('expr', ('id', '__RETCHK')),): raise SemErr('does not stop at the end of a function without RETURN')
            ext = ret + ';}'
        return inter, G.text(ent[0]), ext, ret

class Vals:
    """what the C names of a scope stand for"""
    def __init__(s, G): s.G = G; s.env = {}; s.fields = {}; s.ftypes = {}

def S(x): return ('S', x)
def param(G, st, kind, c):
    """contract between caller and callee: meaning of the C parameters of x"""
    nm, mode, typ, par = kind; env = {}; bad = []
    k = comp(G, st, typ); ct = G.ctof(typ)
    want = {}
    if k == 'DynArr':
        n, e = dims(G, st, typ); want['x_'] = ('to', S('actual')); want_t = {'x_': (G.ctof(e)[0], ('*',) + G.ctof(e)[1])}
        for d in range(n): want[lenname(d)] = ('len', d); want_t[lenname(d)] = ('ADDRESS', ())
    elif k == 'Array': want['x_'] = ('to', S('actual')); e = G.deref(ct); want_t = {'x_': (e[0], ('*',) + e[1])}
    elif mode == 'VarPar':
        want['x_'] = ('to', S('actual')); want_t = {'x_': (ct[0], ('*',) + ct[1])}
        if k == 'Record': want['x___typ'] = ('tag',); want_t['x___typ'] = ('ADDRESS', ('*',))
    else: want['x_'] = ('value', S('actual')); want_t = {'x_': ct}
    if c is not None:
        if [n for n in c if n not in ('y_', 'z_')] != list(want): return None, 'declares the C parameters %s, not %s' % (', '.join(n for n in c if n not in ('y_', 'z_')), ', '.join(want))
        for n in want:
            have = c[n]
            if k == 'Array' and G.isarr(have): d = G.deref(have); have = (d[0], ('*',) + d[1])
            if not G.same(have, want_t[n]): return None, 'declares the C parameter %s as %s, not %s' % (n, G.ctshow(have), G.ctshow(want_t[n]))
    for n, v in want.items():
        if v[0] == 'value': env[n] = ('lv', v[1], want_t[n])
        elif v[0] == 'to': env[n] = ('rv', v, want_t[n])
        else: env[n] = ('rv', v, want_t[n])
    return env, None

def struct_fields(G, text):
    p = cexpr.P(text, G.istype); d = p.stmts(); d = d[1]
    if len(d) != 1 or d[0][0] != 'decl' or d[0][2][0] != 'struct' or len(d[0][2]) < 3: raise CErr('scope record expected: %s' % text[:80])
    b = d[0]; f = {}
    for x in b[2][2][1]:
        for n, dd, i in x[3]: f[n] = G.ctype(x[2], dd)
    v = [(n, G.ctype(b[2], dd)) for n, dd, i in b[3]]
    return b[2][1], f, v, b[1]

def interpret(G, st, kind, sc, want_scope=True):
    """evaluate EnterProc ... ExitProc; -> (environment at own level, environment of nested procedures, lists of problems)"""
    inter, ent, ext, ret = sc.entry(); nm, mode, typ, par = kind; bad = []
    tag, ft, vs, pre = struct_fields(G, inter)
    if vs != [('P_s', ('struct ' + tag, ('*',)))] or 'static' not in pre: bad.append('the scope is declared as %s' % (vs,))
    f = cexpr.stmts(ent + ext, G.istype)[1]
    if len(f) != 1 or f[0][0] != 'func': raise CErr('function expected: %s' % ent[:60])
    if f[0][4][0][0] != '()': raise CErr('parameter list expected')
    c = {}
    for x in f[0][4][0][1]:
        b, d, n = x; c[n] = G.ctype(b, d)
    env = {}
    if par:
        env, b = param(G, st, kind, c)
        if b: return None, None, [b], None
    elif set(c) - {'', 'y_', 'z_'}: bad.append('has the parameters %s' % ', '.join(c))
    scopes = ('scope', 'P'); env['P_s'] = ('rv', ('to', ('outer', 'P')), ('struct ' + tag, ('*',)))
    fields = {}; ct = G.ctof(typ); copied = False; final = []
    ev = CEval(G, env, fields)
    def as_ptr(e): return ev.rv(ev.ev(e))
    body = f[0][5][1][1] if f[0][5][0] == 'block' else ()
    for x in body:
        if x[0] == 'decl':
            for n, d, i in x[3]:
                t = G.ctype(x[2], d)
                if n == '_s': env[n] = ('lv', scopes, t)
                elif n == 'x_' and not par: env[n] = ('lv', S('x'), t); bad += [] if G.same(t, ct) else ['x is declared as %s' % G.ctshow(t)]
                elif n == 'x___copy': env[n] = ('lv', S('x'), t); final.append('copy'); bad += [] if G.same(t, ct) else ['the copy is declared as %s' % G.ctshow(t)]
                elif n in ('y_', 'z_', '__retval'): env[n] = ('lv', S(n), t)
                else: bad.append('declares %s' % n)
            continue
        if x[0] != 'expr': bad.append('contains %s' % (x[0],)); continue
        e = x[1]
        if e[0] == 'call' and e[1][0] == 'id':
            m = e[1][1]; a = e[2]
            if m == '__DEL': continue
            if m == '__DUPARR' and len(a) == 2 and a[0] == ('id', 'x_'):
                t = (a[1][1], ())
                if not G.same(t, ct): bad.append('copies sizeof(%s)' % a[1][1])
                if 'x___copy' not in env: bad.append('has no storage for the copy')
                env['x_'] = ('rv', ('to', S('x')), env['x_'][2]); copied = True; continue
            if m == '__DUP' and len(a) == 3 and a[0] == ('id', 'x_'):
                n, el = dims(G, st, typ); w = pc(1)
                for k in range(n): w = pmul(w, pa(repr(('len', k))))
                if ev.poly(a[1]) != w: bad.append('copies %s elements of the open array, not the product of its %d lengths' % (cexpr.show(a[1]), n))
                if not (a[2][0] in ('type', 'id') and G.same((a[2][1], ()), G.ctof(el))): bad.append('copies elements of type %s' % cexpr.show(a[2]))
                env['x_'] = ('rv', ('to', S('x')), env['x_'][2]); copied = True; continue
            bad.append('calls %s' % cexpr.show(e)); continue
        if e[0] == 'assign' and e[1] == '=':
            l, r = e[2], e[3]
            if l[0] == 'mem' and l[1] == '.' and l[2] == ('id', '_s'):
                if l[3] not in ft: bad.append('sets the undeclared field %s of the scope record' % l[3]); continue
                if l[3] == 'lnk':
                    if env['P_s'][1] != ('to', ('outer', 'P')) or ev.ev(r) != env['P_s']: bad.append('links the scope to %s' % cexpr.show(r))
                    fields[(scopes, 'lnk')] = ('rv', ('to', ('outer', 'P')), ft['lnk']); continue
                v = as_ptr(r); t = ft[l[3]]
                if v[2][0] != 'void' and not G.same(v[2], t): bad.append('stores a %s in the field %s of type %s' % (G.ctshow(v[2]), l[3], G.ctshow(t)))
                fields[(scopes, l[3])] = ('rv', v[1], t); continue
            if l == ('id', 'P_s'):
                v = as_ptr(r)
                if v[1] != ('to', scopes) and v[1] != ('to', ('outer', 'P')): bad.append('sets P_s to %s' % cexpr.show(r))
                if v[1] == ('to', scopes): inner = dict(env); infields = dict(fields); final.append('linked')
                else: final.append('unlinked')
                env['P_s'] = ('rv', v[1], env['P_s'][2]); continue
        bad.append('contains %s' % cexpr.show(e))
    if 'linked' not in final: bad.append('never links its scope')
    elif final[-1] != 'unlinked': bad.append('returns without restoring the scope of its caller')
    else:
        own = dict(inner)
        if par and mode == 'VarPar':                                        # VAR: the actual variable is x
            for d in (own, infields):
                for k, v in d.items():
                    if v[1] == ('to', S('actual')): d[k] = ('rv', ('to', S('x')), v[2])
        elif par and not copied:
            for k, v in own.items():
                if v[0] == 'lv' and v[1] == S('actual'): own[k] = ('lv', S('x'), v[2])
            for k, v in infields.items():
                if v[1] == ('to', S('actual')) and comp(G, st, typ) not in ('Array', 'DynArr'): infields[k] = ('rv', ('to', S('x')), v[2])
        nest = {'P_s': ('rv', ('to', scopes), ('struct ' + tag, ('*',)))}
        # the early exit
        r = cexpr.stmts(ret + ';', G.istype)[1]; n = 0
        for x in r:
            if x[0] == 'expr' and x[1][0] == 'assign' and x[1][2] == ('id', 'P_s'):
                v = CEval(G, inner, infields).ev(x[1][3]); n += 1
                if v[1] != ('to', ('outer', 'P')): bad.append('sets P_s to %s on RETURN' % cexpr.show(x[1][3]))
            elif not (x[0] == 'expr' and x[1][0] == 'call' and x[1][1] == ('id', '__DEL')): bad.append('contains %s on RETURN' % (x,))
        if n != 1: bad.append('returns without restoring the scope of its caller')
        return own, nest, bad, infields
    return None, None, bad, None

def denotes(G, st, ev, v, loc, typ):
    """None, or why the C value v is not the variable at loc of Oberon type typ"""
    k = comp(G, st, typ)
    if k in ('Array', 'DynArr'):
        e = dims(G, st, typ)[1] if k == 'DynArr' else None
        et = G.ctof(e) if e is not None else G.deref(G.ctof(typ))
        r = ev.rv(v)
        if r[1] != ('to', loc): return 'it denotes %s' % locs(r[1])
        if not G.same(G.deref(r[2]), et): return 'its elements are %s, not %s' % (G.ctshow(G.deref(r[2])), G.ctshow(et))
        return None
    if v[0] != 'lv' or v[1] != loc: return 'it denotes %s' % locs(v[1])
    if not G.same(v[2], G.ctof(typ)): return 'it has the C type %s, not %s' % (G.ctshow(v[2]), G.ctshow(G.ctof(typ)))
    return None
def locs(l):
    if isinstance(l, tuple):
        if l[:1] == ('S',): return {'actual': 'the caller\'s variable', 'x': 'x'}.get(l[1], str(l[1]))
        if l[:1] == ('to',): return 'the address of %s' % locs(l[1])
        if l[:1] == ('deref',): return 'what %s points to' % locs(l[1])
        if l[:1] == ('scope',): return 'the scope record'
        if l[:1] == ('field',): return '%s.%s' % (locs(l[1]), l[2])
        if l[:1] == ('elem',): return '%s[%s]' % (locs(l[1]), ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, '*'.join(m)) for m, c in l[2]))
    return str(l)

def run(ctx):
    G = GV(ctx)
    scopes(ctx, G); designators(ctx, G); guards(ctx, G); escapes(ctx, G)
    for r, k in (('procedure entry and exit', 100), ('variable', 300), ('grouping', 20000), ('type tag', 30), ('length', 250), ('field', 100), ('dereference', 40), ('index', 900), ('evaluated once', 150), ('guard', 50), ('type test', 30), ('WITH', 20), ('escape', 30)): ctx.floor(r, k)
def escapes(ctx, G):
    """variables used by nested procedures are marked, and so are procedures that contain procedures"""
    Q = ctx.proc('OPP.qualident'); w = ctx.where(Q); idp = Q.params[0]
    for mode in ('Var', 'VarPar'):
        for lev in range(0, 4):
            for level in range(lev, 5):
                st = G.start(); o = G.var(st, 'x', G.typ(st, 'INT32'), mode, lev=lev, leaf=True); E = G.engine()
                E.policy = lambda p: 'inline' if p.mod == 'OPP' else 'opaque'
                def find(E, n, a, st, o=o): st = st.copy(); E.store(st, a[0][1], o, n.uid); return [(NIL, st)]
                E.handlers['OPT.Find'] = find
                E.handlers['OPS.Get'] = lambda E, n, a, st: (lambda t: (E.store(t, a[0][1], E.fresh(t, ('sym', n.uid)), n.uid), [(NIL, t)])[1])(st.copy())
                for h in ('OPB.StaticLink', 'OPP.err', 'OPM.err', 'OPT.FindImport'): E.handlers[h] = lambda E, n, a, st: [(NIL, st)]
                G.glob(st, 'OPP.level', C(level)); out = E.run(Q, st, {})
                ts = out['n'] + [t for v, t in out['r']]
                if not ts: raise Broken('OPP.qualident: no path')
                inst = '%s of level %d used at level %d' % (mode, lev, level)
                for t in ts:
                    ok = lev == level or lev == 0 or E.norm(t, E.load(t, ('f', ('*', o), G.O['leaf']))) == C(False)
                    ctx.check(ok, 'escape', inst, w, '%s is not marked as used by a nested procedure, so that it is missing in the scope record' % inst, sample=inst)
    T = ctx.proc('OPV.Traverse'); w = ctx.where(T)
    for mode in ('LProc', 'XProc', 'TProc', 'CProc'):
        for lev in (0, 1, 2):                                            # level of the procedure that contains it
            st = G.start(); outer = G.rec(st, 'outer', G.O, leaf=C(True), mnolev=C(lev), name=C('Q'))
            inner = G.rec(st, 'inner', G.O, leaf=C(False), mnolev=C(lev + 1), right=NIL, left=NIL, name=C('P'))
            kv = G.rec(st, 'KV', G.K, setval=C(frozenset([1])))
            p = G.rec(st, 'I:P', G.O, name=C('P'), mode=C(G.c(mode)), scope=inner, left=NIL, right=NIL, conval=kv, vis=C(0), mnolev=C(lev), link=NIL, adr=C(0))
            E = G.engine()
            for h in ('OPV.Stamp', 'OPM.err', 'OPV.GetTProcNum'): E.handlers[h] = lambda E, n, a, st: [(NIL, st)]
            out = E.run(T, st, {'obj': p, 'outerScope': outer, 'exported': C(False)}); ts = out['n'] + [t for v, t in out['r']]
            if not ts: raise Broken('OPV.Traverse: no path')
            for t in ts:
                g = lambda x: E.norm(t, E.load(t, ('f', ('*', x), G.O['leaf'])))
                inst = '%s declared at level %d' % (mode, lev)
                ctx.check(lev == 0 or g(outer) == C(False), 'escape', inst, w, 'a procedure containing a %s declared at level %d is not marked as containing procedures' % (mode, lev), sample=inst)
def scopes(ctx, G):
    st0 = G.start(); kinds = [k[0] for k in var_kinds(G, st0)]
    wEnt, wCI, wD = ctx.where(ctx.proc('OPC.EnterProc')), ctx.where(ctx.proc('OPC.CompleteIdent')), ctx.where(G.design)
    LenP = ctx.proc('OPC.Len'); TyP = ctx.proc('OPC.TypeOf')
    for i, nm in enumerate(kinds):
        for level in (1, 2):
            st = G.start(level=level); kind = var_kinds(G, st)[i]; nm, mode, typ, par = kind
            sc = Scope(G, st, kind, ret=bool(i % 2), level=level); G.use(st)
            try: own, nest, bad, fields = interpret(G, st, kind, sc)
            except (CErr, SemErr) as e: own, bad = None, [str(e)]
            ctx.check(not bad, 'procedure entry and exit', '%s/level %d' % (nm, level), wEnt, 'the code of a procedure with a %s used by nested procedures %s' % (nm, '; '.join(bad)), sample=nm)
            if own is None: continue
            ncls = 'Nvarpar' if mode == 'VarPar' else 'Nvar'
            for at in (level, level + 1, level + 2):
                where_ = 'its own procedure' if at == level else 'a procedure nested %d deep' % (at - level)
                s2 = st.copy(); G.glob(s2, 'OPM.level', C(at))
                n = G.node(s2, ncls, None, typ=typ, obj=sc.x)
                ev = CEval(G, own if at == level else nest, fields if at != level else {})
                def one(res, check, rule, inst, w):
                    if not res: raise Broken('%s: no path' % inst)
                    for toks, t in res:
                        try: tx = G.text(toks); b = check(cexpr.expr(tx, G.istype))
                        except (CErr, SemErr) as e: b = str(e)
                        ctx.check(b is None, rule, '%s/level %d/%d' % (inst, level, at - level), w, '%s in %s is written as %s: %s' % (inst, where_, tx, b), sample='%s in %s: %s' % (inst, where_, tx))
                one(G.emit(s2, n, -1, proc=G.design) if False else G.emit(s2, n, -1), lambda a: denotes(G, st, ev, ev.ev(a), S('x'), typ), 'variable', nm, wCI)
                for p in PRECS:
                    for toks, t in G.emit(s2, n, p):
                        b = G.grouping(toks, 'D', p); ctx.check(b is None, 'grouping', '%s/%d' % (nm, at - level), wD, 'is written as %s: %s' % (G.text(toks), b))
                    if p in (11,): continue
                    r, E = G.run(G.design, s2, {'n': n, 'prec': C(p)})
                    for toks, t in r:
                        b = G.grouping(toks, 'D', p); ctx.check(b is None, 'grouping', '%s/%d' % (nm, at - level), wD, 'is written as %s: %s' % (G.text(toks), b))
                if comp(G, st, typ) == 'DynArr':
                    for d in range(dims(G, st, typ)[0]):
                        r, E = G.run(LenP, s2, {'obj': sc.x, 'array': typ, 'dim': C(d)})
                        one(r, lambda a, d=d: None if ev.ev(a)[1] == ('len', d) else 'it denotes %s' % (ev.ev(a)[1],), 'length', 'LEN(%s, %d)' % (nm, d), ctx.where(LenP))
                if comp(G, st, typ) == 'Array':
                    b = typ; d = 0
                    while comp(G, st, b) == 'Array':
                        nn = st.env[('f', ('*', b), G.S['n'])][1]
                        r, E = G.run(LenP, s2, {'obj': sc.x, 'array': typ, 'dim': C(d)})
                        one(r, lambda a, nn=nn: None if a == ('num', str(nn)) else 'the length is %d' % nn, 'length', 'LEN(%s, %d)' % (nm, d), ctx.where(LenP))
                        b = st.env[('f', ('*', b), G.S['BaseTyp'])]; d += 1
                if comp(G, st, typ) == 'Record':
                    r, E = G.run(TyP, s2, {'ap': sc.x})
                    static = mode != 'VarPar'
                    def tag(a):
                        if static: return None if a == ('id', G.ctof(typ)[0].replace('struct ', '') + '__typ') else 'it is not the descriptor of the type of the variable'
                        return None if ev.ev(a)[1] == ('tag',) else 'it is not the type tag of the parameter'
                    if not static or True: one(r, tag, 'type tag', 'type of ' + nm, ctx.where(TyP))

CLS = ('Nvar', 'Nvarpar', 'Nfield', 'Nindex', 'Nguard')
class Desig:
    def __init__(s, ctx, G): s.ctx, s.G = ctx, G
    def holes_(s, a, out):
        if isinstance(a, tuple):
            if a[:1] == ('id',) and a[1].startswith('$'): out.append(a[1])
            else:
                for x in a: s.holes_(x, out)
        return out
    def case(s, rule, inst, st, n, env, fields, check, ft=None, prec=None, typed=None, kinds=('E', 'D'), precs=PRECS):
        """emit the designator, evaluate it and decide; then its grouping at every precedence"""
        G, ctx = s.G, s.ctx; w = ctx.where(G.design); G.use(st)
        res = G.emit(st, n, -1)
        if not res: raise Broken('%s: no path' % inst)
        for toks, t in res:
            H = {}
            try:
                tx = G.text(toks, H); a = cexpr.expr(tx, G.istype); ev = CEval(G, env, fields); ev.ft = ft or {}; ev.H, ev.t = H, t
                b = check(ev, a)
            except (CErr, SemErr) as e: b = str(e); tx = ' '.join(str(x[1]) for x in toks)[:90] if isinstance(e, CErr) else tx
            ctx.check(b is None, rule, inst, w, '%s is written as %s: %s' % (inst, tx, b), sample='%s: %s' % (inst, tx))
            try: hs = s.holes_(a, [])
            except UnboundLocalError: continue
            for h in sorted(set(hs)):
                if hs.count(h) < 2: continue
                k = H[h]; f = t.facts.get(('s', ('se', k[1])), TOPF)
                pure = f[0] == frozenset([False]) or k[1] in s.pure
                ctx.check(pure, 'evaluated once', inst if h != '$P' else 'pointer to an open array', w, '%s is written as %s, which evaluates the designator %s more than once although it may have side effects' % (inst, tx, h[1:]), sample='%s: %s' % (inst, tx))
        for kd in kinds:
            for p in precs:
                if kd == 'D' and p == 11: continue
                r = G.emit(st, n, p) if kd == 'E' else G.run(G.design, st, {'n': n, 'prec': C(p)})[0]
                for toks, t in r:
                    b = G.grouping(toks, kd, p, typed); ctx.check(b is None, 'grouping', inst, w, '%s is written as %s: %s' % (inst, G.text(toks), b))
    pure = frozenset()

def designators(ctx, G):
    D = Desig(ctx, G)
    # ---- fields
    st = G.start(); kinds = [k for k in var_kinds(G, st) if not k[3]]
    for i in range(len(kinds)):
        for cl in CLS + ('Nderef',):
            st = G.start(); nm, mode, ftyp, par = [k for k in var_kinds(G, st) if not k[3]][i]; G.use(st)
            rec = G.types['TyR']; fo = G.var(st, 'f', ftyp, 'Fld'); G.vars = {fo: 'f'}
            if cl == 'Nderef':
                P = G.leaf(st, 'P', G.types['TyPTR']); l = G.node(st, 'Nderef', None, key='DN', left=P, typ=rec); env = {'$P': ('lv', S('P'), G.ctof(G.types['TyPTR']))}; base = ('deref', S('P'))
            else: l = G.leaf(st, 'D', rec, cls=C(G.c(cl))); env = {'$D': ('lv', S('D'), G.ctof(rec))}; base = S('D')
            n = G.node(st, 'Nfield', None, left=l, obj=fo, typ=ftyp)
            D.case('field', 'field %s of %s' % (nm[6:], cl), st, n, env, {}, lambda ev, a: denotes(G, st, ev, ev.ev(a), ('field', base, 'f_'), ftyp), ft={'f_': G.ctof(ftyp)})
    # ---- dereference
    for cl in CLS:
        for key in ('TyR', 'TyAREC', 'TyARR', 'TyARR2', 'TyAARR', 'TyAARR2', 'TyRARR', 'TyO1', 'TyO2', 'TyO3', 'TyOA', 'TyOR'):
            st = G.start(); var_kinds(G, st); t = G.types[key]; pt = G.pointer(st, 'TyQ', t); G.use(st); G.vars = {}
            P = G.leaf(st, 'P', pt, cls=C(G.c(cl))); n = G.node(st, 'Nderef', None, left=P, typ=t)
            env, fields, loc = popen(G, st, pt, t)
            D.case('dereference', '%s^ of type %s' % (cl, key), st, n, env, fields, lambda ev, a: denotes(G, st, ev, ev.ev(a), loc, t))
            if comp(G, st, t) == 'DynArr':
                LP = ctx.proc('OPV.Len')
                for d in range(dims(G, st, t)[0]):
                    r, E = G.run(LP, st, {'n': n, 'dim': C(d)})
                    for toks, u in r:
                        try: ev = CEval(G, env, fields); b = None if ev.poly(cexpr.expr(G.text(toks), G.istype)) == plen(d) else 'is not that length'
                        except (CErr, SemErr) as e: b = str(e)
                        ctx.check(b is None, 'length', 'LEN(%s^ of type %s, %d)' % (cl, key, d), ctx.where(LP), 'is written as %s: %s' % (G.text(toks), b), sample='LEN(p^, %d): %s' % (d, G.text(toks)))
    # ---- index: fixed arrays
    for o in ((), IC):
        for cl in CLS + ('Nderef',):
            for key in ('TyARR', 'TyARR2', 'TyAARR', 'TyAARR2', 'TyRARR', 'TyPARR'):
                for const in (False, True):
                    st = G.start(o); var_kinds(G, st); t = G.types[key]; G.use(st); G.vars = {}
                    et = st.env[('f', ('*', t), G.S['BaseTyp'])]; N = st.env[('f', ('*', t), G.S['n'])][1]
                    if cl == 'Nderef':
                        pt = G.pointer(st, 'TyQ', t); P = G.leaf(st, 'P', pt); l = G.node(st, 'Nderef', None, key='DN', left=P, typ=t); env, fields, loc = popen(G, st, pt, t)
                    else: l = G.leaf(st, 'D', t, cls=C(G.c(cl))); env = {'$D': ('lv', S('D'), G.ctof(t))}; loc = S('D')
                    I = G.const_(st, 'I', G.typ(st, 'INT32'), ('s', 'index')) if const else G.leaf(st, 'I', G.typ(st, 'INT32'))
                    n = G.node(st, 'Nindex', None, left=l, right=I, typ=et)
                    def chk(ev, a):
                        b = denotes(G, st, ev, ev.ev(a), ('elem', loc, fz(pa('$I')), G.ctof(et)), et)
                        if b: return b
                        if o and not const and [c[:2] for c in ev.checks] != [(fz(pa('$I')), fz(pc(N)))]: return 'the index is not checked against the length %d' % N
                        return None
                    D.case('index', '%s[%s] of %s%s' % (cl, 'constant' if const else 'i', key, '/inxchk' if o else ''), st, n, env, {}, chk)
    # ---- index: open arrays, all numbers of indices, constants and expressions
    for o in ((), IC):
        for key in ('TyO1', 'TyO2', 'TyO3', 'TyOA', 'TyOR', 'TyOP', 'TyO2A'):
            for kind in ('VAR parameter', 'value parameter', 'pointer', 'VAR parameter of an enclosing procedure'):
                nd = {'TyO2': 2, 'TyO3': 3, 'TyO2A': 2}.get(key, 1)
                for k in range(1, nd + 1):
                    for cm in range(1 << k):
                        st = G.start(o, level=2 if 'enclosing' in kind else 1); var_kinds(G, st); t = G.types[key]; G.use(st); G.vars = {}; fields = {}; env = {}
                        el = dims(G, st, t)[1]; ect = G.ctof(el)
                        if kind == 'pointer':
                            pt = G.pointer(st, 'TyQ', t); P = G.leaf(st, 'P', pt); x = G.node(st, 'Nderef', None, key='DN', left=P, typ=t); env, fields, loc = popen(G, st, pt, t); ln = plen
                        else:
                            v = G.var(st, 'x', t, 'Var' if kind[:2] == 'va' else 'VarPar', lev=1, scope=G.rec(st, 'scopeobj', G.O, name=C('P'))); G.vars = {v: 'x'}
                            x = G.node(st, 'Nvar' if kind[:2] == 'va' else 'Nvarpar', None, key='DN', obj=v, typ=t); loc = S('x'); ln = lambda d: pa(repr(('len', d)))
                            d_ = {'x_': ('rv', ('to', loc), (ect[0], ('*',) + ect[1]))}
                            for d in range(nd): d_[lenname(d)] = ('rv', ('len', d), ('ADDRESS', ()))
                            if 'enclosing' in kind: env = {'P_s': ('rv', ('to', ('scope', 'P')), ('struct P', ('*',)))}; fields = {(('scope', 'P'), a): b for a, b in d_.items()}
                            else: env = d_
                        ty = t; p = pc(0); want = []
                        for j in range(k):
                            c = cm >> j & 1; nm = 'I%d' % j
                            I = G.const_(st, nm, G.typ(st, 'INT32'), ('s', 'index%d' % j)) if c else G.leaf(st, nm, G.typ(st, 'INT64'))
                            if c: st.facts[('s', 'index%d' % j)] = (None, frozenset(), 0, 2 ** 31 - 1)
                            ty = st.env[('f', ('*', ty), G.S['BaseTyp'])]
                            x = G.node(st, 'Nindex', None, key='IX%d' % j, left=x, right=I, typ=ty, obj=NIL)
                            p = padd(pmul(p, ln(j)), pa('$' + nm)); want.append((fz(pa('$' + nm)), fz(ln(j)), c, ('s', 'index%d' % j)))
                        for j in range(k, nd): p = pmul(p, ln(j))
                        def chk(ev, a):
                            b = denotes(G, st, ev, ev.ev(a), ('elem', loc, fz(p), ect), ty)
                            if b: return b
                            if not o: return None
                            have = [c[:2] for c in ev.checks]
                            for ix, l, c, iv in want:
                                if c and ev.t.facts.get(iv, TOPF)[2:] == (0, 0): continue          # constant 0
                                if c and ev.t.facts.get(iv, TOPF)[0] == frozenset([0]): continue
                                if (ix, l) not in have: return 'the index %s is not checked against its length' % ix[0][0][0][1:]
                            for c in have:
                                if c not in [w[:2] for w in want]: return 'an index is checked against another length'
                            return None
                        D.case('index', '%s of type %s, %d of %d indices%s%s' % (kind, key, k, nd, ', constants %s' % bin(cm)[2:] if cm else '', '/inxchk' if o else ''), st, x, env, fields, chk, precs=() if cm or o else PRECS if k == nd else PRECS[:-3])       # a sub-array is never asked for at a higher precedence
                        LP = ctx.proc('OPV.Len')
                        for d in range(nd - k):
                            r, E = G.run(LP, st, {'n': x, 'dim': C(d)})
                            for toks, u in r:
                                try: ev = CEval(G, env, fields); b = None if ev.poly(cexpr.expr(G.text(toks), G.istype)) == ln(k + d) else 'is not that length'
                                except (CErr, SemErr) as e: b = str(e)
                                ctx.check(b is None, 'length', 'LEN(%s of type %s with %d indices, %d)' % (kind, key, k, d), ctx.where(LP), 'is written as %s: %s' % (G.text(toks), b), sample='%s' % (G.text(toks),))
def plen(d): return pa(repr(('elem', ('lens', ('deref', S('P'))), fz(pc(d)), ('ADDRESS', ()))))
def popen(G, st, pt, t):
    """environment for a pointer P to t; -> env, fields, location of P^"""
    b = ('deref', S('P')); env = {'$P': ('lv', S('P'), G.ctof(pt))}
    if comp(G, st, t) != 'DynArr': return env, {}, b
    n, e = dims(G, st, t); ec = G.ctof(e)
    G.tn['TyQ'] = ('pointer', t)
    return env, {(b, 'data'): ('lv', ('data', b), (ec[0], (('[', ('num', '1')),) + ec[1])), (b, 'len'): ('lv', ('lens', b), ('ADDRESS', (('[', ('num', str(n))),)))}, ('data', b)

def chain(G, st):
    """R0 <- R1 <- R, pointers to them, and an extension whose record type is anonymous"""
    c = lambda b, k, l, nm=True: G.record(st, k, b, named=nm, extlev=C(l))
    r0 = c(NIL, 'TyR0', 1); r1 = c(r0, 'TyR1', 2); r = c(r1, 'TyR', 3); ra = c(r0, 'TyRA', 4, False)
    return r0, r1, r, ra, G.pointer(st, 'TyP0', r0), G.pointer(st, 'TyP1', r1), G.pointer(st, 'TyP', r), G.pointer(st, 'TyPA', ra)
def place(G, st, where_, typ, mode='VarPar', alias=None):
    """VAR parameter or local x of record or pointer type, seen from its own procedure or a nested one; -> (object, env, fields)"""
    own = where_ == 'own'
    v = G.var(st, 'x', typ, mode, lev=1, scope=G.rec(st, 'scopeobj', G.O, name=C('P')), leaf=own, adr=0 if alias is None else 1); G.vars = {v: 'x'}
    G.glob(st, 'OPM.level', C(1 if own else 2)); G.use(st); ct = G.ctof(typ)
    if mode == 'VarPar': d = {'x_': ('rv', ('to', S('x')), (ct[0], ('*',) + ct[1])), 'x___typ': ('rv', ('tag',), ('ADDRESS', ('*',)))}
    else: d = {'x_': ('lv', S('x'), ct)} if own else {'x_': ('rv', ('to', S('x')), (ct[0], ('*',) + ct[1]))}
    if own: env, fields = d, {}
    else: env = {'P_s': ('rv', ('to', ('scope', 'P')), ('struct P', ('*',)))}; fields = {(('scope', 'P'), k): x for k, x in d.items()}
    if alias is not None: a = G.ctof(alias); env['x___'] = ('rv', ('to', S('x')), (a[0], ('*',) + a[1]))
    return v, env, fields
def guards(ctx, G):
    D = Desig(ctx, G); D.pure = frozenset()
    def setup(o=()):
        st = G.start(o); G.vars = {}; t = chain(G, st); G.use(st); return (st,) + t
    def guarded(ev, want): return None if sorted(ev.guards, key=repr) == sorted(want, key=repr) else 'the type is not tested' if want and not ev.guards else 'it tests %s, not %s' % (' and '.join('%s against %s (level %s)' % (locs(g[0]), g[1], g[2]) for g in ev.guards) or 'nothing', want)
    # ---- pointer guards and tests
    for o in ((), TC):
        for key, rk, lv in (('TyP', 'TyR', 3), ('TyP1', 'TyR1', 2), ('TyPA', 'TyRA', 4)):
            for cl in CLS + ('Ndop',):
                st = setup(o)[0]; L = G.leaf(st, 'L', G.types['TyP0'], cls=C(G.c(cl if cl != 'Ndop' else 'Nvar'))); t = G.types[key]
                n = G.node(st, 'Nguard', None, left=L, typ=t); env = {'$L': ('lv', S('L'), G.ctof(G.types['TyP0']))}
                def chk(ev, a):
                    v = ev.rv(ev.ev(a))
                    if v[1] != ('to', ('deref', S('L'))): return 'it denotes %s' % locs(v[1])
                    if not G.same(G.deref(v[2]), G.ctof(G.types[rk])): return 'it points to %s' % G.ctshow(G.deref(v[2]))
                    return guarded(ev, [(('tagof', ('deref', S('L'))), rk, lv)] if o else [])
                D.case('guard', 'pointer guard %s(%s)%s' % (cl, key, '/typchk' if o else ''), st, n, env, {}, chk, typed={'$L': 'PTR'})
                st = setup(o)[0]; L = G.leaf(st, 'L', G.types['TyP0'], cls=C(G.c(cl if cl != 'Ndop' else 'Nvar')))
                tobj = G.rec(st, 'I:T', G.O, typ=G.types[key], mode=C(G.c('Typ')))
                n = G.node(st, 'Nmop', 'OPS.is', left=L, typ=G.typ(st, 'BOOL'), obj=tobj)
                D.case('type test', 'pointer test %s IS %s%s' % (cl, key, '/typchk' if o else ''), st, n, env, {}, lambda ev, a: None if ev.ev(a)[1] == ('is', ('tagof', ('deref', S('L'))), rk, lv) else 'it is %s' % (ev.ev(a)[1],), kinds=('E',))
    # ---- VAR parameter records
    for o in ((), TC):
        for at in ('own', 'nested'):
            for alias in (None, 'TyR1'):
                for key, lv in (('TyR', 3), ('TyR1', 2)):
                    if alias == key: continue
                    st = setup(o)[0]; t0 = G.types[alias or 'TyR0']; v, env, fields = place(G, st, at, t0, alias=G.types[alias] if alias else None)
                    x = G.node(st, 'Nvarpar', None, key='DN', obj=v, typ=t0); n = G.node(st, 'Nguard', None, left=x, typ=G.types[key])
                    inst = 'x(%s)/%s%s%s' % (key, at, '/with' if alias else '', '/typchk' if o else '')
                    D.case('guard', 'record guard ' + inst, st, n, env, fields, lambda ev, a: denotes(G, st, ev, ev.ev(a), S('x'), G.types[key]) or guarded(ev, [(('tag',), key, lv)] if o else []))
                    tobj = G.rec(st, 'I:T', G.O, typ=G.types[key], mode=C(G.c('Typ')))
                    n = G.node(st, 'Nmop', 'OPS.is', left=x, typ=G.typ(st, 'BOOL'), obj=tobj)
                    D.case('type test', 'record test ' + inst, st, n, env, fields, lambda ev, a: None if ev.ev(a)[1] == ('is', ('tag',), key, lv) else 'it is %s' % (ev.ev(a)[1],), kinds=('E',))
                # the target of a record assignment
                for g in (None, 'TyR'):
                    st = setup(o)[0]; k0 = alias or 'TyR0'; t0 = G.types[k0]; v, env, fields = place(G, st, at, t0, alias=G.types[alias] if alias else None); k = g or k0
                    x = G.node(st, 'Nvarpar', None, key='DN', obj=v, typ=t0); n = G.node(st, 'Neguard', None, left=x, right=NIL, typ=G.types[k])
                    inst = 'target of x%s := v/%s%s%s' % ('(%s)' % g if g else '', at, '/with' if alias else '', '/typchk' if o else '')
                    D.case('guard', inst, st, n, env, fields, lambda ev, a: denotes(G, st, ev, ev.ev(a), S('x'), G.types[k]) or guarded(ev, [(('tag',), k, '=')] if o else []), kinds=())
        for cl in CLS:
            st = setup(o)[0]; P = G.leaf(st, 'P', G.types['TyP'], cls=C(G.c(cl))); x = G.node(st, 'Nderef', None, key='DN', left=P, typ=G.types['TyR'])
            n = G.node(st, 'Neguard', None, left=x, right=NIL, typ=G.types['TyR'])
            D.case('guard', 'target of %s^ := v%s' % (cl, '/typchk' if o else ''), st, n, {'$P': ('lv', S('P'), G.ctof(G.types['TyP']))}, {}, lambda ev, a: denotes(G, st, ev, ev.ev(a), ('deref', S('P')), G.types['TyR']) or guarded(ev, [(('tagof', ('deref', S('P'))), 'TyR', '=')] if o else []), kinds=())
    # ---- the type tag of an actual parameter
    TP = ctx.proc('OPV.TypeOf'); w = ctx.where(TP)
    def tag(inst, st, n, env, fields, want):
        r, E = G.run(TP, st, {'n': n}); 
        for toks, t in r:
            try: tx = G.text(toks); tg = CEval(G, env, fields).tag(cexpr.expr(tx, G.istype)); b = None if tg == want else 'that is %s' % (locs(tg) if tg[0] != 'desc' else 'the descriptor of ' + tg[1])
            except (CErr, SemErr) as e: b = str(e)
            ctx.check(b is None, 'type tag', inst, w, 'the type tag of %s is written as %s: %s' % (inst, tx, b), sample='%s: %s' % (inst, tx))
    for cl in ('Nvar', 'Nindex', 'Nfield'):
        for key in ('TyR', 'TyRA'):
            st = setup()[0]; tag('%s %s' % (cl, key), st, G.leaf(st, 'L', G.types[key], cls=C(G.c(cl))), {}, {}, ('desc', key))
    for cl in CLS:
        st = setup()[0]; P = G.leaf(st, 'P', G.types['TyP'], cls=C(G.c(cl))); env = {'$P': ('lv', S('P'), G.ctof(G.types['TyP']))}
        d = G.node(st, 'Nderef', None, left=P, typ=G.types['TyR'])
        tag('%s^' % cl, st, d, env, {}, ('tagof', ('deref', S('P'))))
        tag('pointer %s' % cl, st, P, env, {}, ('tagof', ('deref', S('P'))))
    for at in ('own', 'nested'):
        st = setup()[0]; v, env, fields = place(G, st, at, G.types['TyR0'])
        x = G.node(st, 'Nvarpar', None, key='DN', obj=v, typ=G.types['TyR0'])
        tag('VAR x/%s' % at, st, x, env, fields, ('tag',))
        tag('VAR x(T)/%s' % at, st, G.node(st, 'Nguard', None, left=x, typ=G.types['TyR']), env, fields, ('tag',))
    # ---- WITH
    W = ctx.proc('OPV.IfStat'); w = ctx.where(W)
    for at in ('own', 'nested'):
        for mode, keys in (('VarPar', ('TyR0', 'TyR1', 'TyR')), ('Var', ('TyP0', 'TyP1', 'TyP'))):
            if mode == 'Var' and at != 'own': continue                       # rejected by the compiler (error 245)
            for alts in (('a',), ('a', 'b'), ('nest',)):
                for els in (False, True):
                    st = setup()[0]; v, env, fields = place(G, st, at, G.types[keys[0]], mode)
                    fo = G.var(st, 'f', G.typ(st, 'INT32'), 'Fld'); G.vars[fo] = 'f'; kv = G.rec(st, 'KV', G.K, intval=C(0))
                    def xn(key, k): 
                        x = G.node(st, 'Nvarpar' if mode == 'VarPar' else 'Nvar', None, key='X' + k, obj=v, typ=G.types[key]); return x
                    def body(key, k):
                        x = xn(key, k)
                        if mode == 'Var': x = G.node(st, 'Nderef', None, key='B' + k, left=x, typ=G.types[key.replace('P', 'R')], obj=NIL)
                        l = G.node(st, 'Nfield', None, key='F' + k, left=x, obj=fo, typ=G.typ(st, 'INT32')); E_ = G.leaf(st, 'E' + k, G.typ(st, 'INT32'))
                        return G.node(st, 'Nassign', 'assign', key='A' + k, left=l, right=E_, link=NIL, conval=kv)
                    def arm(key, k, b, link=NIL):
                        to = G.rec(st, 'I:' + key, G.O, typ=G.types[key], mode=C(G.c('Typ')), name=C(key), linkadr=G.pre, mnolev=C(0))
                        t = G.node(st, 'Nmop', 'OPS.is', key='IS' + k, left=xn(keys[0] if k != 'n2' else keys[1], 'i' + k), obj=to, typ=G.typ(st, 'BOOL'))
                        return G.node(st, 'Nif', None, key='IF' + k, left=t, right=b, link=link)
                    eb = body(keys[0], 'else') if els else NIL
                    if alts == ('nest',):
                        inner = G.node(st, 'Nwith', None, key='W2', left=arm(keys[2], 'n2', body(keys[2], 'n2')), right=NIL, link=NIL, conval=kv, subcl=C(0))
                        first = arm(keys[1], 'n1', inner); plan = [(keys[1], 'n1')]
                    else:
                        nxt = NIL; plan = []
                        for i, k in reversed(list(enumerate(alts))): nxt = arm(keys[1 + i], k, body(keys[1 + i], k), nxt); plan.insert(0, (keys[1 + i], k))
                        first = nxt
                    n = G.node(st, 'Nwith', None, key='W', left=first, right=eb, link=NIL, conval=kv)
                    inst = 'WITH x: %s%s/%s' % (', '.join(p[0] for p in plan), ' nested' if alts == ('nest',) else ' ELSE' if els else '', at)
                    r, E = G.run(W, st, {'n': n, 'withtrap': C(not els), 'outerProc': NIL})
                    if not r: raise Broken(inst)
                    for toks, t in r:
                        tx = G.text(toks)
                        try: b = withcheck(G, st, env, fields, cexpr.stmts(tx, G.istype), plan, els, mode, keys, alts == ('nest',))
                        except (CErr, SemErr) as e: b = str(e)
                        ctx.check(b is None, 'WITH', inst, w, '%s is written as %s: %s' % (inst, ' '.join(tx.split()), b), sample='%s: %s' % (inst, ' '.join(tx.split())))
                        ok = t.env.get(('f', ('*', v), G.O['adr'])) == C(0) and t.env.get(('f', ('*', v), G.O['typ'])) == G.types[keys[0]]
                        ctx.check(ok, 'WITH', inst + '/restored', w, 'after the statement the variable does not have its own name and type again')
def withcheck(G, st, env, fields, ast, plan, els, mode, keys, nest):
    s = ast[1]
    if len(s) != 1: return 'one statement expected'
    s = s[0]; base = {'TyR': 3, 'TyR1': 2, 'TyP': 3, 'TyP1': 2}
    def block(b): return b[1][1] if b and b[0] == 'block' else (b,) if b else ()
    def trap(b): return len(block(b)) == 1 and block(b)[0][0] == 'expr' and block(b)[0][1] == ('id', '__WITHCHK')
    def assign(b, env, k):
        env = dict(env)
        for x in b[:-1]:
            if x[0] != 'decl': raise SemErr('contains %s' % (x,))
            for n, d, i in x[3]:
                v = CEval(G, env, fields); v = v.rv(v.ev(i)); env[n] = ('rv', v[1], G.ctype(x[2], d))
        x = b[-1]
        if x[0] == 'if': return env, x
        if x[0] != 'expr' or x[1][0] != 'assign' or x[1][1] != '=' or x[1][3] != ('id', '$E' + k): raise SemErr('the statement sequence of the guard is not executed')
        ev = CEval(G, env, fields); ev.ft = {'f_': ('INT32', ())}; l = ev.ev(x[1][2])
        want = ('field', S('x') if mode == 'VarPar' else ('deref', S('x')), 'f_')
        if l[1] != want: raise SemErr('under the guard x.f denotes %s' % locs(l[1]))
        return env, ev
    def typed(b, key, env):
        """the type x has in C inside the guarded statements"""
        a = b[-1][1][2]
        while a[0] == 'mem' and a[1] == '.' and a[2][0] == 'un': a = a[2]
        ev = CEval(G, env, fields); x = a[2]; v = ev.ev(x); t = v[2]
        t = G.deref(t) if G.isptr(t) else t
        if not G.same(t, G.ctof(G.types[key.replace('P', 'R')])): raise SemErr('under the guard x has the C type %s' % G.ctshow(t))
    for i, (key, k) in enumerate(plan):
        if s is None or s[0] != 'if': return 'no test of %s' % key
        ev = CEval(G, env, fields); t = ev.ev(s[1])[1]
        want = ('is', ('tag',) if mode == 'VarPar' else ('tagof', ('deref', S('x'))), key.replace('P', 'R'), base[key])
        if t != want: return 'tests %s, not %s' % (t, want)
        e2, x = assign(block(s[2]), env, k)
        if nest:
            t = CEval(G, e2, fields).ev(x[1])[1]; want = want[:2] + (keys[2].replace('P', 'R'), 3)
            if t != want: return 'the inner WITH tests %s' % (t,)
            e3, y = assign(block(x[2]), e2, 'n2'); typed(block(x[2]), keys[2], e3)
            if not trap(x[3]): return 'no trap when no guard of the inner WITH holds'
        else: typed(block(s[2]), key, e2)
        s = s[3]
    if els:
        if s is None: return 'the ELSE part is missing'
        assign(block(s), env, 'else')
    elif not trap(s): return 'no trap when no guard holds'
    return None

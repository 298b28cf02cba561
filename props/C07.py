"""Declarations: declaration sequences are taken through the parser with the real scope and symbol table procedures; a sequence has to be
rejected exactly when a rule of the language forbids it, and the objects and types entered for an accepted one have to be those it declares
(read off the source by an independent parser of declarations)."""
from oblib.comp import *
LEVEL = 'other'
class Decl(Comp):
    def engine(s, **kw):
        e = super().engine(**kw); H = e.handlers
        for x in ('OPT.Find', 'OPT.FindField', 'OPB.StaticLink'): H.pop(x, None)
        p = s.ctx.proc('OPT.Find'); nm = ('g', s.ctx.obj('OPS.name'))
        def find(E, n, a, st):
            """the scopes, then the predeclared identifiers"""
            r = []
            for v, t in E.inline(p, list(p.params), a, st, n):
                if E.norm(t, E.load(t, a[0][1])) == NIL: t = t.copy(); E.store(t, a[0][1], s.idents.get(E.load(t, nm)[1], NIL), n.uid)
                r.append((v, t))
            return r
        H['OPT.Find'] = find
        return e
    def policy(s, o):
        if o.qname() in ('OPT.Find', 'OPT.FindField', 'OPT.OpenScope', 'OPT.CloseScope', 'OPT.FindImport'): return 'inline'
        return super().policy(o)
class Module:
    """an empty module scope"""
    def __init__(s, ctx, system=True):
        s.ctx = ctx; s.G = G = Decl(ctx); s.st = st = G.begin((), 0); G.predeclare(st)
        for k, v in G.types.items():
            for f, d in (('mno', C(0)), ('extlev', C(0)), ('pvused', C(False)), ('pbused', C(False))):
                if ('f', ('*', v), G.S[f]) not in st.env: G.setf(st, v, G.S, f, d)
        s.top = G.rec(st, 'TOP', G.O, name=C('M'), mode=C(G.c('Head')), mnolev=C(0), link=NIL, left=NIL, right=NIL, scope=NIL, typ=NIL, adr=C(0), leaf=C(False))
        for n, v in (('OPT.topScope', s.top), ('OPP.TDinit', NIL), ('OPP.lastTDinit', NIL), ('OPT.notyp', G.types['NOTYP']), ('OPP.nofFwdPtr', C(0)), ('OPT.SYSimported', C(system)), ('OPM.noerr', C(True)), ('OPP.LoopLevel', C(0))): G.glob(st, n, v)
        # an imported record type, its pointer, and a module
        r = G.record(st, 'IR'); G.setf(st, r, G.S, 'mno', C(1)); G.setf(st, r, G.S, 'extlev', C(0)); G.setf(st, r, G.S, 'BaseTyp', NIL)
        q = G.pointer(st, 'IP', r); G.setf(st, q, G.S, 'mno', C(1)); G.setf(st, q, G.S, 'extlev', C(0))
        for n, t in (('IR', r), ('IP', q)): G.idents[n] = G.rec(st, 'N:' + n, G.O, name=C(n), mode=C(G.c('Typ')), typ=t, mnolev=C(-1), leaf=C(True), vis=C(G.c('external')), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL)
        for t in (r, q):
            for f in ('pvused', 'pbused'): G.setf(st, t, G.S, f, C(False))
        G.use(st)
        s.basic = {v: k for k, v in G.types.items()}
    def decl(s, text):
        """-> [(errors, state)]"""
        r = [([y for y in e if not (isinstance(y, int) and y < 0)], t) for x, e, t in s.G.parse_(s.st, text, 'OPP.Block', 'procdec')]
        if not r: raise Broken('no path through ' + text)
        return r
    # ---- what was entered
    def get(s, t, o, f, tab='O'): return s.G.E0.norm(t, s.G.E0.load(t, ('f', ('*', o), getattr(s.G, tab)[f])))
    def scope(s, t, head):
        r = {}
        def walk(o):
            if o == NIL: return
            n = s.get(t, o, 'name')
            if not isc(n) or n[1] in r: raise Broken('symbol table of unknown shape')
            r[n[1]] = o; walk(s.get(t, o, 'left')); walk(s.get(t, o, 'right'))
        walk(s.get(t, head, 'right')); return r
    def tdesc(s, t, v, top=False):
        G = s.G
        if v in s.basic and s.basic[v] not in ('IR', 'IP'): return s.basic[v]
        so = s.get(t, v, 'strobj', 'S')
        if not top and so != NIL:
            n = s.get(t, so, 'name')
            if isc(n) and n[1] != '': return n[1]
        form = s.get(t, v, 'form', 'S'); comp = s.get(t, v, 'comp', 'S'); b = lambda: s.tdesc(t, s.get(t, v, 'BaseTyp', 'S'))
        if form == C(G.m('Pointer')): return ('pointer', b())
        if form == C(G.m('ProcTyp')): return ('procedure', s.params(t, s.get(t, v, 'link', 'S')), b())
        if comp == C(G.m('Array')): return ('array', s.get(t, v, 'n', 'S')[1], b())
        if comp == C(G.m('DynArr')): return ('open', s.get(t, v, 'n', 'S')[1], b())
        if comp == C(G.m('Record')):
            base = s.get(t, v, 'BaseTyp', 'S'); fs = []; o = s.get(t, v, 'link', 'S')
            while o != NIL and s.get(t, o, 'mode') == C(G.c('Fld')):
                fs.append((s.get(t, o, 'name')[1], s.get(t, o, 'vis')[1], s.tdesc(t, s.get(t, o, 'typ')))); o = s.get(t, o, 'link')
            return ('record', None if base == NIL else s.tdesc(t, base), s.get(t, v, 'extlev', 'S')[1], tuple(fs))
        return ('?', form, comp)
    def params(s, t, o):
        r = []
        while o != NIL:
            m = s.get(t, o, 'mode'); r.append((s.get(t, o, 'name')[1], m == C(s.G.c('VarPar')) and 'VAR' or m == C(s.G.c('Var')) and 'value' or m, s.tdesc(t, s.get(t, o, 'typ')))); o = s.get(t, o, 'link')
        return tuple(r)
    MODES = {'Var': 'variable', 'Con': 'constant', 'Typ': 'type', 'LProc': 'procedure', 'XProc': 'exported procedure', 'TProc': 'method', 'CProc': 'code procedure'}
    def odesc(s, t, o):
        G = s.G; m = s.get(t, o, 'mode'); k = next((d for n, d in s.MODES.items() if m == C(G.c(n))), m)
        r = [k, s.get(t, o, 'vis')[1], s.get(t, o, 'mnolev')[1]]; ty = s.get(t, o, 'typ')
        if k == 'type':
            own = s.get(t, ty, 'strobj', 'S') == o
            r.append(s.tdesc(t, ty, own))
        elif k == 'constant':
            kv = s.get(t, o, 'conval'); r += [s.tdesc(t, ty), s.G.E0.norm(t, s.G.E0.load(t, ('f', ('*', kv), G.K['intval'])))[1]]
        elif 'procedure' in k or k == 'method': r += [s.params(t, s.get(t, o, 'link')), s.tdesc(t, ty)]
        else: r.append(s.tdesc(t, ty))
        return tuple(r)
    def entered(s, t, head=None):
        """everything in a scope, with the scopes of procedures and the methods of records"""
        G = s.G; head = head or s.top; r = {}
        for n, o in s.scope(t, head).items():
            d = s.odesc(t, o); r[n] = d
            if 'procedure' in d[0]: r[n] = d + (tuple(sorted(s.inner(t, o).items())),)
            if d[0] == 'type' and isinstance(d[3], tuple) and d[3][0] == 'record':
                def walk(x):
                    if x == NIL: return
                    if s.get(t, x, 'mode') == C(G.c('TProc')):
                        m = s.odesc(t, x); r[n + '.' + s.get(t, x, 'name')[1]] = m + (tuple(sorted(s.inner(t, x).items())),)
                    walk(s.get(t, x, 'left')); walk(s.get(t, x, 'right'))
                walk(s.get(t, s.get(t, o, 'typ'), 'link', 'S'))
        return r
    def inner(s, t, o):
        sc = s.get(t, o, 'scope')
        if sc == NIL or not (isinstance(sc, tuple) and sc[0] == 's'): return {}
        ps = set(); p = s.get(t, o, 'link')
        while p != NIL: ps.add(p); p = s.get(t, p, 'link')
        r = s.entered(t, sc); names = {s.get(t, p, 'name')[1] for p in ps}
        return {n: d for n, d in r.items() if n.split('.')[0] not in names}
# ---------------------------------------------------------------- an independent reading of declarations
TOK = re.compile(r"\s*([A-Za-z]\w*|\d+|'[^']*'|:=|[-+*/=.,:;()^{}])")
class Reader:
    """what a (legal) declaration sequence declares"""
    def __init__(s, text, basic):
        s.t = TOK.findall(text); s.i = 0; s.basic = basic; s.types = {'IR': ('record', None, 0, ()), 'IP': ('pointer', 'IR')}; s.alias = {}; s.consts = {}
    def sym(s): return s.t[s.i] if s.i < len(s.t) else ''
    def next(s): s.i += 1; return s.t[s.i - 1]
    def take(s, x):
        if s.sym() == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.take(x): raise Broken('reader: %s expected at %s' % (x, ' '.join(s.t[s.i:s.i + 5])))
    def mark(s): return 1 if s.take('*') else 2 if s.take('-') else 0
    def name(s, n):
        if n == 'SYSTEM': s.need('.'); n = s.next()
        if n in s.alias: return s.alias[n]
        return s.basic.get(n, n) if n not in s.types else n
    def type(s):
        w = s.next()
        if w == 'ARRAY':
            if s.take('OF'):
                e = s.type(); d = e if isinstance(e, tuple) else s.types.get(e)
                return ('open', d[1] + 1 if isinstance(d, tuple) and d[0] == 'open' else 0, e)
            ns = [s.length()]
            while s.take(','):
                if s.sym() == 'OF': break
                ns.append(s.length())
            s.need('OF'); e = s.type()
            for n in reversed(ns): e = ('array', n, e)
            return e
        if w == 'RECORD':
            b = None; lev = 0
            if s.take('('):
                b = s.name(s.next()); s.need(')'); d = s.types[b]; lev = d[2] + 1
            fs = []
            while s.sym() != 'END':
                if s.take(';'): continue
                ns = [(s.next(), s.mark())]
                while s.take(','): ns.append((s.next(), s.mark()))
                s.need(':'); e = s.type(); fs += [(n, v, e) for n, v in ns]
            s.need('END'); return ('record', b, lev, tuple(fs))
        if w == 'POINTER': s.need('TO'); return ('pointer', s.type())
        if w == 'PROCEDURE': return ('procedure',) + (s.formals() if s.sym() == '(' else ((), 'NOTYP'))
        return s.name(w)
    def length(s):
        w = s.next(); n = int(w) if w.isdigit() else s.consts[w]
        while s.sym() in ('+', '*'):
            o = s.next(); w = s.next(); k = int(w) if w.isdigit() else s.consts[w]; n = n + k if o == '+' else n * k
        return n
    def formals(s):
        s.need('('); r = []
        while s.sym() != ')':
            if s.take(';'): continue
            m = 'VAR' if s.take('VAR') else 'value'; ns = [s.next()]
            while s.take(','): ns.append(s.next())
            s.need(':'); e = s.type(); r += [(n, m, e) for n in ns]
        s.need(')'); res = 'NOTYP'
        if s.take(':'): res = s.name(s.next())
        return tuple(r), res
    def block(s, lev):
        r = {}; saved = dict(s.types), dict(s.alias), dict(s.consts)
        while s.sym() in ('CONST', 'TYPE', 'VAR'):
            k = s.next()
            while s.sym() not in ('CONST', 'TYPE', 'VAR', 'PROCEDURE', 'BEGIN', 'END'):
                n = s.next(); v = s.mark()
                if k == 'CONST': s.need('='); c = s.length(); s.consts[n] = c; r[n] = ('constant', v, lev, 'INT8' if c < 128 else 'INT16', c)
                elif k == 'TYPE':
                    s.need('='); e = s.type()
                    r[n] = ('type', v, lev, e)
                    if isinstance(e, tuple): s.types[n] = e; s.alias.pop(n, None)
                    else: s.alias[n] = e
                else:
                    ns = [(n, v)]
                    while s.take(','): ns.append((s.next(), s.mark()))
                    s.need(':'); e = s.type()
                    for n, v in ns: r[n] = ('variable', v, lev, e)
                s.need(';')
        while s.take('PROCEDURE'):
            fwd = s.take('^'); code = s.take('-'); rec = None
            if s.sym() == '(':
                s.need('('); m = 'VAR' if s.take('VAR') else 'value'; rn = s.next(); s.need(':'); rt = s.name(s.next()); s.need(')'); rec = (rn, m, rt)
            n = s.next(); v = s.mark(); ps, res = s.formals() if s.sym() == '(' else ((), 'NOTYP')
            s.need(';'); inner = {}
            if not fwd and not code:
                inner = s.block(lev + 1); s.next(); s.need(';')
            if rec:
                b = rt if s.types[rt][0] == 'record' else s.types[rt][1]
                r[b + '.' + n] = ('method', v, 0, (rec,) + ps, res, tuple(sorted(inner.items())))
            else: r[n] = ('exported procedure' if v else 'procedure', v, lev, ps, res, tuple(sorted(inner.items())))
        if s.take('BEGIN'):
            while s.sym() != 'END': s.next()
        s.need('END'); s.types, s.alias, s.consts = saved
        return r
BASICN = {'BOOLEAN': 'BOOL', 'CHAR': 'CHAR', 'SHORTINT': 'INT8', 'INTEGER': 'INT16', 'LONGINT': 'INT32', 'HUGEINT': 'INT64', 'REAL': 'REAL', 'LONGREAL': 'LREAL', 'SET': 'SET32', 'BYTE': 'BYTE', 'INT32': 'INT32'}
class J:
    def __init__(s, ctx, **kw): s.ctx = ctx; s.M = Module(ctx, **kw)
    def case(s, rule, inst, text, ok, where='OPP.Block', check=True):
        """the declarations are accepted iff ok; what they enter is what they declare"""
        M, ctx = s.M, s.ctx; rs = M.decl(text + ' M'); bad = None
        for e, t in rs:
            if (not e) != bool(ok): bad = 'rejected (error %s)' % ', '.join(map(str, e)) if e else 'accepted'
            elif ok and t.env[POS][1] < len(M.G.toks): bad = 'not read to its end'
            elif ok and check:
                have = M.entered(t); want = Reader(text, BASICN).block(0)
                for n in sorted(set(have) | set(want)):
                    if have.get(n) != want.get(n): bad = 'entered with %s as %s, not %s' % (n, have.get(n), want.get(n)); break
        ctx.check(bad is None, rule, inst, ctx.where(ctx.proc(where)), '%s is %s' % (text, bad), sample='%s: %s' % (text, 'legal' if ok else 'rejected'))
# ---------------------------------------------------------------- rules
KINDS = {'constant': 'CONST %s = 1;', 'type': 'TYPE %s = INTEGER;', 'record': 'TYPE %s = RECORD END;', 'variable': 'VAR %s: CHAR;', 'procedure': 'PROCEDURE %s; END %s;'}
def dec(k, n): return KINDS[k].replace('%s', n)
def order(*ds): return ' '.join(sorted(ds, key=lambda d: d.startswith('PROCEDURE')))
def scopes(ctx):
    j = J(ctx)
    for a in KINDS:
        for b in KINDS:
            for x, y in ((a, b),) if b != 'procedure' else ((a, b),):
                if a == 'procedure' and b != 'procedure': continue
                j.case('two names', '%s, %s' % (a, b), dec(a, 'x') + ' ' + dec(b, 'y') + ' END', True, 'OPT.Insert')
                j.case('name declared twice', '%s, %s' % (a, b), dec(a, 'x') + ' ' + dec(b, 'x') + ' END', False, 'OPT.Insert')
                j.case('name declared twice', '%s, %s in a procedure' % (a, b), 'PROCEDURE P; ' + dec(a, 'x') + ' ' + dec(b, 'x') + ' END P; END', False, 'OPT.Insert')
        for b in KINDS:
            o, i = dec(a, 'x'), dec(b, 'x'); p = 'PROCEDURE P; %s END P;' % i
            if a == 'procedure': j.case('inner scope', '%s, %s' % (a, b), o + ' ' + p + ' END', True, 'OPT.Find'); j.case('inner scope', '%s after %s' % (a, b), p + ' ' + o + ' END', True, 'OPT.Find')
            else: j.case('inner scope', '%s, %s' % (a, b), o + ' ' + p + ' END', True, 'OPT.Find')
            j.case('inner scope', 'two procedures: %s, %s' % (a, b), 'PROCEDURE P; %s END P; PROCEDURE Q; %s END Q; END' % (o, i), True, 'OPT.Find')
            j.case('inner scope', 'three levels: %s, %s' % (a, b), 'PROCEDURE P; PROCEDURE Q; %s END Q; %s END P; END' % (i, dec('procedure', 'R')), True, 'OPT.Find')
        for f in ('x: INTEGER', 'VAR x: INTEGER', 'y, x: CHAR', 'y: CHAR; x: INTEGER', 'x: CHAR; y: INTEGER'):
            j.case('parameter and local of one name', '%s, %s' % (f, a), 'PROCEDURE P(%s); %s END P; END' % (f, dec(a, 'x')), False, 'OPT.Insert'); j.case('parameter and local', '%s, %s' % (f, a), 'PROCEDURE P(%s); %s END P; END' % (f, dec(a, 'z')), True, 'OPT.Insert')
            j.case('inner scope', 'parameter %s, %s' % (f, a), 'PROCEDURE P(%s); PROCEDURE Q; %s END Q; END P; END' % (f, dec(a, 'x')), True, 'OPT.Find')
        if a != 'procedure':
            j.case('inner scope', 'parameter and global ' + a, dec(a, 'x') + ' PROCEDURE P(x: CHAR); END P; END', True, 'OPT.Find'); j.case('inner scope', 'field and global ' + a, dec(a, 'x') + ' TYPE T = RECORD x: CHAR END; END', True, 'OPT.Find')
        # declared before use
        use = {'constant': ('CONST c = x; ', 'VAR v: ARRAY x OF CHAR; '), 'type': ('VAR v: x; ', 'TYPE S = x; ', 'TYPE S = RECORD f: x END; ', 'TYPE S = ARRAY 2 OF x; ', 'PROCEDURE Q(p: x); END Q; '), 'record': ('VAR v: x; ', 'TYPE S = RECORD (x) END; ', 'TYPE S = RECORD f: x END; '), 'variable': ('PROCEDURE Q; BEGIN x := \'a\' END Q; ',), 'procedure': ('PROCEDURE Q; BEGIN x END Q; ',)}[a]
        for u in use:
            d = dec(a, 'x') + ' '
            if not (u.startswith('PROC') and not d.startswith('PROC')): j.case('use before declaration', u + d, u + d + 'END', False, 'OPT.Find')
            if not d.startswith('PROC') or u.startswith('PROC'): j.case('use after declaration', d + u, d + u + 'END', True, 'OPT.Find')
            j.case('undeclared', u, u + 'END', False, 'OPT.Find'); j.case('undeclared', u + ' in a procedure', 'PROCEDURE P; %s END P; END' % u, False, 'OPT.Find')
            if u.startswith('PROC') or not d.startswith('PROC'): j.case('use after declaration', 'global %s, %s' % (d, u), order(d, 'PROCEDURE P; %s END P; ' % u) + 'END', True, 'OPT.Find')
            j.case('scope ends with its procedure', d + u, 'PROCEDURE P; %s END P; PROCEDURE R; %s END R; END' % (d, u), False, 'OPT.CloseScope'); j.case('scope ends with its procedure', 'inner %s, %s' % (d, u), 'PROCEDURE O; PROCEDURE P; %s END P; PROCEDURE R; %s END R; END O; END' % (d, u), False, 'OPT.CloseScope')
            j.case('scope of a procedure', d + u, 'PROCEDURE O; %s PROCEDURE R; %s END R; END O; END' % (d, u), True, 'OPT.Find') if not d.startswith('PROC') else None
            if u.startswith('PROC') or not d.startswith('PROC'): j.case('scope of a procedure', 'deep %s, %s' % (d, u), 'PROCEDURE O; %s PROCEDURE R; PROCEDURE S; %s END S; END R; END O; END' % (d, u), True, 'OPT.Find')
    for u in ('BEGIN x := 1', 'PROCEDURE Q; BEGIN x := 1 END Q; BEGIN Q'):
        j.case('scope ends with its procedure', 'parameter, ' + u, 'PROCEDURE P(x: INTEGER); END P; %s END' % u, False, 'OPT.CloseScope'); j.case('scope ends with its procedure', 'VAR parameter, ' + u, 'PROCEDURE P(VAR x: INTEGER); END P; %s END' % u, False, 'OPT.CloseScope')
        j.case('scope ends with its procedure', 'field, ' + u, 'TYPE T = RECORD x: INTEGER END; %s END' % u, False, 'OPT.CloseScope'); j.case('scope ends with its procedure', 'parameter of a procedure type, ' + u, 'TYPE T = PROCEDURE (x: INTEGER); %s END' % u, False, 'OPT.CloseScope')
    # the innermost declaration is the one meant
    for a, b in (('INTEGER', 'BOOLEAN'), ('BOOLEAN', 'INTEGER')):
        v = {'INTEGER': '1', 'BOOLEAN': 'TRUE'}
        for x in v:
            j.case('innermost declaration', 'local %s, global %s := %s' % (a, b, x), 'VAR x: %s; PROCEDURE P; VAR x: %s; BEGIN x := %s END P; END' % (b, a, v[x]), a == x, 'OPT.Find'); j.case('innermost declaration', 'after the local %s, global %s := %s' % (a, b, x), 'VAR x: %s; PROCEDURE P; VAR x: %s; BEGIN END P; BEGIN x := %s END' % (b, a, v[x]), b == x, 'OPT.Find')
            j.case('innermost declaration', 'parameter %s, global %s := %s' % (a, b, x), 'VAR x: %s; PROCEDURE P(x: %s); BEGIN x := %s END P; END' % (b, a, v[x]), a == x, 'OPT.Find')
            j.case('innermost declaration', 'parameter %s of an inner procedure, local %s := %s' % (a, b, x), 'PROCEDURE O; VAR x: %s; PROCEDURE P(x: %s); END P; BEGIN x := %s END O; END' % (b, a, v[x]), b == x, 'OPT.Find')
            j.case('innermost declaration', 'outer local %s seen inside := %s' % (a, x), 'VAR x: %s; PROCEDURE O; VAR x: %s; PROCEDURE P; PROCEDURE Q; BEGIN x := %s END Q; END P; END O; END' % (b, a, v[x]), a == x, 'OPT.Find')
    for fs in ('p, p: INTEGER', 'p: INTEGER; p: CHAR', 'VAR p: INTEGER; p: CHAR', 'p: INTEGER; q: CHAR; VAR p: INTEGER'):
        j.case('name declared twice', 'parameters ' + fs, 'PROCEDURE P(%s); END P; END' % fs, False, 'OPT.Insert'); j.case('name declared twice', 'procedure type ' + fs, 'TYPE T = PROCEDURE (%s); END' % fs, False, 'OPT.Insert')
        g = fs.replace('VAR ', '')
        j.case('name declared twice', 'fields ' + g, 'TYPE T = RECORD %s END; END' % g, False, 'OPT.Insert'); j.case('name declared twice', 'inherited field ' + g, 'TYPE B = RECORD p: INTEGER END; T = RECORD (B) %s END; END' % g.replace('p', 'r', 1), False, 'OPT.FindField')
    for n in range(1, 5):
        b = ' '.join('T%d = RECORD (T%d) f%d: INTEGER END;' % (i, i - 1, i) for i in range(1, n)); b = 'TYPE T0 = RECORD f0: INTEGER END; ' + b
        for i in range(n + 1): j.case('name declared twice' if i < n else 'fields', 'field f%d, %d extensions' % (i, n), b + ' T%d = RECORD (T%d) g, f%d: CHAR END; END' % (n, n - 1, i), i == n, 'OPT.FindField')
    j.case('fields', 'of two records', 'TYPE T = RECORD x: INTEGER END; S = RECORD x: CHAR END; END', True); j.case('fields', 'of a nested record', 'TYPE T = RECORD x: RECORD x: INTEGER END; y: RECORD x: CHAR END END; END', True); j.case('fields', 'of an extension of another record', 'TYPE T = RECORD x: INTEGER END; S = RECORD END; U = RECORD (S) x: CHAR END; END', True)
    for d in ('VAR P: INTEGER;', 'CONST P = 1;', 'TYPE P = CHAR;'): j.case('inner scope', 'name of the procedure itself, ' + d, 'PROCEDURE P; %s END P; END' % d, True)
    j.case('inner scope', 'parameter with the name of the procedure', 'PROCEDURE P(P: INTEGER); END P; END', True); j.case('undeclared', 'no recursion in a constant', 'CONST c = c; END', False); j.case('undeclared', 'no recursion in a constant', 'CONST c = c + 1; END', False)
    j.case('use after declaration', 'recursion', 'PROCEDURE P; BEGIN P END P; END', True); j.case('use after declaration', 'call of an outer procedure', 'PROCEDURE P; PROCEDURE Q; BEGIN P; Q END Q; BEGIN Q END P; END', True)
    for n in ('P', 'Q', 'PP', 'p', 'O'):
        j.case('name at the end', 'PROCEDURE P ... END ' + n, 'PROCEDURE P; END %s; END' % n, n == 'P', 'OPP.ProcedureDeclaration'); j.case('name at the end', 'inner procedure P ... END ' + n, 'PROCEDURE O; PROCEDURE P; END %s; END O; END' % n, n == 'P', 'OPP.ProcedureDeclaration'); j.case('name at the end', 'method P ... END ' + n, 'TYPE T = RECORD END; PROCEDURE (VAR r: T) P; END %s; END' % n, n == 'P', 'OPP.ProcedureDeclaration')
    j.case('name at the end', 'none', 'PROCEDURE P; END; END', False)
def types(ctx):
    j = J(ctx)
    E = ('INTEGER', 'CHAR', 'ARRAY 3 OF REAL', 'RECORD a: CHAR END', 'POINTER TO RECORD END', 'PROCEDURE', 'SET', 'ARRAY 2, 4 OF BOOLEAN', 'POINTER TO ARRAY OF CHAR')
    O = ('ARRAY OF INTEGER', 'ARRAY OF ARRAY OF CHAR', 'ARRAY OF ARRAY OF ARRAY OF REAL', 'ARRAY OF ARRAY 3 OF INTEGER', 'ARRAY OF RECORD END')
    for t in E + O:
        o = t in O
        for i, (c, ok) in enumerate((('VAR v: %s;', not o), ('TYPE T = %s; VAR v: T;', not o), ('TYPE T = RECORD f: %s END;', not o), ('TYPE T = %s; R = RECORD f: T END;', not o), ('TYPE R = RECORD a: CHAR; f, g: %s; h: CHAR END;', not o), ('TYPE T = ARRAY 3 OF %s;', not o), ('TYPE T = ARRAY 2, 3 OF %s;', not o), ('TYPE S = %s; T = ARRAY 3 OF S;', not o), ('TYPE S = %s; T = S; VAR v: ARRAY 2 OF T;', not o),
                ('TYPE T = %s;', True), ('TYPE T = ARRAY OF %s;', True), ('TYPE T = ARRAY OF ARRAY OF %s;', True), ('TYPE T = %s; PROCEDURE P(p: T); END P;', True), ('TYPE T = %s; PROCEDURE P(VAR p: T); END P;', True), ('PROCEDURE P(VAR p: %s); END P;', True), ('PROCEDURE P(p: %s; q: CHAR); END P;', True), ('TYPE T = PROCEDURE (a: %s);', True), ('TYPE T = PROCEDURE (VAR a: %s);', True), ('PROCEDURE P; VAR v: %s; END P;', not o), ('PROCEDURE P; TYPE T = %s; PROCEDURE Q(VAR p: T); END Q; END P;', True), ('TYPE T = POINTER TO RECORD f: %s END;', not o), ('TYPE T = POINTER TO ARRAY 3 OF %s;', not o), ('TYPE T = POINTER TO ARRAY OF %s;', True))):
            j.case('open array' if o else 'type', '%s: %s' % (c, t), c % t + ' END', ok, 'OPP.Type')
        b = 'ARRAY' in t and 'POINTER' not in t or t.startswith('RECORD') or t.startswith('POINTER TO A') and False
        for c in ('TYPE T = POINTER TO %s;', 'VAR v: POINTER TO %s;', 'TYPE B = %s; T = POINTER TO B;', 'TYPE B = %s; C = B; VAR v: POINTER TO C;', 'TYPE R = RECORD f: POINTER TO %s END;', 'PROCEDURE P(p: POINTER TO %s); END P;'): j.case('pointer base type', c % t, c % t + ' END', b, 'OPP.PointerType')
        # forward
        if ' = ' not in t:
            for c in ('TYPE T = POINTER TO B; B = %s;', 'TYPE T = POINTER TO B; U = POINTER TO B; B = %s;', 'TYPE T = POINTER TO B; S = RECORD t: T END; B = %s;', 'TYPE T = POINTER TO B; VAR v: T; TYPE B = %s;', 'PROCEDURE P; TYPE T = POINTER TO B; B = %s; END P;'): j.case('forward pointer base type', c % t, c % t + ' END', b, 'OPP.Block')
    for c in ('TYPE T = POINTER TO B;', 'TYPE T = POINTER TO B; U = POINTER TO C; C = RECORD END;', 'TYPE T = POINTER TO B; VAR B: CHAR;', 'TYPE T = POINTER TO B; CONST B = 1;', 'TYPE T = POINTER TO B; PROCEDURE B; END B;', 'TYPE T = POINTER TO B; PROCEDURE P; TYPE B = RECORD END; END P;', 'PROCEDURE P; TYPE T = POINTER TO B; PROCEDURE Q; TYPE B = RECORD END; END Q; END P;', 'VAR v: POINTER TO B;', 'VAR v: POINTER TO B; TYPE C = RECORD END;', 'PROCEDURE P(p: POINTER TO B); END P;', 'PROCEDURE ^P(p: POINTER TO B); PROCEDURE P(p: POINTER TO B); END P;', 'TYPE T = POINTER TO B; U = POINTER TO B;', 'PROCEDURE P; TYPE T = POINTER TO B; VAR v: T; END P;'): j.case('forward pointer base type', 'never declared: ' + c, c + ' END', False, 'OPP.Block')
    for c, ok in (('CONST B = 1; TYPE T = POINTER TO B;', False), ('VAR B: CHAR; t: POINTER TO B;', False), ('TYPE T = POINTER TO T;', False), ('TYPE T = POINTER TO RECORD n: T END;', True), ('TYPE T = POINTER TO ARRAY 3 OF T;', True), ('TYPE T = POINTER TO ARRAY OF T;', True), ('TYPE T = POINTER TO B; B = RECORD n: T END;', True), ('TYPE T = POINTER TO B; B = RECORD n: POINTER TO B END;', True), ('TYPE B = RECORD n: POINTER TO B END;', True), ('TYPE B = ARRAY 3 OF POINTER TO B;', True), ('TYPE T = POINTER TO IR;', True), ('TYPE T = POINTER TO IP;', False), ('PROCEDURE P; END P; BEGIN END', True)): j.case('pointer base type', c, c + (' END' if not c.endswith('END') else ''), ok, 'OPP.PointerType')
    j.case('forward pointer base type', 'FwdPtr of an inner procedure', 'TYPE T = POINTER TO B; B = RECORD END; PROCEDURE P; TYPE U = POINTER TO C; V = POINTER TO B; C = RECORD (B) END; END P; END', True)
    for n in (1, 5, 20): j.case('forward pointer base type', '%d of them' % n, 'TYPE ' + ' '.join('T%d = POINTER TO B%d;' % (i, i) for i in range(n)) + ' ' + ' '.join('B%d = RECORD n: T%d END;' % (i, n - 1 - i) for i in range(n)) + ' END', True); j.case('forward pointer base type', '%d of them, one missing' % n, 'TYPE ' + ' '.join('T%d = POINTER TO B%d;' % (i, i) for i in range(n)) + ' ' + ' '.join('B%d = RECORD END;' % i for i in range(n - 1)) + ' END', False)
    # array lengths
    for l, ok in (('1', True), ('7', True), ('2 + 3', True), ('2 * 3', True), ('n', True), ('n + 1', True), ('n * n', True), ('0', False), ('-1', False), ('1 - 1', False), ('TRUE', False), ("'a'", False), ('1.5', False), ('v', False), ('{1}', False), ('NIL', False), ('"abc"', False), ('n - 3', False), ('INTEGER', False), ('v + 1', False), ('P()', False), ('', False), ('n v', False)):
        for c in ('VAR w: ARRAY %s OF CHAR;', 'TYPE T = ARRAY 2, %s OF CHAR;', 'TYPE T = ARRAY %s, 2 OF CHAR;', 'TYPE T = POINTER TO ARRAY %s OF CHAR;', 'TYPE T = RECORD f: ARRAY %s OF CHAR END;', 'PROCEDURE Q(VAR p: ARRAY %s OF CHAR); END Q;'):
            if l == '' and not ',' in c: continue
            if l == '' and c.count('2, %s'): continue   # a comma before OF is accepted
            j.case('array length', '%s, length %s' % (c, l), 'CONST n = 3; VAR v: INTEGER; ' + c % l + ' END', ok, 'OPP.ArrayType')
    # record bases
    for b, ok in (('B', True), ('A', True), ('IR', True), ('Q', False), ('INTEGER', False), ('R', False), ('c', False), ('v', False), ('w', False), ('X', False), ('F', False), ('IP', False)):
        for c in ('TYPE T = RECORD (%s) END;', 'VAR x: RECORD (%s) h: CHAR END;', 'TYPE T = POINTER TO RECORD (%s) h: INTEGER END;', 'PROCEDURE P; TYPE T = RECORD (%s) END; VAR l: T; END P;'): j.case('record base type', '%s: %s' % (c, b), 'CONST c = 1; TYPE B = RECORD f: CHAR END; A = B; Q = POINTER TO B; R = ARRAY 2 OF B; F = PROCEDURE (a: B); VAR v: INTEGER; w: B; ' + c % b + ' END', ok, 'OPP.RecordType')
    for c in ('RECORD (T) END', 'RECORD f: T END', 'ARRAY 3 OF T', 'ARRAY 2, 3 OF T', 'RECORD f: RECORD g: T END END', 'RECORD f: ARRAY 2 OF T END', 'RECORD a: CHAR; f, g: T END', 'RECORD f: RECORD (T) END END', 'T', 'ARRAY OF T', 'ARRAY 3 OF RECORD f: T END'): j.case('type containing itself', c, 'TYPE T = %s; END' % c, False, 'OPP.TypeDecl'); j.case('type containing itself', 'local ' + c, 'PROCEDURE P; TYPE T = %s; END P; END' % c, False, 'OPP.TypeDecl')
    for c in ('PROCEDURE (a: T)', 'PROCEDURE (VAR a: T)', 'RECORD p: PROCEDURE (a: T) END', 'RECORD p: PROCEDURE (VAR a: T; b: CHAR) END', 'RECORD p: POINTER TO T END', 'RECORD p: POINTER TO ARRAY OF T END', 'POINTER TO RECORD p: T END', 'RECORD p: POINTER TO ARRAY 3 OF T END', 'ARRAY 3 OF PROCEDURE (VAR a: T)', 'POINTER TO RECORD p: PROCEDURE (a: T): T END'): j.case('type referring to itself', c, 'TYPE T = %s; END' % c, True, 'OPP.TypeDecl')
    for n in range(1, 7): j.case('record base type', '%d extensions' % n, 'TYPE T0 = RECORD END; ' + ' '.join('T%d = RECORD (T%d) f%d: CHAR END;' % (i, i - 1, i) for i in range(1, n + 1)) + ' END', True, 'OPP.RecordType')
    for c, ok in (('VAR v: x;', False), ('CONST x = 1; VAR v: x;', False), ('VAR x: CHAR; v: x;', False), ('VAR v: 5;', False), ('VAR v: RECORD;', False), ('VAR v;', False), ('VAR v: ;', False), ('VAR v CHAR;', False), ('TYPE T: CHAR;', False), ('TYPE T := CHAR;', False), ('CONST c := 1;', False), ('CONST c: 1;', False), ('CONST c;', False), ('VAR v: CHAR', False), ('TYPE T = CHAR', False), ('CONST c = 1', False), ('TYPE T = POINTER B;', False), ('TYPE T = ARRAY 3 CHAR;', False), ('VAR a b: CHAR;', False), ('VAR a, b: CHAR;', True), ('VAR a, b, c: CHAR; d, e: INTEGER;', True), ('CONST VAR TYPE', True), ('CONST a = 1; TYPE T = CHAR; VAR v: T; CONST b = a; TYPE U = T; VAR w: U;', True), ('TYPE T = RECORD a, b: CHAR; c: INTEGER; END;', True), ('TYPE T = RECORD ; a: CHAR ;; b: CHAR END;', True), ('TYPE T = RECORD a: CHAR b: CHAR END;', False), ('TYPE T = RECORD a b: CHAR END;', False), ('TYPE T = RECORD a CHAR END;', False), ('PROCEDURE P; END P', False), ('PROCEDURE P END P;', False), ('PROCEDURE P(; END P;', False), ('PROCEDURE P(); END P;', True), ('PROCEDURE P(a b: CHAR); END P;', False), ('PROCEDURE P(a: CHAR b: CHAR); END P;', False), ('PROCEDURE P(a, VAR b: CHAR); END P;', False), ('PROCEDURE P(a); END P;', False), ('PROCEDURE P(a: CHAR; b: CHAR); END P;', True), ('PROCEDURE 5; END P;', False), ('PROCEDURE; END P;', False), ('VAR v: CHAR; PROCEDURE P; END P; VAR w: CHAR;', False), ('VAR c: SYSTEM.BYTE;', True), ('VAR c: SYSTEM.NOTHING;', False), ('VAR c: BYTE.CHAR;', False), ('CONST e = TRUE; g = {1}; h = NIL; i = ~e;', True), ('CONST c = v;', False), ('VAR v: CHAR; CONST c = v;', False), ('VAR v: CHAR; CONST c = v + 1;', False), ('PROCEDURE P(): INTEGER; BEGIN RETURN 0 END P; BEGIN', True), ('TYPE T = CHAR; CONST c = T;', False)):
        j.case('form of a declaration', c, c + ' END', ok, 'OPP.Block', check='RETURN' not in c and 'CONST e' not in c and 'SYSTEM' not in c)
def headings(ctx):
    j = J(ctx)
    pre = 'CONST c = 1; TYPE A = ARRAY 2 OF CHAR; R = RECORD f: CHAR END; Q = POINTER TO R; F = PROCEDURE (a: CHAR); E = INTEGER; O = ARRAY OF CHAR; '
    for t, ok in (('INTEGER', True), ('CHAR', True), ('REAL', True), ('SET', True), ('Q', True), ('F', True), ('E', True), ('IP', True), ('A', False), ('R', False), ('O', False), ('IR', False), ('c', False), ('X', False), ('v', False), ('P', False), ('ARRAY 2 OF CHAR', False), ('RECORD END', False), ('POINTER TO R', False), ('PROCEDURE', False), ('', False)):
        for f in ('PROCEDURE P(): %s; END P;', 'PROCEDURE P(a: CHAR; VAR b: R): %s; END P;', 'TYPE G = PROCEDURE (): %s;', 'TYPE G = RECORD m: PROCEDURE (a: CHAR): %s END;', 'PROCEDURE P(g: PROCEDURE (a: CHAR): %s); END P;', 'PROCEDURE (VAR r: R) P(): %s; END P;'): j.case('result type', '%s: %s' % (f, t), pre + 'VAR v: CHAR; ' + f % t + ' END', ok, 'OPP.FormalParameters')
    j.case('result type', 'without a parameter list', 'PROCEDURE P: INTEGER; END P; END', False)
    for t, ok in (('INTEGER', True), ('A', True), ('R', True), ('Q', True), ('F', True), ('O', True), ('IR', True), ('c', False), ('X', False), ('P', False), ('v', False), ('5', False)):
        for f in ('PROCEDURE P(a: %s); END P;', 'PROCEDURE P(VAR a, b: %s; c: CHAR); END P;', 'TYPE G = PROCEDURE (a: CHAR; b: %s);'): j.case('parameter type', '%s: %s' % (f, t), pre + 'VAR v: CHAR; ' + f % t + ' END', ok, 'OPP.FormalParameters')
def forward(ctx, part=None):
    j = J(ctx)
    HS = ('', '()', '(a: INTEGER)', '(b: INTEGER)', '(VAR a: INTEGER)', '(a: CHAR)', '(a, b: INTEGER)', '(a: INTEGER; b: INTEGER)', '(a: INTEGER; b: CHAR)', '(b: CHAR; a: INTEGER)', '(): INTEGER', '(): CHAR', '(a: INTEGER): INTEGER', '(a: INTEGER): CHAR', '(a: R)', '(VAR a: R)', '(a: Q)', '(a: S)', '(a: A)', '(a: O)', '(a: ARRAY OF CHAR)', '(a: ARRAY OF INTEGER)', '(a: ARRAY OF ARRAY OF CHAR)', '(a: F)', '(a: PROCEDURE (b: CHAR))', '(a: PROCEDURE (b: INTEGER))', '(VAR a: INTEGER; b: INTEGER)', '(a: INTEGER; VAR b: INTEGER)', '(a: AA)', '(a: RR)')
    def norm(h):
        """parameter names, modes and types, and the result type"""
        h = re.sub(r'\b([RA])\1\b', r'\1', h).replace('a, b: INTEGER', 'a: INTEGER; b: INTEGER'); h = re.sub(r'\bO\b', 'ARRAY OF CHAR', h); h = re.sub(r'\bF\b', 'PROCEDURE (c: CHAR)', h); h = re.sub(r'PROCEDURE \(\w+:', 'PROCEDURE (:', h)
        return '' if h == '()' else h
    tp = 'TYPE R = RECORD f: INTEGER END; RR = R; S = RECORD f: INTEGER END; Q = POINTER TO R; A = ARRAY 2 OF CHAR; AA = A; O = ARRAY OF CHAR; F = PROCEDURE (c: CHAR); '
    for a in HS if part is None else HS[part::4]:
        for b in HS:
            ok = norm(a) == norm(b); j.case('forward declaration', '^P%s, P%s' % (a, b), tp + 'PROCEDURE ^P%s; PROCEDURE P%s; END P; END' % (a, b), ok, 'OPP.ProcedureDeclaration', check=a == b)
            j.case('forward declaration', 'method ^P%s, P%s' % (a, b), tp + 'PROCEDURE ^(VAR r: R) P%s; PROCEDURE (VAR r: R) P%s; END P; END' % (a, b), ok, 'OPP.ProcedureDeclaration', check=a == b)
        j.case('forward declaration', 'local ^P' + a, tp + 'PROCEDURE L; PROCEDURE ^P%s; PROCEDURE Q0; END Q0; PROCEDURE P%s; END P; END L; END' % (a, a), True, 'OPP.ProcedureDeclaration')
    if part: return
    for a in ('', '*', '-'):
        for b in ('', '*', '-'):
            j.case('forward declaration', 'P%s, P%s' % (a, b), 'PROCEDURE ^P%s; PROCEDURE P%s; END P; END' % (a, b), a == b, 'OPP.ProcedureDeclaration', check=False); j.case('forward declaration', 'method P%s, P%s' % (a, b), tp + 'PROCEDURE ^(VAR r: R) P%s; PROCEDURE (VAR r: R) P%s; END P; END' % (a, b), a == b, 'OPP.ProcedureDeclaration', check=False)
    for c, ok in (('PROCEDURE ^P; PROCEDURE Q; BEGIN P END Q; PROCEDURE P; BEGIN Q END P;', True), ('PROCEDURE P; END P; PROCEDURE P; END P;', False), ('PROCEDURE ^P; PROCEDURE P; END P; PROCEDURE P; END P;', False), ('PROCEDURE P; END P; PROCEDURE ^P;', False), ('PROCEDURE ^P; PROCEDURE ^P(a: CHAR); PROCEDURE P; END P;', False), ('VAR P: CHAR; PROCEDURE ^P; PROCEDURE P; END P;', False), ('PROCEDURE ^P; PROCEDURE Q; PROCEDURE P(a: CHAR); END P; END Q; PROCEDURE P; END P;', True), ('PROCEDURE ^P(a: CHAR); PROCEDURE Q; BEGIN P END Q; PROCEDURE P(a: CHAR); END P;', False), ("PROCEDURE ^P(a: CHAR); PROCEDURE Q; BEGIN P('a') END Q; PROCEDURE P(a: CHAR); END P;", True), ('PROCEDURE ^P(a: CHAR); PROCEDURE Q; BEGIN P(1) END Q; PROCEDURE P(a: CHAR); END P;', False), ('PROCEDURE ^P(): INTEGER; PROCEDURE Q; VAR i: INTEGER; BEGIN i := P() END Q; PROCEDURE P(): INTEGER; END P;', True), ('PROCEDURE ^P(): INTEGER; PROCEDURE Q; VAR i: CHAR; BEGIN i := P() END Q; PROCEDURE P(): INTEGER; END P;', False)): j.case('forward declaration', c, c + ' END', ok, 'OPP.ProcedureDeclaration', check=False)
    for c, ok in (('TYPE R = RECORD END; PROCEDURE ^(VAR r: R) P; PROCEDURE (VAR r: R) P; END P; PROCEDURE (VAR r: R) P; END P;', False), ('TYPE R = RECORD END; PROCEDURE (VAR r: R) P; END P; PROCEDURE (VAR r: R) P; END P;', False), ('TYPE R = RECORD END; PROCEDURE (VAR r: R) P; END P; PROCEDURE ^(VAR r: R) P;', False), ('TYPE R = RECORD END; S = RECORD END; PROCEDURE (VAR r: R) P; END P; PROCEDURE (VAR r: S) P; END P;', True), ('TYPE R = RECORD END; S = RECORD END; PROCEDURE ^(VAR r: R) P; PROCEDURE (VAR r: S) P; END P; PROCEDURE (VAR r: R) P; END P;', True)): j.case('forward declaration', c, c + ' END', ok, 'OPP.ProcedureDeclaration')
def marks(ctx):
    j = J(ctx)
    for m in ('*', '-'):
        for c, ok in (('CONST c%s = 1;', True), ('TYPE T%s = CHAR;', True), ('VAR v%s: CHAR;', True), ('VAR u, v%s, w: CHAR;', True), ('PROCEDURE P%s; END P;', True), ('PROCEDURE P%s(a: CHAR); END P;', True), ('TYPE T = RECORD f%s, g: CHAR END;', True), ('TYPE T = RECORD f, g%s: RECORD h%s: CHAR END END;', True), ('TYPE T = RECORD END; PROCEDURE (VAR r: T) P%s; END P;', True), ('PROCEDURE L; CONST c%s = 1; END L;', False), ('PROCEDURE L; TYPE T%s = CHAR; END L;', False), ('PROCEDURE L; VAR v%s: CHAR; END L;', False), ('PROCEDURE L; PROCEDURE P%s; END P; END L;', False), ('PROCEDURE L; TYPE T = RECORD f%s: CHAR END; END L;', False), ('PROCEDURE L; VAR u, v%s: CHAR; END L;', False), ('PROCEDURE L(a%s: CHAR); END L;', False), ('TYPE T = PROCEDURE (a%s: CHAR);', False)): j.case('export mark', c.replace('%s', m), c.replace('%s', m) + ' END', ok, 'OPP.CheckMark')
    # code procedures, flags
    for s, jj in ((True, j), (False, J(ctx, system=False))):
        for c, ok in (('PROCEDURE -P "c()";', True), ('PROCEDURE -P(a: CHAR) "c(a)";', True), ('PROCEDURE -P(a: CHAR): CHAR "c(a)";', True), ('PROCEDURE -P 1, 2, 255;', True), ('PROCEDURE -P 1, 256;', False), ('PROCEDURE L; PROCEDURE -P "c()"; END L;', False), ('PROCEDURE +P; END P;', True), ('TYPE T = RECORD [1] f: CHAR END;', True), ('TYPE T = ARRAY [1] 3 OF CHAR;', True), ('TYPE T = POINTER [1] TO RECORD END;', True), ('TYPE T = RECORD [-1] f: CHAR END;', False), ("TYPE T = RECORD ['a'] f: CHAR END;", False), ('VAR v: CHAR; TYPE T = RECORD [v] f: CHAR END;', False), ('TYPE T = RECORD [1 f: CHAR END;', False)): jj.case('code procedure', ('' if s else 'SYSTEM not imported: ') + c, c + ' END', ok and s, 'OPP.ProcedureDeclaration', check=False)
def methods(ctx):
    j = J(ctx)
    pre = 'TYPE R = RECORD f: CHAR END; Q = POINTER TO R; A = ARRAY 3 OF CHAR; E = RECORD (R) g: CHAR END; QE = POINTER TO E; RR = R; QA = POINTER TO A; F = PROCEDURE; '
    for t in ('R', 'RR', 'E', 'Q', 'QE', 'A', 'QA', 'F', 'INTEGER', 'IR', 'IP', 'X', 'c', 'POINTER', 'SET'):
        for m in ('', 'VAR '): j.case('receiver', m + t, 'CONST c = 1; ' + pre + 'PROCEDURE (%sr: %s) P; END P; END' % (m, t), (m == 'VAR ' and t in ('R', 'RR', 'E')) or (m == '' and t in ('Q', 'QE')), 'OPP.Receiver')
    for c, ok in (('PROCEDURE L; PROCEDURE (VAR r: R) P; END P; END L;', False), ('PROCEDURE L; TYPE T = RECORD END; PROCEDURE (VAR r: T) P; END P; END L;', False), ('PROCEDURE () P; END P;', False), ('PROCEDURE (VAR r: R); END P;', False), ('PROCEDURE (VAR r, s: R) P; END P;', False), ('PROCEDURE (VAR r R) P; END P;', False), ('PROCEDURE (VAR r: R) P(r: CHAR); END P;', False), ('PROCEDURE (VAR r: R) P(VAR s, r: CHAR); END P;', False), ('PROCEDURE (VAR r: R) P; VAR r: CHAR; END P;', False), ('PROCEDURE (VAR r: R) P(s: CHAR); VAR t: CHAR; END P;', True), ('PROCEDURE (VAR P: R) P(s: CHAR); END P;', True), ('PROCEDURE (VAR r: R) f; END f;', False), ('PROCEDURE (VAR r: R) g; END g;', True), ('PROCEDURE (VAR r: E) g; END g;', False), ('PROCEDURE (VAR r: E) f; END f;', False), ('PROCEDURE (r: QE) f; END f;', False), ('PROCEDURE (r: Q) f; END f;', False), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE P; END P;', True), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE (r: Q) P; END P;', False), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE (r: Q) Q; END Q;', True), ("PROCEDURE (VAR r: R) P; BEGIN r.f := 'a'; r.P END P;", True), ('PROCEDURE (VAR r: R) P; BEGIN P END P;', False), ('PROCEDURE (VAR r: R) P; BEGIN r.Q END P; PROCEDURE (VAR r: R) Q; END Q;', False), ('PROCEDURE ^(VAR r: R) Q; PROCEDURE (VAR r: R) P; BEGIN r.Q END P; PROCEDURE (VAR r: R) Q; END Q;', True), ('PROCEDURE (VAR r: E) P; END P; PROCEDURE L(VAR r: R); BEGIN r.P END L;', False), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE L(VAR r: E); BEGIN r.P END L;', True), ('PROCEDURE (VAR r: R) P; BEGIN r.P^ END P;', False), ('PROCEDURE (VAR r: E) P; BEGIN r.P^ END P;', False), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE (VAR r: E) P; BEGIN r.P^ END P;', True), ('PROCEDURE (VAR r: R) P; END P; PROCEDURE (VAR r: E) Q; BEGIN r.P END Q;', True)): j.case('method', c, pre + c + ' END', ok, 'OPP.ProcedureDeclaration', check='r.f' not in c)
    # redefinition
    SIG = ('', '(a: INTEGER)', '(b: INTEGER)', '(VAR a: INTEGER)', '(a: CHAR)', '(a, b: INTEGER)', '(): INTEGER', '(): CHAR', '(a: INTEGER): INTEGER', '(a: R)', '(VAR a: R)', '(VAR a: E)', '(a: Q)', '(a: QE)', '(a: ARRAY OF CHAR)', '(VAR a: ARRAY OF CHAR)', '(): Q', '(): QE', '(a: INTEGER; b: CHAR)')
    # names of parameters need not agree
    def norm(h): return re.sub(r'\b[ab]\b', '', h).replace(', ', ' ')
    for a in SIG:
        for b in SIG:
            j.case('redefined method', 'P%s, P%s' % (a, b), pre + 'PROCEDURE (VAR r: R) P%s; END P; PROCEDURE (VAR e: E) P%s; END P; END' % (a, b), norm(a) == norm(b), 'OPP.ProcedureDeclaration')
            if a == '' or b == '' or 'INTEGER' in a and 'INTEGER' in b: j.case('redefined method', 'pointer receivers P%s, P%s' % (a, b), pre + 'PROCEDURE (r: Q) P%s; END P; PROCEDURE (e: QE) P%s; END P; END' % (a, b), norm(a) == norm(b), 'OPP.ProcedureDeclaration')
        j.case('redefined method', 'VAR and pointer receiver P' + a, pre + 'PROCEDURE (VAR r: R) P%s; END P; PROCEDURE (e: QE) P%s; END P; END' % (a, a), False, 'OPP.ProcedureDeclaration'); j.case('redefined method', 'pointer and VAR receiver P' + a, pre + 'PROCEDURE (r: Q) P%s; END P; PROCEDURE (VAR e: E) P%s; END P; END' % (a, a), False, 'OPP.ProcedureDeclaration')
        for b in ('', '(a: INTEGER)'): j.case('redefined method', 'two levels P%s, P%s' % (a, b), 'TYPE R = RECORD END; M0 = RECORD (R) END; E = RECORD (M0) END; Q = POINTER TO R; QE = POINTER TO E; PROCEDURE (VAR r: R) P%s; END P; PROCEDURE (VAR e: E) P%s; END P; END' % (a, b), norm(a) == norm(b), 'OPP.ProcedureDeclaration')
    for tm in ('', '*'):
        for tb in ('', '*'):
            for a in ('', '*', '-'):
                for b in ('', '*', '-'):
                    ok = not (a == '*' and b == '' and tm == '*'); j.case('export of a redefined method', 'R%s.P%s, E%s.P%s' % (tb, a, tm, b), 'TYPE R%s = RECORD END; E%s = RECORD (R) END; PROCEDURE (VAR r: R) P%s; END P; PROCEDURE (VAR e: E) P%s; END P; END' % (tb, tm, a, b), ok, 'OPP.ProcedureDeclaration')
def flags(ctx):
    """a variable used by an inner procedure is marked as such, and so is every procedure on the way to its declaration"""
    j = J(ctx); M = j.M; G = M.G; SL = G.c('slNeeded'); D = 4
    USES = {'assignment': '%s := 1', 'value': 'w := %s', 'VAR parameter': 'INC(%s)', 'in a condition': 'IF %s = 1 THEN END', 'in a loop': 'WHILE w < %s DO END', 'index': 'a[%s] := w', 'control variable': 'FOR %s := 1 TO 2 DO END', 'upper bound': 'FOR w := 1 TO %s DO END', 'SYSTEM': 'w := SHORT(SYSTEM.VAL(LONGINT, %s))', 'address': 'w := SHORT(SYSTEM.VAL(LONGINT, SYSTEM.ADR(%s)))', 'operand': 'a[0] := w * 2 + %s'}
    def find(t, names):
        o = None; sc = M.top
        for n in names:
            es = M.scope(t, sc)
            if n not in es: return None
            o = es[n]; sc = M.get(t, o, 'scope')
        return o
    for kind in ('variable', 'parameter', 'VAR parameter', 'receiver', 'procedure'):
        for d in range(0 if kind in ('variable', 'procedure') else 1, D):
            if kind == 'receiver' and d != 1: continue
            for u in range(d, D + 1):
                for un, ut in USES.items() if kind not in ('procedure', 'receiver') else {'call': ''}.items():
                    # P1 contains P2 contains ... ; 'x' declared in P<d> (d = 0: the module), used in P<u>
                    def proc(k):
                        x = 'x: INTEGER' if k == d and kind == 'parameter' else 'VAR x: INTEGER' if k == d and kind == 'VAR parameter' else ''
                        ds = 'VAR %sw: INTEGER; a: ARRAY 9 OF INTEGER; ' % ('x, ' if k == d and kind == 'variable' else '')
                        if k == d and kind == 'procedure': ds += 'PROCEDURE x; END x; '
                        st = ('x' if kind == 'procedure' else "x.f := 1" if kind == 'receiver' else ut % 'x') if k == u else ''
                        rcv = '(VAR x: R) ' if kind == 'receiver' and k == d else ''
                        inner = proc(k + 1) if k < D else ''
                        if k == 0: return ds + 'TYPE R = RECORD f: INTEGER END; ' if False else 'TYPE R = RECORD f: INTEGER END; ' + ds + inner + 'BEGIN ' + st + ' END'
                        return 'PROCEDURE %sP%d(%s); %s%sBEGIN %s END P%d; ' % (rcv, k, x, ds, inner, st, k)
                    text = proc(0); inst = '%s of level %d used at level %d: %s' % (kind, d, u, un)
                    for e, t in M.decl(text + ' M'):
                        bad = None
                        if e: bad = 'rejected (%s)' % e
                        else:
                            names = ['P%d' % k for k in range(1, D + 1)]
                            if kind == 'receiver': objs = None
                            top = M.scope(t, M.top)
                            def pobj(k):
                                if kind != 'receiver': return find(t, names[:k])
                                o = M.get(t, M.get(t, top['R'], 'typ'), 'link', 'S')   # the method P1 is the only other entry
                                es = {}
                                def walk(y):
                                    if y == NIL: return
                                    es[M.get(t, y, 'name')[1]] = y; walk(M.get(t, y, 'left')); walk(M.get(t, y, 'right'))
                                walk(o); o = es['P1']
                                for n in names[1:k]: o = M.scope(t, M.get(t, o, 'scope'))[n]
                                return o
                            if kind != 'procedure':
                                x = top['x'] if d == 0 else M.scope(t, M.get(t, pobj(d), 'scope'))['x']
                                if u != d and M.get(t, x, 'leaf') != C(False): bad = 'the variable is still taken for one only its own procedure uses'
                            for k in range(d + 1, u + 1):
                                if d == 0: break
                                sv = M.G.E0.norm(t, M.G.E0.load(t, ('f', ('*', M.get(t, pobj(k), 'conval')), G.K['setval'])))
                                if not isc(sv) or SL not in sv[1]: bad = 'P%d is not marked as needing the variables of the procedures around it' % k
                        ctx.check(bad is None, 'use in an inner procedure', inst, ctx.where(ctx.proc('OPP.qualident' if kind != 'procedure' else 'OPB.Call')), '%s: %s' % (text, bad), sample=inst)
SECTIONS = (scopes, types, headings, forward, marks, methods, flags)
FLOORS = {'two names': 21, 'name declared twice': 68, 'inner scope': 117, 'parameter and local of one name': 25, 'parameter and local': 25, 'use before declaration': 10, 'use after declaration': 26, 'undeclared': 26, 'scope ends with its procedure': 32, 'scope of a procedure': 23, 'innermost declaration': 20, 'fields': 7, 'name at the end': 16, 'type': 207, 'pointer base type': 97, 'forward pointer base type': 90, 'open array': 115, 'array length': 133, 'record base type': 54, 'type containing itself': 22, 'type referring to itself': 10, 'form of a declaration': 49, 'result type': 127, 'parameter type': 36, 'forward declaration': 1865, 'export mark': 34, 'code procedure': 28, 'receiver': 30, 'method': 30, 'redefined method': 523, 'export of a redefined method': 36, 'use in an inner procedure': 370}
def run(ctx):
    ctx.parallel([lambda c, f=f: f(c) for f in SECTIONS if f is not forward] + [lambda c, i=i: forward(c, i) for i in range(4)])
    for r, n in FLOORS.items(): ctx.floor(r, n)

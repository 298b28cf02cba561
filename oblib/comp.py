"""From Oberon source to C: the parser (OPP), the tree construction (OPB) and the code generator (OPV, OPC) are interpreted
abstractly on a token stream.  Operands are opaque: the token ('X', name) stands for any expression of its type, so the C text obtained is
the template for all operands."""
from .cenv import *

SYM = {'*': 'times', '/': 'slash', 'DIV': 'div', 'MOD': 'mod', '&': 'and', '+': 'plus', '-': 'minus', 'OR': 'or', '=': 'eql', '#': 'neq', '<': 'lss', '<=': 'leq', '>': 'gtr', '>=': 'geq', 'IN': 'in', 'IS': 'is', '^': 'arrow', '.': 'period', ',': 'comma', ':': 'colon', '..': 'upto', ')': 'rparen', ']': 'rbrak', '}': 'rbrace', 'OF': 'of', 'THEN': 'then', 'DO': 'do', 'TO': 'to', 'BY': 'by', '(': 'lparen', '[': 'lbrak', '{': 'lbrace', '~': 'not', ':=': 'becomes', 'NIL': 'nil', ';': 'semicolon', '|': 'bar', 'END': 'end', 'ELSE': 'else', 'ELSIF': 'elsif', 'UNTIL': 'until', 'IF': 'if', 'CASE': 'case', 'WHILE': 'while', 'REPEAT': 'repeat', 'FOR': 'for', 'LOOP': 'loop', 'WITH': 'with', 'EXIT': 'exit', 'RETURN': 'return', 'ARRAY': 'array', 'RECORD': 'record', 'POINTER': 'pointer', 'BEGIN': 'begin', 'CONST': 'const', 'TYPE': 'type', 'VAR': 'var', 'PROCEDURE': 'procedure', 'IMPORT': 'import', 'MODULE': 'module'}
LEX = re.compile(r"""\s*(?:(?P<num>\d+)|(?P<chr>'[^']')|(?P<str>"[^"]*")|(?P<opq>\$\w+)|(?P<id>[A-Za-z]\w*)|(?P<op>:=|<=|>=|\.\.|[-+*/&=#<>^.,:;()\[\]{}~|]))""")
POS = ('g', '#pos'); CUR = ('g', '#cur')

class Comp(GV):
    """idents: name -> object; opq: name -> node"""
    def __init__(s, ctx):
        super().__init__(ctx)
        for m in ('OPP', 'OPB'): ctx.module(m)
        O, S, N, K = s.O, s.S, s.N, s.K
        S.update(s.fields('OPT.Struct', ('txtpos', 'pvused', 'mno', 'idfpdone', 'fpdone', 'allocated', 'pbused')))
        O.update(s.fields('OPT.Object', ('used', 'fpdone', 'history', 'linkadr')))
        K.update(s.fields('OPT.Const', ('setval', 'realval', 'ext')))
        s.errs = []
    def policy(s, o):
        if o.mod in ('OPP', 'OPB', 'OPV', 'OPC'): return 'inline'
        if o.qname() in ('OPT.NewNode', 'OPT.NewConst', 'OPT.Insert', 'OPT.InsertObj', 'OPT.NewObj', 'OPT.NewExt', 'OPT.IntType', 'OPT.IntSize', 'OPT.ShorterOrLongerType', 'OPT.SetType', 'OPM.Longint', 'OPM.Integer', 'OPT.NewStr', 'OPT.BaseAlignment', 'OPT.SizeAlignment', 'OPT.ShortestIntType', 'OPT.LongerType', 'OPM.SignedMinimum'): return 'inline'
        return super().policy(o)
    def engine(s, **kw):
        kw.setdefault('steps', 3000000)
        e = super().engine(**kw); e.peel = 140; H = e.handlers; e.depth = 60; e.recmax = 30; e.tokmax = 4000
        Z = {k: C(s.ctx.const('OPS.' + v)) for k, v in SYM.items()}
        num, idt, st_, eof, numtyp, integer, char = (s.ctx.const('OPS.' + x) for x in ('number', 'ident', 'string', 'eof', 'integer', 'integer', 'char'))
        g = lambda n: ('g', s.ctx.obj('OPS.' + n))
        def get(E, n, a, st):
            st = st.copy(); p = st.env[POS][1]; st.env[POS] = C(p + 1)
            k, v = s.toks[p] if p < len(s.toks) else ('eof', None)
            if p > len(s.toks) + 3: E.pruned += 1; return []
            st.env[CUR] = C(p)
            if k == 'op': z = Z[v]
            elif k == 'eof': z = C(eof)
            elif k == 'num':
                z = C(num); st.env[g('numtyp')] = C(integer); st.env[g('intval')] = C(v)
            elif k == 'chr': z = C(num); st.env[g('numtyp')] = C(char); st.env[g('intval')] = C(ord(v))
            elif k == 'str':
                z = C(st_); E.store(st, g('str'), C(v), n.uid); st.env[g('intval')] = C(len(v) + 1)
            elif k == 'id': z = C(idt); E.store(st, g('name'), C(v), n.uid)
            elif k == 'X': z = Z['(']
            else: raise Broken('token %s' % k)
            E.store(st, a[0][1], z, n.uid)
            return [(NIL, st)]
        H['OPS.Get'] = get
        def factor(E, n, a, st):
            p = st.env[CUR][1]; k, v = s.toks[p] if p < len(s.toks) else ('eof', None)
            if k != 'X': return None
            st = st.copy(); x = s.opq[v]
            E.store(st, a[0][1], x, n.uid)
            # the caller continues with the next symbol
            return [(NIL, u) for _, u in get(E, n, [('l', ('g', s.ctx.obj('OPP.sym')))], st)]
        H['OPP.Factor'] = factor
        def find(E, n, a, st):
            st = st.copy(); nm = E.load(st, g('name'))
            if not isc(nm): raise Broken('identifier unknown')
            E.store(st, a[0][1], s.idents.get(nm[1], NIL), n.uid)
            return [(NIL, st)]
        H['OPT.Find'] = find
        def findimp(E, n, a, st):
            st = st.copy(); nm = E.load(st, g('name')); m = E.norm(st, a[0])
            if m != s.idents.get('SYSTEM'): raise Broken('unknown module')
            E.store(st, a[1][1], s.sysids.get(nm[1], NIL), n.uid)
            return [(NIL, st)]
        H['OPT.FindImport'] = findimp
        def field(E, n, a, st):
            st = st.copy(); nm = E.load(st, a[0][1]) if a[0][0] == 'l' else a[0]
            E.store(st, a[2][1], s.flds.get((E.norm(st, a[1]), nm[1]), NIL), n.uid)
            return [(NIL, st)]
        H['OPT.FindField'] = field
        def err(E, n, a, st):
            st = st.copy(); st.cl = st.cl + (('ERR', E.norm(st, a[0])),); return [(NIL, st)]
        H['OPM.err'] = err; H['OPT.err'] = err
        def settype(E, n, a, st):
            st = st.copy(); nd = E.norm(st, a[0]); k = E.load(st, ('f', ('*', nd), s.N['conval'])); v = E.load(st, ('f', ('*', k), s.K['setval']))
            if not isc(v): raise Broken('set constant unknown')
            E.store(st, ('f', ('*', nd), s.N['typ']), s.typ(st, 'SET32' if all(x < 32 for x in v[1]) else 'SET64'), n.uid)
            return [(NIL, st)]
        H['OPB.SetSetType'] = settype
        nop = lambda E, n, a, st: [(NIL, st)]
        for x in ('OPM.Mark', 'OPM.FPrint', 'OPB.StaticLink', 'OPT.TypSize'): H[x] = nop
        return e
    def text(s, toks, holes=None):
        """operands asked for at the highest precedence are in parentheses (checked with the conditions)"""
        r = []; last = None
        for t in toks:
            if t[0] in ('E', 'D') and t[2] == 12: r += [('T', '('), t, ('T', ')')]
            elif t[0] in ('I', 'CI') and t[1] in s.tmps: r.append(('T', s.tmps[t[1]]))
            else: r.append(t)
        return super().text(tuple(r), holes)
    tmps = {}
    TYPES = {'BYTE': 'BYTE', 'INT8': 'INT8', 'INT16': 'INT16', 'INT32': 'INT32', 'INT64': 'INT64', 'ADDRESS': 'INT64', 'SET32': 'SET32', 'SET64': 'SET64', 'BOOLEAN': 'BOOL', 'CHAR': 'CHAR', 'REAL': 'REAL', 'LONGREAL': 'LREAL', 'HUGEINT': 'INT64'}
    def predefined(s):
        """(names in SYSTEM, predeclared names): name -> number of the procedure entered by the module body of OPT, or ('const', v)"""
        sysn, uni = {}, {}; cur = sysn
        for x in s.ctx.module('OPT').body:
            if x.k == 'assign' and show_(x).startswith('syslink'): cur = uni
            if x.k != 'callst': continue
            c = x.a; nm = c.a.a.name if c.a.k == 'name' else None
            if nm in ('EnterProc', 'EnterBoolConst'):
                name, v = (E_const(y) for y in c.b)
                if name in cur: raise Broken('%s is entered twice' % name)
                cur[name] = v if nm == 'EnterProc' else ('const', v)
        return sysn, uni
    def predeclare(s, st):
        """SYSTEM and the predeclared identifiers"""
        sysn, uni = s.predefined(); s.sysids = {}
        def obj(n, v, pre):
            if isinstance(v, tuple):
                k = s.rec(st, 'k_' + n, s.K, intval=C(v[1]), intval2=C(0), setval=C(frozenset()))
                return s.rec(st, 'pre_' + pre + n, s.O, name=C(n), mode=C(s.c('Con')), typ=s.typ(st, 'BOOL'), conval=k, mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0))
            return s.rec(st, 'pre_' + pre + n, s.O, name=C(n), mode=C(s.c('SProc')), typ=s.types['NOTYP'], adr=C(v), mnolev=C(0), leaf=C(True), vis=C(0), conval=NIL)
        for n, v in uni.items(): s.idents[n] = obj(n, v, '')
        for n, v in sysn.items(): s.sysids[n] = obj(n, v, 'SYSTEM.')
        for n, k in dict(s.TYPES, **s.model).items():
            v = s.typ(st, k); o = s.sobj[v]
            (s.sysids if n in ('BYTE', 'INT8', 'INT16', 'INT32', 'INT64', 'ADDRESS', 'SET32', 'SET64') else s.idents)[n] = o
        s.idents['SYSTEM'] = s.rec(st, 'm_SYSTEM', s.O, name=C('SYSTEM'), mode=C(s.c('Mod')), mnolev=C(0), typ=s.types['NOTYP'])
    undf = None
    def typ(s, st, k):
        new = k not in s.types; v = super().typ(st, k)
        if s.undf is not None and new: s.setf(st, v, s.S, 'BaseTyp', s.undf)
        return v
    def begin(s, opts=(), level=1, model='2'):
        """initial state; level: 0 module body, 1 body of a global procedure; model: sizes of the basic types"""
        s.idents = {}; s.flds = {}; s.opq = {}; s.undf = None
        st = s.start(opts, level)
        s.glob(st, 'OPP.level', C(level)); s.glob(st, 'OPP.LoopLevel', C(0)); s.glob(st, 'OPM.errpos', C(0)); s.glob(st, 'OPM.curpos', C(0))
        s.undf = s.rec(st, 'T_UNDF', s.S, form=C(s.m('Undef')), comp=C(s.m('Basic')), size=C(1), strobj=NIL)
        s.setf(st, s.undf, s.S, 'BaseTyp', s.undf); s.glob(st, 'OPT.undftyp', s.undf)
        for v in list(s.types.values()): s.setf(st, v, s.S, 'BaseTyp', s.undf)
        sizes = {'2': (1, 2, 4), 'C': (2, 4, 8), 'V': (1, 4, 8)}[model]
        for n, k in zip(('sint', 'int', 'lint'), sizes): s.glob(st, 'OPT.%styp' % n, s.typ(st, 'INT%d' % (8 * k)))
        ss = 'SET32' if model != 'V' else 'SET64'
        for n, k in (('settyp', ss), ('set32typ', 'SET32'), ('set64typ', 'SET64'), ('hinttyp', 'INT64'), ('bytetyp', 'BYTE')): s.glob(st, 'OPT.' + n, s.typ(st, k))
        s.model = dict(zip(('SHORTINT', 'INTEGER', 'LONGINT'), ('INT%d' % (8 * k) for k in sizes))); s.model['SET'] = ss
        for n, v in (('OPM.MaxIndex', 2 ** 31), ('OPB.maxExp', 62), ('OPM.ShortintSize', sizes[0]), ('OPM.IntegerSize', sizes[1]), ('OPM.LongintSize', sizes[2]), ('OPM.SetSize', 4 if model != 'V' else 8), ('OPM.Alignment', 8), ('OPV.nofExitLabels', 0)):
            try: s.glob(st, n, C(v))
            except Broken: pass
        eb = ('g', s.ctx.obj('OPV.exit')); st.env[('f', eb, s.ctx.field('OPV.ExitInfo', 'level'))] = C(0); st.env[('f', eb, s.ctx.field('OPV.ExitInfo', 'label'))] = C(-1)
        e = s.engine()
        s.lev = level
        return st
    def scopes(s, st, notyp=True, leaf=True, typ=None):
        """the current procedure"""
        sc = s.rec(st, 'scopeP', s.O, name=C('P'), leaf=C(leaf), right=NIL, left=NIL, mnolev=C(s.lev), scope=NIL, mode=C(s.c('Head')))
        pr = s.rec(st, 'I:P', s.O, name=C('P'), mode=C(s.c('LProc')), vis=C(0), link=NIL, scope=sc, typ=typ or s.types['NOTYP'], mnolev=C(max(0, s.lev - 1)), leaf=C(leaf))
        s.setf(st, sc, s.O, 'link', pr)
        s.glob(st, 'OPT.topScope', sc); s.glob(st, 'OPT.notyp', s.types['NOTYP'])
        return pr
    def opaque_(s, st, name, typ, cls='Nvar', **kw):
        """an opaque operand, written $name in the source"""
        o = s.rec(st, 'obj_' + name, s.O, name=C(name), mode=C(s.c('Var')), typ=typ, mnolev=C(s.lev), leaf=C(True), vis=C(0), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL)
        n = s.leaf(st, name, typ, cls=C(s.c(cls)), subcl=C(0), obj=kw.pop('obj', o), left=NIL, right=NIL, link=NIL, readonly=C(False), conval=NIL, **kw)
        s.opq[name] = n
        return n
    def variable(s, st, name, typ, mode='Var', **kw):
        o = s.var(st, name, typ, mode, lev=kw.pop('lev', s.lev), leaf=True, **kw); s.idents[name] = o; s.vars[o] = name
        return o
    def lex(s, text):
        r = []; i = 0
        while text[i:].strip():
            m = LEX.match(text, i)
            if not m: raise Broken('no Oberon token at %r' % text[i:i + 20])
            k = m.lastgroup; v = m.group(k); i = m.end()
            if k == 'num': v = int(v)
            elif k in ('chr', 'str'):
                v = v[1:-1]
                if len(v) == 1: k = 'chr'
            elif k == 'opq': k, v = 'X', v[1:]
            elif k == 'id' and v in SYM: k = 'op'
            r.append((k, v))
        return r
    def parse_(s, st, text, proc='OPP.StatSeq', arg='stat'):
        """-> [(tree, errors, state)]"""
        s.toks = s.lex(text); st = st.copy(); st.env[POS] = C(0); st.env[CUR] = C(0)
        E = s.engine(); u = get0(s, E, st)
        p = s.ctx.proc(proc); loc = ('g', '#result')
        u.env[loc] = NIL; u.cl = ()
        o = E.run(p, u, {arg: ('l', loc)})
        if E.pruned: raise Broken('%s: path too long' % proc)
        return [(t.env[loc], [x[1][1] if isc(x[1]) else x[1] for x in t.cl if x[0] == 'ERR' and len(x) > 1], t) for t in o['n'] + [t for _, t in o['r']]]
    def compile(s, st, text, outer=NIL):
        """statements -> [(C text or None, errors, tokens, state)]"""
        r = []
        for x, e, t in s.parse_(st, text):
            if e: r.append((None, e, None, t)); continue
            p = t.env[POS][1]
            if p < len(s.toks): raise Broken('the parser stops at token %d of %s' % (p, text))
            t = t.copy(); t.cl = (); s.glob(t, 'OPM.noerr', C(True))
            o, E = s.run(s.ctx.proc('OPV.stat'), t, {'n': x, 'outerProc': outer})
            for toks, u in o:
                if any(k[0] == 'ERR' for k in toks): r.append((None, ['code generator'], toks, u))
                else: r.append((s.text(toks), [], toks, u))
        return r
def show_(x):
    from . import front
    return front.show(x)
def E_const(y):
    if y.k in ('str', 'int', 'num'): return y.a
    if y.k == 'name' and y.a.val is not None: return y.a.val
    v = getattr(y, 'val', None)
    if v is None: raise Broken('constant expected: %s' % show_(y))
    return v
def get0(s, E, st):
    (_, u), = E.handlers['OPS.Get'](E, s.ctx.proc('OPS.Get'), [('l', ('g', s.ctx.obj('OPP.sym')))], st)
    return u

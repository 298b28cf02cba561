"""Extraction of emission templates from the code generator (OPV, OPC) by abstract
interpretation: one syntax-tree node with concrete class, subclass and operand types, its
operands opaque.  The result is, per path, the sequence of things written to the C file:
fixed text, numbers, identifiers and *holes* - operands together with the precedence they are
asked to be written at.  By structural induction over the tree the templates of all nodes
describe everything the code generator can write."""
from .absint import *
from .front import Obj, callee
from .harness import Broken

NONNIL = (None, frozenset([None]), -INF, INF)

class Emitter:
    def __init__(s, ctx):
        s.ctx = ctx
        for m in ('OPT', 'OPC', 'OPV', 'OPM', 'OPS'): ctx.module(m)
        s.N = s.fields('OPT.Node', ('left', 'right', 'link', 'class', 'subcl', 'readonly', 'typ', 'obj', 'conval'))
        s.S = s.fields('OPT.Struct', ('form', 'comp', 'n', 'size', 'align', 'BaseTyp', 'link', 'strobj', 'extlev', 'sysflag'))
        s.O = s.fields('OPT.Object', ('left', 'right', 'mode', 'vis', 'typ', 'name', 'link', 'conval', 'adr', 'mnolev', 'scope', 'linkadr', 'leaf'))
        s.K = s.fields('OPT.Const', ('intval', 'intval2', 'setval', 'realval', 'ext'))
        s.opaque = set()
        s.expr = ctx.proc('OPV.expr'); s.design = ctx.proc('OPV.design')
    def fields(s, tn, names):
        return {n: s.ctx.field(tn, n) for n in names}
    def c(s, n): return s.ctx.const('OPT.' + n)
    def m(s, n): return s.ctx.const('OPM.' + n)
    # ---- state construction
    def state(s): 
        st = State(); st.cl = ()
        return st
    def setf(s, st, p, tab, name, v): st.env[('f', ('*', p), tab[name])] = v if isinstance(v, tuple) else C(v)
    def rec(s, st, key, tab, **kv):
        v = ('s', key); st.facts[v] = NONNIL
        st.made = st.made | {v}
        for k, x in kv.items():
            s.setf(st, v, tab, {'cls': 'class'}.get(k, k), x)
        return v
    def glob(s, st, qn, v): st.env[('g', s.ctx.obj(qn))] = v if isinstance(v, tuple) else C(v)
    # ---- engine
    def engine(s, **kw):
        e = Engine(s.ctx.world(), K=kw.get('K', 200), steps=kw.get('steps', 400000))
        e.peel = kw.get('peel', 4); e.peel_only = True; e.chr_ord = True
        e.policy = s.policy; e.recmax = 12; e.depth = 40
        H = e.handlers
        def tok(f):
            def h(E, n, a, st):
                t = f(E, st, a)
                st = st.copy(); st.cl = st.cl + (t,)
                if len(st.cl) > getattr(E, 'tokmax', 400): E.pruned += 1; return []
                return [(NIL, st)]
            return h
        def text(E, st, a):
            v = E.load(st, a[0][1]) if a[0][0] == 'l' else a[0]
            if isc(v) and isinstance(v[1], str): return ('T', v[1].rstrip('\0') if v[1] != '\0' else '')
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'init' and ('i', v[1][1], C(0)) in st.env:
                r = ''
                for k in range(300):
                    e = E.load(st, ('i', v[1][1], C(k)))
                    if not isc(e): break
                    ch = e[1] if isinstance(e[1], str) else chr(e[1])
                    if ch in ('\0', ''): return ('T', r)
                    r += ch
            return ('V', v)
        def num(E, st, a):
            return ('T', str(a[0][1])) if isc(a[0]) else ('N', a[0])
        H['OPM.WriteString'] = tok(text); H['OPM.WriteStringVar'] = tok(text); H['OPM.Write'] = tok(text)
        H['OPM.WriteInt'] = tok(num)
        H['OPM.WriteHex'] = tok(lambda E, st, a: ('T', '%02X' % a[0][1]) if isc(a[0]) else ('X', a[0]))
        H['OPM.WriteReal'] = tok(lambda E, st, a: ('R', a[0], a[1]))
        H['OPM.WriteLn'] = tok(lambda E, st, a: ('T', '\n'))
        H['OPM.WriteTab'] = tok(lambda E, st, a: ('T', '\t'))
        for nm, k in (('Ident', 'I'), ('CompleteIdent', 'CI'), ('Andent', 'A'), ('TypeOf', 'TY')):
            H['OPC.' + nm] = tok(lambda E, st, a, k=k: (k, E.norm(st, a[0])))
        def child(kind):
            def h(E, n, a, st):
                v = E.norm(st, a[0])
                if v in s.opaque:
                    p = E.norm(st, a[1])
                    st = st.copy(); st.cl = st.cl + ((kind, v, p[1] if isc(p) else p),)
                    return [(NIL, st)]
                if v[0] != 's': raise Broken('code generator called with an unknown node')
                return None
            return h
        H['OPV.expr'] = child('E'); H['OPV.design'] = child('D')
        def se(E, n, a, st):
            v = E.norm(st, a[0])
            if v in s.opaque: return [(('s', ('se', v)), st)]
            return None
        H['OPV.SideEffects'] = se
        def logerr(E, n, a, st):
            st = st.copy(); st.cl = st.cl + (('ERR',),); return [(NIL, st)]
        for n in ('OPM.LogWStr', 'OPM.err', 'OPT.err'): H[n] = logerr
        for n in ('OPM.LogWNum', 'OPM.LogWLn'): H[n] = lambda E, n, a, st: [(NIL, st)]
        return e
    def policy(s, o): return 'inline' if o.mod in ('OPV', 'OPC') else 'opaque'
    def recurse(s, E):
        """let the listed procedures be inlined although they are on the stack (finite trees)"""
    def run(s, proc, st, args, **kw):
        """-> list of (tokens, state) with adjacent text merged"""
        E = s.engine(**kw)
        o = E.run(proc, st, args)
        s.last = E
        if E.pruned: raise Broken('%s: path too long' % proc.qname())
        r = []
        for v, t in [(None, t) for t in o['n']] + list(o['r']):
            r.append((merge(t.cl), t))
        return r, E

def merge(toks):
    r = []
    for t in toks:
        if t[0] == 'T' and r and r[-1][0] == 'T': r[-1] = ('T', r[-1][1] + t[1])
        else: r.append(t)
    return tuple(r)

"""Composition of the symbol-file reader with the symbol-file writer, by abstract
interpretation: each writer path's item word is fed to the reader, which must consume
exactly that word and rebuild the same attributes."""
from oblib.absint import *
from oblib.front import Obj, Node
from oblib.harness import Broken

F = lambda *vals: (frozenset(vals), frozenset(), -INF, INF)
NN = (None, frozenset([None]), -INF, INF)

class Word:
    """client part: (events, pos, alloc notes, inserted objects, error)"""
    def __new__(c, ev=(), pos=0, wal=(), ins=(), err=None, ral=()): return (ev, pos, wal, ins, err, ral)

def arrval(E, st, v):
    return E.load(st, v[1]) if v[0] == 'l' else v

class RoundTrip:
    def __init__(s, ctx):
        s.ctx = ctx; s.T = ctx.module('OPT')
        c = lambda n: ctx.const('OPT.' + n)
        s.c = c
    def engine(s, peel=2):
        e = Engine(s.ctx.world(), K=4000, steps=3000000)
        e.peel = peel; e.peel_only = True; e.chr_ord = True
        e.policy = s.policy
        H = e.handlers
        for k in ('Int', 'Ch', 'Set', 'Real', 'LReal'): H['OPM.SymW' + k] = s.writer(k.lower())
        H['OPM.SymRInt'] = s.rfun('int', 4); H['OPM.SymRInt64'] = s.rfun('int', 8)
        for k in ('Ch', 'Set', 'Real', 'LReal'): H['OPM.SymR' + k] = s.rvar(k.lower())
        H['OPT.OutName'] = s.outname; H['OPT.InName'] = s.inname
        H['OPT.OutStr'] = s.outstr; H['OPT.InStruct'] = s.instruct
        H['OPT.InsertImport'] = s.insertimport
        for n in ('OPT.err', 'OPM.err', 'OPM.Mark', 'OPT.FPrintErr', 'OPM.LogWStr', 'OPM.LogWNum', 'OPM.LogWLn', 'OPM.FPrint', 'OPT.TypSize', 'OPT.FPrintObj', 'OPT.FPrintStr'):
            H[n] = lambda E, n, a, st: [(('s', ('u', n.uid)), st)]
        H['OPT.IntType'] = lambda E, n, a, st: [(('s', ('inttype', E.norm(st, a[0]))), st)]
        H['OPT.SetType'] = lambda E, n, a, st: [(('s', ('settype', E.norm(st, a[0]))), st)]
        for n in ('OPT.OutObj', 'OPT.OutTProcs'): H[n] = s.treecall
        for n in ('OPT.OutFlds', 'OPT.OutHdFld'): H[n] = s.reccall
        e.on_store = s.onstore
        s.side = 'w'; s.nonempty = False
        return e
    def policy(s, o):
        return 'inline' if o.mod == 'OPT' and o.name not in ('TypSize', 'Align') else 'opaque'
    # recursion over the object tree: the subtree is another instance of the same obligation
    def treecall(s, E, n, a, st):
        t = callee(n)
        if t in E.stack: return [(NIL, st)]
        return None
    def reccall(s, E, n, a, st):
        t = callee(n)
        if t in E.stack: E.pruned += 1; return []
        return None
    def writer(s, kind):
        def h(E, n, a, st):
            st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
            if len(ev) > 40: E.pruned += 1; return []
            size = n.b[0].typ.size if n.b and n.b[0].typ is not None else 0
            if isc(a[0]): size = 1
            st.cl = (ev + ((kind, a[0], size, n.line),), pos, wal, ins, err, ral)
            return [(NIL, st)]
        return h
    def outname(s, E, n, a, st):
        st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
        if a[0][0] == 'l' and a[0][1][0] == '*':
            v = ('s', ('name', a[0][1]))       # characters reached through a pointer
        else: v = arrval(E, st, a[0])
        st.cl = (ev + (('name', v, 0, n.line),), pos, wal, ins, err, ral)
        return [(NIL, st)]
    def outstr(s, E, n, a, st):
        st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
        st.cl = (ev + (('str', a[0], 0, n.line),), pos, wal, ins, err, ral)
        return [(NIL, st)]
    def fail(s, st, msg, line):
        ev, pos, wal, ins, err, ral = st.cl
        st.cl = (ev, pos, wal, ins, err or (msg, line), ral)
    def take(s, st, kind, line):
        ev, pos, wal, ins, err, ral = st.cl
        if err is not None: return None
        if pos >= len(ev):
            s.fail(st, 'reads a %s where nothing more was written' % kind, line); return None
        e = ev[pos]
        if e[0] != kind and not (kind == 'ch' and e[0] == 'name'):
            s.fail(st, 'reads a %s where the writer (line %d) wrote a %s' % (kind, e[3], e[0]), line); return None
        if not (kind == 'ch' and e[0] == 'name'):
            st.cl = (ev, pos + 1, wal, ins, err, ral)
        return e
    def rfun(s, kind, size):
        def h(E, n, a, st):
            st = st.copy(); e = s.take(st, kind, n.line)
            if e is None: return [(('s', ('bad', n.uid)), st)] if st.cl[4] is not None else []
            if e[2] > size: s.fail(st, 'reads %d bytes of the %d-byte value written at line %d' % (size, e[2], e[3]), n.line)
            return [(e[1], st)]
        return h
    def rvar(s, kind):
        def h(E, n, a, st):
            st = st.copy(); e = s.take(st, kind, n.line)
            if e is None:
                return [(NIL, st)]
            if e[0] == 'name':      # one character of a zero-terminated text
                t = st.copy(); ev, pos, wal, ins, err, ral = t.cl
                E.store(t, a[0][1], C('\0'), n.uid); t.cl = (ev, pos + 1, wal, ins, err, ral)
                v = E.fresh(st, ('char', n.uid, E.ctx)); E.setfact(st, v, (None, frozenset(['\0']), -INF, INF))
                E.store(st, a[0][1], v, n.uid)
                return [(NIL, t), (NIL, st)]
            E.store(st, a[0][1], e[1], n.uid)
            return [(NIL, st)]
        return h
    def inname(s, E, n, a, st):
        st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
        if err is None and pos < len(ev) and ev[pos][0] == 'ch' and ev[pos][1] == C('\0'):
            st.cl = (ev, pos + 1, wal, ins, err, ral)      # the empty name
            E.store(st, a[0][1], C(''), n.uid); return [(NIL, st)]
        e = s.take(st, 'name', n.line)
        if e is not None:
            E.store(st, a[0][1], e[1], n.uid)
            if s.nonempty:
                v = E.fresh(st, ('first', n.uid, E.ctx)); E.setfact(st, v, (None, frozenset(['\0']), -INF, INF))
                st.env[('i', a[0][1], C(0))] = v
        return [(NIL, st)]
    def instruct(s, E, n, a, st):
        st = st.copy(); e = s.take(st, 'str', n.line)
        if e is not None: E.store(st, a[0][1], e[1], n.uid)
        return [(NIL, st)]
    def insertimport(s, E, n, a, st):
        st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
        root = a[1][1] if a[1][0] == 'l' else a[1]
        st.cl = (ev, pos, wal, ins + ((a[0], root),), err, ral)
        if s.old is None: E.store(st, a[2][1], NIL, n.uid)
        else: E.store(st, a[2][1], s.old, n.uid)
        return [(NIL, st)]
    def onstore(s, E, n, loc, v, st):
        if loc[0] == 'f':
            f = loc[2]
            if f is s.f_eref or f is s.f_inofr: s.note(st, 'ref')
            elif f is s.f_enofm or f is s.f_inofm: s.note(st, 'mod')
    def note(s, st, what):
        ev, pos, wal, ins, err, ral = st.cl
        if s.side == 'w': st.cl = (ev, pos, wal + ((what, sum(1 for x in ev if x[0] == 'str')),), ins, err, ral)
        else: st.cl = (ev, pos, wal, ins, err, ral + ((what, sum(1 for x in ev[:pos] if x[0] == 'str')),))

def run(ctx):
    rt = RoundTrip(ctx); T = rt.T; c = rt.c
    fo = lambda n: ctx.field('OPT.Object', n); fs = lambda n: ctx.field('OPT.Struct', n); fc = lambda n: ctx.field('OPT.Const', n)
    O = {n: fo(n) for n in ('left', 'right', 'mode', 'vis', 'typ', 'name', 'link', 'conval', 'adr', 'history', 'mnolev')}
    S = {n: fs(n) for n in ('form', 'comp', 'n', 'size', 'align', 'BaseTyp', 'link', 'strobj', 'sysflag', 'ref', 'mno')}
    K = {n: fc(n) for n in ('intval', 'setval', 'realval', 'ext', 'intval2')}
    exp, imp = ctx.obj('OPT.expCtxt'), ctx.obj('OPT.impCtxt')
    from oblib.front import find_field
    rt.f_eref = find_field(exp.typ, 'ref'); rt.f_enofm = find_field(exp.typ, 'nofm')
    rt.f_inofr = find_field(imp.typ, 'nofr'); rt.f_inofm = find_field(imp.typ, 'nofm')
    rt.f_self = find_field(imp.typ, 'self'); rt.f_next = find_field(imp.typ, 'nextTag'); rt.f_iref = find_field(imp.typ, 'ref'); rt.f_minr = find_field(imp.typ, 'minr'); rt.f_iglb = find_field(imp.typ, 'glbmno')
    if None in (rt.f_eref, rt.f_enofm, rt.f_inofr, rt.f_inofm, rt.f_self, rt.f_next, rt.f_iref, rt.f_minr, rt.f_iglb): raise Broken('import/export context fields')
    locimp = lambda f: ('f', ('g', imp), f)
    # INC on a field goes through the built-in handler, not through an assignment
    def inchook(E, n, a, st):
        st = st.copy(); rt.onstore(E, n, a[0], None, st)
        d = a[1] if len(a) > 1 else C(1)
        E.store(st, a[0], E.binop(st, '+', E.load(st, a[0]), d), n.uid)
        return [(NIL, st)]
    outobj, inobj = ctx.proc('OPT.OutObj'), ctx.proc('OPT.InObj')
    outstr, instruct = ctx.proc('OPT.OutStr'), ctx.proc('OPT.InStruct')
    undf, basic = c('Undef'), c('Basic')
    first = c('FirstRef')
    def init(E):
        st = State(); st.cl = Word()
        E.handlers['$INC'] = inchook
        # an import is under way: numbers below the next free one are taken
        E.store(st, locimp(rt.f_minr), C(first))
        E.setfact(st, E.load(st, locimp(rt.f_inofr)), (None, frozenset(), first + 1, INF))
        return st
    def params(E, st, head):
        for i in range(3):
            E.setfact(st, fld(E, st, head, O['mode']), F(c('Var'), c('VarPar')))
            head = fld(E, st, head, O['link'])
    def comps(E, st, head):
        for i in range(3):
            E.setfact(st, fld(E, st, head, O['vis']), F(c('internal'), c('external'), c('externalR')))
            head = fld(E, st, head, O['link'])
    def fld(E, st, v, f): return E.load(st, ('f', ('*', v), f))
    def setf(E, st, v, f, fact):
        if not E.setfact(st, fld(E, st, v, f), fact): raise Broken('inconsistent start state')
    def report(kind, rule, st, msg, line, proc):
        ctx.viol(rule, kind, ctx.where(proc, line), msg)
    def outcome(E, o): return [(v, t) for v, t in o['r']] + [(None, t) for t in o['n']]
    def sameval(E, st, a, b): return a == b or E.dec_eq(st, a, b) is True
    # ------- compare attribute f of reader object r with writer object w
    def cmpattr(E, st, kind, what, r, w, wst, f, proc):
        rv = E.load(st, ('f', ('*', r), f)); wv = E.norm(st, E.load(wst, ('f', ('*', w), f)))
        ok = sameval(E, st, rv, wv)
        if not ok and rv[0] == 't' and rv[1] == '*' and isc(rv[2][1]):      # method number kept, entry offset not
            q = rv[2][0]
            ok = q[0] == 't' and q[1] == 'DIV' and q[2] == (wv, rv[2][1])
        ctx.check(ok, 'attribute', '%s: %s' % (kind, what), ctx.where(proc),
                  'the reader sets %s to %s where the exported item has %s' % (what, short(rv), short(wv)))
    def short(v):
        if v is None: return '?'
        if isc(v): return repr(v[1])
        if v[0] == 's':
            k = v[1]
            if k[0] == 'init': return loc(k[1])
            return k[0]
        return '%s(%s)' % (v[1], ', '.join(short(x) for x in v[2]))
    def loc(l):
        if l[0] == 'f': return loc(l[1]) + '.' + l[2].name
        if l[0] == 'i': return loc(l[1]) + '[..]'
        if l[0] == '*': return short(l[1])
        return l[1].name if isinstance(l[1], Obj) else str(l[0])
    def cmplist(E, st, wst, kind, what, rhead, whead, attrs, proc):
        n = 0; r, w = rhead, whead
        while True:
            wn = E.dec_eq(st, w, NIL)
            rn = E.dec_eq(st, r, NIL)
            if wn is None: wn = False if E.dec_eq(wst, w, NIL) is False else None
            if wn is None: return n       # beyond the examined prefix
            ctx.check(rn == wn, 'list', '%s: %s' % (kind, what), ctx.where(proc),
                      'element %d of the %s: written %s, rebuilt %s' % (n + 1, what, 'absent' if wn else 'present', {True: 'absent', False: 'present', None: 'unknown'}[rn]))
            if wn or rn is not False: return n
            for f in attrs: cmpattr(E, st, kind, '%s.%s' % (what, f.name), r, w, wst, f, proc)
            r = E.load(st, ('f', ('*', r), O['link'])); w = E.load(wst, ('f', ('*', w), O['link'])); n += 1
    def consumed(E, st, kind, proc):
        ev, pos, wal, ins, err, ral = st.cl
        if err is not None:
            ctx.check(False, 'word', kind, ctx.where(proc, err[1]), 'the reader ' + err[0]); return False
        if not ctx.check(pos == len(ev), 'word', kind, ctx.where(proc),
                         'the reader leaves %s (written at line %s) unread' % (ev[pos][0], ev[pos][3]) if pos < len(ev) else ''): return False
        ctx.check(wal == ral, 'numbering', kind, ctx.where(proc),
                  'type/module numbers are assigned at different points: writer %s, reader %s (after how many nested types)' % (wal, ral))
        return True
    def record(E, st, wst, kind, tv):
        """visible fields / type-bound procedures: same elements, same order, same attributes"""
        root = ('f', ('*', tv), S['link'])
        got = [x[0] for x in st.cl[3] if x[1] == root]
        internal = C(c('internal'))
        fields = [g for g in got if E.dec_eq(st, fld(E, st, g, O['mode']), C(c('Fld'))) is True]
        for a, b in zip(fields, fields[1:]):
            ctx.check(fld(E, st, a, O['link']) == b, 'list', kind + ': field chain', ctx.where(instruct), 'imported fields are not chained in file order')
        vis = [g for g in got if E.dec_eq(st, fld(E, st, g, O['vis']), internal) is not True]
        w = fld(E, wst, typ, S['link']); want = []
        for i in range(4):
            if E.dec_eq(wst, w, NIL) is not False: break
            m = fld(E, wst, w, O['mode'])
            if i == 0 and E.dec_eq(wst, m, C(c('TProc'))) is True:
                if E.dec_eq(wst, fld(E, wst, w, O['vis']), internal) is False: want.append((w, True))
                break
            if E.dec_eq(wst, m, C(c('Fld'))) is not True: break
            if E.dec_eq(wst, fld(E, wst, w, O['vis']), internal) is False: want.append((w, False))
            w = fld(E, wst, w, O['link'])
        if not ctx.check(len(vis) == len(want), 'list', kind + ': components', ctx.where(instruct),
                         '%d exported components written, %d rebuilt' % (len(want), len(vis))): return
        for g, (w, tp) in zip(vis, want):
            k = kind + (' method' if tp else ' field')
            for a in ('mode', 'name', 'typ'): cmpattr(E, st, k, a, g, w, wst, O[a], instruct)
            cmpattr(E, st, k, 'adr', g, w, wst, O['adr'], instruct)
            if not tp: cmpattr(E, st, k, 'vis', g, w, wst, O['vis'], instruct)
            else: cmplist(E, st, wst, k, 'parameter list', fld(E, st, g, O['link']), fld(E, wst, w, O['link']), [O['mode'], O['typ'], O['adr'], O['name']], instruct)
    def withside(e): rt.side = 'r'
    # =========================================================== objects
    modes = {n: c(n) for n in ('Con', 'Typ', 'Var', 'XProc', 'IProc', 'CProc')}
    forms = {n: c(n) for n in ('Bool', 'Char', 'Int', 'Set', 'Real', 'LReal', 'String', 'NilTyp')}
    obj = ('s', ('in', 'obj'))
    cases = [(m, None) for m in modes if m != 'Con'] + [('Con', f) for f in forms]
    for m, f in cases:
        kind = 'object ' + m + (' ' + f if f else '')
        rt.old = None; rt.side = 'w'
        E = rt.engine(); st = init(E)
        E.setfact(st, obj, NN)
        setf(E, st, obj, O['mode'], F(modes[m]))
        setf(E, st, obj, O['vis'], F(c('external'), c('externalR')))
        setf(E, st, obj, O['history'], F(c('same')))
        ty = fld(E, st, obj, O['typ']); E.setfact(st, ty, NN)
        E.setfact(st, fld(E, st, obj, O['conval']), NN)
        if f: setf(E, st, ty, S['form'], F(forms[f]))
        params(E, st, fld(E, st, obj, O['link']))
        if m == 'Typ': E.setfact(st, fld(E, st, ty, S['strobj']), NN)
        wo = outcome(E, E.run(outobj, st, {outobj.params[0].name: obj}))
        nw = 0
        for _, ws in wo:
            ev = ws.cl[0]
            if not ev:
                ctx.check(False, 'written', kind, ctx.where(outobj), 'an exported %s is not written to the symbol file' % kind); continue
            nw += 1
            if ev[0][0] != 'int': ctx.check(False, 'word', kind, ctx.where(outobj, ev[0][3]), 'item does not start with a tag'); continue
            rt.side = 'r'
            rs = ws.copy()
            E.store(rs, locimp(rt.f_self), FALSE); E.store(rs, locimp(rt.f_next), ev[0][1])
            e_, p_, a_, i_, x_, l_ = rs.cl; rs.cl = (e_, 1, a_, i_, x_, l_)
            mno = ('s', ('in', 'mno')); E.setfact(rs, mno, (None, frozenset(), 0, INF))
            ro = outcome(E, E.run(inobj, rs, {inobj.params[0].name: mno}))
            if not ro: ctx.check(False, 'word', kind, ctx.where(inobj), 'no reader path accepts the item'); continue
            for rv, st2 in ro:
                if not consumed(E, st2, kind, inobj): continue
                if rv is None: raise Broken('InObj returned nothing')
                if m == 'Typ' and len([1 for x in ev if x[0] == 'name']) == 0:
                    # type under its own name: InObj takes the object the type carries
                    ctx.check(rv == fld(E, ws, ty, S['strobj']), 'attribute', kind + ': object', ctx.where(inobj), 'the type\'s own object is not the one imported')
                    continue
                ats = ['mode', 'name'] + (['vis'] if m == 'Var' else [])
                for a in ats: cmpattr(E, st2, kind, a, rv, obj, ws, O[a], inobj)
                if m != 'Var':
                    ctx.check(E.dec_eq(st2, fld(E, st2, rv, O['vis']), C(c('external'))) is True or sameval(E, st2, fld(E, st2, rv, O['vis']), fld(E, ws, obj, O['vis'])),
                              'attribute', kind + ': vis', ctx.where(inobj), 'imported object is not visible')
                if m != 'Con': cmpattr(E, st2, kind, 'typ', rv, obj, ws, O['typ'], inobj)
                else:
                    tv = fld(E, st2, rv, O['typ'])
                    sz = fld(E, ws, ty, S['size'])
                    want = ('s', ('inttype', sz)) if f == 'Int' else ('s', ('settype', sz)) if f == 'Set' else E.load(st2, ('i', locimp(rt.f_iref), C(forms[f])))
                    ctx.check(sameval(E, st2, tv, want), 'attribute', kind + ': typ', ctx.where(inobj), 'constant gets type %s, expected %s' % (short(tv), short(want)))
                    rc, wc = fld(E, st2, rv, O['conval']), fld(E, ws, obj, O['conval'])
                    if f in ('Bool', 'Char', 'Int'): cmpattr(E, st2, kind, 'value', rc, wc, ws, K['intval'], inobj)
                    elif f == 'Set': cmpattr(E, st2, kind, 'value', rc, wc, ws, K['setval'], inobj)
                    elif f in ('Real', 'LReal'): cmpattr(E, st2, kind, 'value', rc, wc, ws, K['realval'], inobj)
                    elif f == 'String':
                        ctx.check(E.dec_eq(st2, fld(E, st2, rc, K['ext']), NIL) is False, 'attribute', kind + ': value', ctx.where(inobj), 'string constant without characters')
                        # the length (with terminator) counts exactly the characters stored
                        ln, xt = fld(E, st2, rc, K['intval2']), fld(E, st2, rc, K['ext'])
                        if isc(ln) and isinstance(ln[1], int):
                            got = [k[2] for k in st2.env if k[0] == 'i' and k[1] == ('*', xt) and isc(k[2])]
                            last = [k for k in got if E.dec_eq(st2, E.load(st2, ('i', ('*', xt), k)), C('\0')) is True]
                            ctx.check(ln[1] >= 1 and sorted(k[1] for k in got) == list(range(ln[1])) and last == [C(ln[1] - 1)], 'attribute', kind + ': length', ctx.where(inobj),
                                      'string constant of length %s holds characters at %s' % (ln[1], sorted(k[1] for k in got)))
                if m in ('XProc', 'IProc', 'CProc'):
                    cmplist(E, st2, ws, kind, 'parameter list', fld(E, st2, rv, O['link']), fld(E, ws, obj, O['link']), [O['mode'], O['typ'], O['adr'], O['name']], inobj)
                if m == 'CProc':
                    re_, we_ = fld(E, st2, fld(E, st2, rv, O['conval']), K['ext']), fld(E, ws, fld(E, ws, obj, O['conval']), K['ext'])
                    for i in range(3):
                        li = ('i', ('*', re_), C(i)); lw = ('i', ('*', we_), C(i))
                        if li in st2.env:
                            a, b = E.load(st2, li), E.load(ws, lw)
                            same = sameval(E, st2, a, b) or (isc(a) and sameval(E, ws, C(ord(a[1])), E.norm(ws, ('t', 'ORD', (b,)))))
                            ctx.check(same, 'attribute', kind + ': code', ctx.where(inobj), 'code text character %d differs' % i)
                # the imported object becomes findable under its module
                ctx.check(any(x[0] == rv for x in st2.cl[3]), 'inserted', kind, ctx.where(inobj), 'imported object is not entered into the module scope')
            rt.side = 'w'
        if nw == 0: raise Broken('no writer path for ' + kind)
        ctx.extra.setdefault('writer_paths', {})[kind] = nw
    # =========================================================== structures
    typ = ('s', ('in', 'typ'))
    pf = [('Pointer', 'Basic'), ('ProcTyp', 'Basic'), ('Comp', 'Array'), ('Comp', 'DynArr'), ('Comp', 'Record')]
    dims = [(sc, f, k, d) for sc in ('first import', 'import over a known type') for f, k in pf for d in ('header', 'content')]
    for scen, form, comp, dim in dims:
            if dim == 'content' and (form, comp) not in (('ProcTyp', 'Basic'), ('Comp', 'Record')): continue
            kind = 'type %s%s (%s, %s)' % (form, '/' + comp if form == 'Comp' else '', scen, dim)
            rt.side = 'w'; rt.old = None
            E = rt.engine(); st = init(E)
            E.setfact(st, typ, NN)
            setf(E, st, typ, S['form'], F(c(form))); setf(E, st, typ, S['comp'], F(c(comp)))
            eref = E.load(st, ('f', ('g', exp), rt.f_eref))
            ref = fld(E, st, typ, S['ref'])
            E.setfact(st, ('t', '<', (ref, eref)), F(False))
            bt = fld(E, st, typ, S['BaseTyp'])
            if comp != 'Record': E.setfact(st, bt, NN)
            lm = find_field(exp.typ, 'locmno')
            so = fld(E, st, typ, S['strobj'])
            if dim == 'header': E.setfact(st, fld(E, st, typ, S['link']), F(None))
            else:
                E.setfact(st, so, NN)
                E.setfact(st, E.rel(st, '=', fld(E, st, so, O['name']), C('')), F(False))
                setf(E, st, so, O['history'], F(c('same'))); setf(E, st, typ, S['sysflag'], F(0))
                E.setfact(st, bt, NN)
            if form == 'ProcTyp': params(E, st, fld(E, st, typ, S['link']))
            if comp == 'Record':
                comps(E, st, fld(E, st, typ, S['link']))
                params(E, st, fld(E, st, fld(E, st, typ, S['link']), O['link']))
            w0 = E.run(outstr, st, {outstr.params[0].name: typ})
            wo = outcome(E, w0); nw = 0
            seen = set()
            for _, ws in wo:
                ev = ws.cl[0]
                if any(x[0] == 'bad' for x in ev): continue
                key = (tuple(x[:2] for x in ev), frozenset((k, v) for k, v in ws.facts.items() if 'history' not in repr(k)))
                if key in seen: continue
                seen.add(key)
                nw += 1
                rt.side = 'r'
                rs = ws.copy()
                E.store(rs, locimp(rt.f_self), FALSE)
                named = any(x[0] == 'name' and x[1] == fld(E, ws, so, O['name']) for x in ev)
                if scen != 'first import':
                    if not named: rt.side = 'w'; continue
                    rt.old = ('s', ('in', 'oldobj')); E.setfact(rs, rt.old, NN)
                    ot = fld(E, rs, rt.old, O['typ']); E.setfact(rs, ot, NN)
                else: rt.old = None
                # number of a module already seen is not negative
                res = instruct.params[0]
                ro = outcome(E, E.run(instruct, rs))
                if not ro: ctx.check(False, 'word', kind, ctx.where(instruct), 'no reader path accepts the type')
                for _, st2 in ro:
                    if not consumed(E, st2, kind, instruct): continue
                    tv = E.load(st2, ('v', res, ()))
                    for a in ('form', 'comp'):
                        if a == 'comp' and form != 'Comp': continue
                        cmpattr(E, st2, kind, a, tv, typ, ws, S[a], instruct)
                    # system flag: written exactly when not zero
                    rv, wv = fld(E, st2, tv, S['sysflag']), fld(E, ws, typ, S['sysflag'])
                    if scen == 'first import' or named: 
                        ctx.check(sameval(E, st2, rv, wv), 'attribute', kind + ': sysflag', ctx.where(instruct), 'system flag %s rebuilt as %s' % (short(wv), short(rv)))
                    if form == 'Comp' and comp == 'Array': cmpattr(E, st2, kind, 'length', tv, typ, ws, S['n'], instruct)
                    if comp == 'Record':
                        for a in ('size', 'align', 'n'): cmpattr(E, st2, kind, a, tv, typ, ws, S[a], instruct)
                    if form != 'ProcTyp' and comp != 'Record': cmpattr(E, st2, kind, 'base type', tv, typ, ws, S['BaseTyp'], instruct)
                    if comp == 'Record':
                        rb, wb = fld(E, st2, tv, S['BaseTyp']), fld(E, ws, typ, S['BaseTyp'])
                        if E.dec_eq(ws, wb, NIL): 
                            ctx.check(E.dec_eq(st2, rb, NIL) is not False, 'attribute', kind + ': base type', ctx.where(instruct), 'record without base is rebuilt with one')
                        elif rb != NIL: ctx.check(sameval(E, st2, rb, wb), 'attribute', kind + ': base type', ctx.where(instruct), 'base type %s rebuilt as %s' % (short(wb), short(rb)))
                        record(E, st2, ws, kind, tv)
                    if form == 'ProcTyp':
                        cmpattr(E, st2, kind, 'result type', tv, typ, ws, S['BaseTyp'], instruct)
                        cmplist(E, st2, ws, kind, 'parameter list', fld(E, st2, tv, S['link']), fld(E, ws, typ, S['link']), [O['mode'], O['typ'], O['adr'], O['name']], instruct)
                    if named:
                        nm = fld(E, st2, fld(E, st2, tv, S['strobj']), O['name'])
                        ctx.check(sameval(E, st2, nm, fld(E, ws, so, O['name'])), 'attribute', kind + ': name', ctx.where(instruct), 'type name rebuilt as %s' % short(nm))
                    tm = fld(E, st2, tv, S['mno'])
                    if ev[1][0] == 'int' and not isc(ev[1][1]):      # a module the file already mentioned
                        num = E.binop(ws, '-', C(0), ev[1][1]) if ev[1][1][0] != 't' else ev[1][1][2][0]
                        ctx.check(tm == E.load(st2, ('i', locimp(rt.f_iglb), E.norm(st2, num))), 'attribute', kind + ': module', ctx.where(instruct),
                                  'type is attached to %s' % short(tm))
                rt.side = 'w'
            if nw == 0: raise Broken('no writer path for ' + kind)
            ctx.extra.setdefault('writer_paths', {})[kind] = nw
    header(ctx, rt, init, outcome, consumed)
    primitives(ctx)
    ctx.floor('word', 400); ctx.floor('attribute', 2000); ctx.floor('list', 200); ctx.floor('primitive', 5)
    ctx.assume('symbol-file items nested inside an item (component types, subtrees) are themselves instances of the same obligation')
    ctx.assume('lists are compared element by element for their first two elements; the loop bodies are uniform in the element')
    ctx.notes.append('paths cut at nested recursion: %d' % E.pruned)

def header(ctx, rt, init, outcome, consumed):
    """module name, link list and object sequence: Import after Export"""
    exp, imp = ctx.proc('OPT.Export'), ctx.proc('OPT.Import')
    rt.side = 'w'; rt.old = None
    E = rt.engine(); st = init(E); rt.nonempty = True
    stub = lambda E, n, a, st: [(('s', ('u', n.uid)), st)]
    for q in ('OPT.Import', 'OPM.NewSym', 'OPM.DeleteSym', 'OPM.CloseOldSym', 'OPT.Insert', 'OPT.FindImport'): E.handlers[q] = stub
    def insert(E, n, a, st):
        st = st.copy(); E.store(st, a[1][1], E.fresh(st, ('new', n.uid, E.ctx)), n.uid); return [(NIL, st)]
    E.handlers['OPT.Insert'] = insert
    def outobj(E, n, a, st):
        st = st.copy(); ev, pos, wal, ins, err, ral = st.cl
        st.cl = (ev + (('int', ('s', ('tag',)), 1, n.line), ('obj', a[0], 0, n.line)), pos, wal, ins, err, ral)
        return [(NIL, st)]
    def inobj(E, n, a, st):
        st = st.copy(); e = rt.take(st, 'obj', n.line)
        o = E.fresh(st, ('new', n.uid, E.ctx)); return [(o, st)]
    E.handlers['OPT.OutObj'] = outobj; E.handlers['OPT.InObj'] = inobj
    def oldsym(E, n, a, st):
        st = st.copy(); E.store(st, a[1][1], TRUE, n.uid); return [(NIL, st)]
    E.handlers['OPM.OldSym'] = oldsym
    inner = E.handlers['OPM.SymRInt']
    def rint(E, n, a, st):
        if st.cl[1] >= len(st.cl[0]):         # reading past the last item sets end-of-file
            st = st.copy(); ev, pos, wal, ins, err, ral = st.cl; st.cl = (ev, pos + 1, wal, ins, err, ral)
            return [(('s', ('eof',)), st)]
        return inner(E, n, a, st)
    E.handlers['OPM.SymRInt'] = rint
    E.handlers['OPM.eofSF'] = lambda E, n, a, st: [(C(st.cl[1] > len(st.cl[0])), st)]
    noerr = ctx.obj('OPM.noerr')
    E.store(st, ('g', noerr), TRUE)
    n = 0
    seen = set()
    for _, ws in outcome(E, E.run(exp, st)):
        ev = ws.cl[0]
        k = tuple(x[:2] for x in ev)
        if not ev or k in seen: continue
        seen.add(k); n += 1
        rt.side = 'r'
        rs = ws.copy(); rs.cl = ws.cl[:4] + (None, ())
        ok = False
        nm = ctx.obj('OPT.SelfName')
        for _, st2 in outcome(E, E.run(imp, rs, {'aliasName': ('s', ('in', 'alias'))})):
            e_, pos, w_, i_, err, r_ = st2.cl
            if pos == 0 and err is None: continue        # not importing from a file
            ctx.check(err is None, 'word', 'file header', ctx.where(imp, err[1] if err else None), 'the reader %s' % (err[0] if err else ''))
            if err is None: ctx.check(pos > len(ev), 'word', 'file header', ctx.where(imp), 'the reader stops before the end of the file')
            ok = True
        ctx.check(ok, 'word', 'file header', ctx.where(imp), 'no reader path accepts the file')
        rt.side = 'w'
    if n == 0: raise Broken('no writer path for the file header')

def primitives(ctx):
    """each symbol-file primitive reads with the codec it was written with, in the same width, on the symbol-file riders"""
    fl = ctx.module('Files')
    newSF, oldSF = ctx.obj('OPM.newSF'), ctx.obj('OPM.oldSF')
    def codec(q):
        p = ctx.proc(q); E = Engine(ctx.world()); got = []
        E.policy = lambda o: 'inline' if o.mod == 'OPM' else 'opaque'
        for o in fl.scope.names.values():
            if o.kind == 'proc' and (o.name.startswith('Read') or o.name.startswith('Write')):
                def h(E, n, a, st, nm=o.name):
                    st = st.copy(); v = None
                    if nm.startswith('Read'):
                        v = E.fresh(st, ('read', n.uid, E.ctx)); E.store(st, a[1][1], v, n.uid)
                    else: v = E.load(st, a[1][1]) if a[1][0] == 'l' else E.norm(st, a[1])
                    sz = n.b[1].typ.size if n.b[1].typ is not None else 0
                    
                    if not any(x[5] == n.uid for x in got): got.append((nm, a[0], v, sz, n.line, n.uid))
                    return [(('s', ('ret', n.uid)), st)]
                E.handlers['Files.' + o.name] = h
        out = E.run(p)
        return p, got, out, E
    def rider(v, g): return v[0] == 'l' and v[1] == ('g', g)
    width = {'Ch': 1, 'Int': 4, 'Int64': 8, 'Set': 8, 'Real': 4, 'LReal': 8}
    for k, rs in (('Ch', ['Ch']), ('Int', ['Int', 'Int64']), ('Set', ['Set']), ('Real', ['Real']), ('LReal', ['LReal'])):
        wp, w, wout, E = codec('OPM.SymW' + k)
        nm = 'SymW' + k
        if ctx.check(len(w) == 1, 'primitive', nm, ctx.where(wp), 'writes %d items' % len(w)):
            pv = ('s', ('init', ('v', wp.params[0], ())))
            v = w[0][2]
            while v[0] == 't' and v[1] == 'SYSTEM.VAL': v = v[2][-1]
            st = wout['n'][0] if wout['n'] else None
            st = st[1] if isinstance(st, tuple) else st
            same = v == pv or (st is not None and v == E.load(st, ('v', wp.params[0], ())))
            ctx.check(rider(w[0][1], newSF) and same, 'primitive', nm + ' value', ctx.where(wp, w[0][4]), 'writes %r instead of its argument to the new symbol file' % (v,))
        for r in rs:
            rp, g, rout, E = codec('OPM.SymR' + r)
            if not ctx.check(len(w) == 1 and len(g) == 1 and w[0][0].replace('Write', '') == g[0][0].replace('Read', ''), 'primitive', 'SymW%s/SymR%s' % (k, r),
                      ctx.where(rp), 'written with %s, read with %s' % ([x[0] for x in w], [x[0] for x in g])): continue
            nm, ri, v, sz, line, _ = g[0]
            ctx.check(rider(ri, oldSF) and sz >= width[r], 'primitive', 'SymR%s width' % r, ctx.where(rp, line), 'reads into %d bytes, needs %d' % (sz, width[r]))
            res = [x[0] for x in rout['r']] if r.startswith('Int') else [E.load(t[1] if isinstance(t, tuple) else t, ('v', rp.params[0], ())) for t in rout['n']]
            ctx.check(bool(res) and all(x == v for x in res), 'primitive', 'SymR%s result' % r, ctx.where(rp), 'returns %s, not what was read' % (res,))
    # file tag and version: what a new file starts with is what an old file is accepted by
    wp, w, wout, E = codec('OPM.NewSym')
    rp, g, rout, E = codec('OPM.OldSym')
    w = [x for x in w if rider(x[1], newSF)]; g = [x for x in g if rider(x[1], oldSF)]
    ctx.check(len(w) == len(g) == 2, 'primitive', 'file tag', ctx.where(rp), '%d tag items written, %d read' % (len(w), len(g)))
    done = rp.params[1]
    nt = 0
    for t in rout['n']:
        t = t[1] if isinstance(t, tuple) else t
        if E.decide(t, E.load(t, ('v', done, ()))) is not True: continue
        nt += 1
        for x, y in zip(w, g):
            ctx.check(E.dec_eq(t, y[2], x[2]) is True, 'primitive', 'file tag accepted', ctx.where(rp, y[4]), 'a file is accepted without its tag/version being the written one')
    if not nt: raise Broken('no accepting path in OldSym')

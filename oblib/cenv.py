"""Meaning of the C the code generator writes for variables: declarations and designators are
evaluated to storage locations.  Storage of an Oberon variable x is ('S', x)."""
from .codegen import *
from .emit import merge

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r
def pmul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            m = tuple(sorted(a + b)); r[m] = r.get(m, 0) + c * d
            if not r[m]: del r[m]
    return r
def pc(n): return {(): n} if n else {}
def pa(a): return {(a,): 1}
def fz(p): return tuple(sorted(p.items()))

class Vars(Gen):
    """Gen with variables, scopes and declarations"""
    def __init__(s, ctx):
        super().__init__(ctx)
        s.tn = {}                        # C type name -> (kind, element ctype)
        s.pre = C(ctx.const('OPC.PredefinedType'))
        s.obj_ = {}
    recs = frozenset()
    def rec(s, st, key, tab, **kv):
        v = super().rec(st, key, tab, **kv); s.recs = s.recs | {v}; return v
    def engine(s, **kw):
        e = super().engine(**kw); e.distinct = set(e.distinct) | s.recs; return e
    def start(s, opts=(), level=1):
        s.tn = {}
        s.types = {}; s.sobj = {}; st = super().start(opts, level)
        s.glob(st, 'OPC.indentLevel', C(0)); s.glob(st, 'OPM.currFile', C(s.rctx.const('OPM.BodyFile')))
        s.glob(st, 'OPM.modName', C('M'))
        return st
    def typ(s, st, k):
        if k in s.types: return s.types[k]
        f, size, cn = BASIC[k]
        o = s.rec(st, 'I:' + cn, s.O, name=C(cn if cn != '?' else 'x'), linkadr=s.pre, mnolev=C(0), mode=C(s.c('Typ')))
        v = s.rec(st, 'T_' + k, s.S, form=C(s.m(f)), size=C(size), comp=C(s.m('Basic')), strobj=o, BaseTyp=NIL, link=NIL, n=C(0), sysflag=C(0), align=C(0))
        s.setf(st, o, s.O, 'typ', v); s.types[k] = v; s.sobj[v] = o
        s.tn.setdefault(cn, ('basic', k))
        return v
    def named(s, st, key, **kw):
        v = s.ptyp(st, key, named=False, **kw)
        o = s.rec(st, 'I:' + key, s.O, name=C(key), linkadr=s.pre, mnolev=C(0), mode=C(s.c('Typ')), typ=v)
        s.setf(st, v, s.S, 'strobj', o); s.sobj[v] = o
        return v
    def record(s, st, key='TyR', base=NIL, named=True, **kw):
        if key in s.types: return s.types[key]
        s.tn[key] = ('record', None)
        f = s.named if named else s.ptyp
        return f(st, key, **dict(dict(form=C(s.m('Comp')), comp=C(s.m('Record')), BaseTyp=base, link=NIL, align=C(0x10007 if not named else 4), **({} if named else dict(named=False))), **kw))
    def pointer(s, st, key, base, named=True, **kw):
        if key in s.types: return s.types[key]
        s.tn[key] = ('pointer', base)
        f = s.named if named else s.ptyp
        return f(st, key, form=C(s.m('Pointer')), comp=C(s.m('Basic')), size=C(8), BaseTyp=base, link=NIL, **({} if named else dict(named=False)))
    def array(s, st, key, elem, n, named=True):
        if key in s.types: return s.types[key]
        f = s.named if named else s.ptyp
        v = f(st, key, form=C(s.m('Comp')), comp=C(s.m('Array')), n=C(n), BaseTyp=elem, link=NIL, size=('s', 'size_' + key), **({} if named else dict(named=False)))
        s.tn[key] = ('array', elem)
        return v
    def openarr(s, st, key, elem):
        if key in s.types: return s.types[key]
        return s.ptyp(st, key, named=False, form=C(s.m('Comp')), comp=C(s.m('DynArr')), n=C(0), BaseTyp=elem, link=NIL, size=C(-1))
    def proct(s, st, key='TyPROC'):
        if key in s.types: return s.types[key]
        s.tn[key] = ('proc', None)
        return s.named(st, key, form=C(s.m('ProcTyp')), comp=C(s.m('Basic')), size=C(8), BaseTyp=s.typ(st, 'NOTYP'), link=NIL)
    def var(s, st, name, typ, mode='Var', lev=1, scope=NIL, leaf=False, link=NIL, vis=0, adr=0):
        o = s.rec(st, 'I:' + name, s.O, name=C(name), mode=C(s.c(mode)), typ=typ, mnolev=C(lev), scope=scope, leaf=C(leaf), link=link, vis=C(vis), adr=C(adr), conval=NIL, left=NIL, right=NIL)
        return o
    def istype(s, n): return super().istype(n) or n in s.tn
    # ---- ctypes: (base name or struct tag, suffix from the outside inwards)
    def ctype(s, base, d):
        b = base[1] if base[0] == 'name' else 'struct ' + base[1]
        return (b, tuple('*' if x == '*' else ('[', x[1]) if x[0] == '[]' else ('(',) for x in d))
    def tyname(s, t):
        n = t[0][2:] if False else None
        return n
    def deref(s, ct):
        b, d = ct
        if d:
            if d[0] == '*' or d[0][0] == '[': return (b, d[1:])
            raise SemErr('indirection through a function')
        k = s.tn.get(b)
        if k and k[0] == 'array': return s.ctof(k[1])
        if k and k[0] == 'pointer': return s.ctof(k[1])
        raise SemErr('%s is neither a pointer nor an array' % (s.ctshow(ct),))
    def isarr(s, ct):
        b, d = ct
        if d: return d[0] != '*' and d[0][0] == '['
        return s.tn.get(b, ('', 0))[0] == 'array'
    def isptr(s, ct):
        b, d = ct
        if d: return d[0] == '*'
        return s.tn.get(b, ('', 0))[0] in ('pointer', 'proc')
    def ctof(s, t, st=None):
        """C type of a struct value"""
        st = st or s.st0; E = s.E0
        g = lambda n: E.load(st, ('f', ('*', t), s.S[n]))
        so = g('strobj'); comp = g('comp'); form = g('form')
        if so != NIL and so[0] == 's' and comp != C(s.m('DynArr')):
            return (E.load(st, ('f', ('*', so), s.O['name']))[1], ())
        if comp == C(s.m('Record')): return ('struct ' + s.andent(st, t), ())
        b = g('BaseTyp')
        if comp == C(s.m('Array')): e = s.ctof(b, st); return (e[0], (('[', ('num', str(g('n')[1]))),) + e[1])
        if comp == C(s.m('DynArr')): return s.ctof(b, st)                     # element type, flattened
        if form == C(s.m('Pointer')):
            if E.load(st, ('f', ('*', b), s.S['comp'])) == C(s.m('DynArr')): return ('struct ', ('*',))
            e = s.ctof(b, st); return (e[0], ('*',) + e[1])
        raise Broken('C type of %s' % (t,))
    def andent(s, st, t):
        if t[1][:2] == 'T_': return t[1][2:]
        return t[1]
    def ctshow(s, ct): return '%s%s' % (ct[0], ''.join(x if x == '*' else x[0] + ']' * (x[0] == '[') for x in ct[1]))
    def same(s, a, b):
        if a[0].startswith('struct ') and b[0].startswith('struct '): return a[1] == b[1]
        return a[0] == b[0] and len(a[1]) == len(b[1]) and all((x == y) or (x != '*' and y != '*' and x[0] == y[0] and (len(x) < 2 or x[1] is None or y[1] is None or x[1] == y[1])) for x, y in zip(a[1], b[1]))
    def use(s, st):
        s.st0 = st; s.E0 = s.engine()

class CEval:
    """env: C name -> value; values: ('lv', loc, ctype) or ('rv', value, ctype); pointer values are ('to', loc)"""
    def __init__(s, G, env, fields=None): s.G, s.env, s.fields, s.checks, s.guards = G, env, fields if fields is not None else {}, [], []
    def ev(s, a):
        k = a[0]; G = s.G
        if k == 'par': return s.ev(a[1])
        if k == 'id':
            if a[1] in s.env: return s.env[a[1]]
            raise SemErr('%s is not declared here' % a[1])
        if k == 'num': return ('rv', ('num', int(a[1].rstrip('uUlL'), 0)), ('int', ()))
        if k == 'cast':
            v = s.rv(s.ev(a[2])); ty = a[1]
            st = 0
            while ty.endswith('*'): ty = ty[:-1].strip(); st += 1
            return ('rv', v[1], (ty, ('*',) * st))
        if k == 'un' and a[1] == '*':
            v = s.rv(s.ev(a[2]))
            if v[1][0] != 'to': raise SemErr('indirection through something that is not a pointer: %s' % cexpr.show(a[2]))
            return ('lv', v[1][1], G.deref(v[2]) if v[2][0] != 'void' else v[2])
        if k == 'un' and a[1] == '&':
            v = s.ev(a[2])
            if v[0] != 'lv': raise SemErr('address of something that is not a variable: %s' % cexpr.show(a[2]))
            return ('rv', ('to', v[1]), (v[2][0], ('*',) + v[2][1]))
        if k == 'mem':
            b = s.ev(a[2])
            if a[1] == '->':
                b = s.rv(b)
                if b[1][0] != 'to': raise SemErr('-> applied to something that is not a pointer')
                loc = b[1][1]
            else:
                if b[0] != 'lv': raise SemErr('. applied to something that is not a variable')
                if b[2][1] and b[2][1][0] == '*': raise SemErr('. applied to a pointer')
                loc = b[1]
            if (loc, a[3]) in s.fields: return s.fields[(loc, a[3])]
            if loc[0] == 'scope': raise SemErr('%s is not a field of the scope record' % a[3])
            return ('lv', ('field', loc, a[3]), s.ftype(a[3]))
        if k == 'idx':
            b = s.rv(s.ev(a[1]))
            if b[1][0] != 'to': raise SemErr('index applied to something that is not an array: %s' % cexpr.show(a[1]))
            loc = b[1][1]; ct = G.deref(b[2])
            if a[2][0] == 'id' and False: pass
            return ('lv', ('elem', loc, fz(s.poly(a[2])), ct), ct)
        if k == 'call' and a[1][0] == 'id': return s.macro(a[1][1], a[2])
        raise SemErr('unexpected C in a designator: %s' % cexpr.show(a))
    def suffix(s, a, x):
        if a[0] == 'par': return s.suffix(a[1], x)
        if a[0] == 'id': return ('id', a[1] + x)
        if a[0] == 'mem': return a[:3] + (a[3] + x,)
        if a[0] == 'cast': return s.suffix(a[2], x)
        raise SemErr('%s is not the name of a parameter' % cexpr.show(a))
    def tag(s, a):
        """value of a type tag: ('tag', ...) of a parameter, ('tagof', location), ('desc', type)"""
        if a[0] == 'par': return s.tag(a[1])
        if a[0] == 'id' and a[1] not in s.env and a[1].endswith('__typ'): return ('desc', a[1][:-5])
        v = s.rv(s.ev(a))
        if v[1][0] in ('tag', 'tagof', 'desc'): return v[1]
        raise SemErr('%s is not a type tag' % cexpr.show(a))
    def macro(s, m, l):
        G = s.G
        def nm(x):
            if x[0] not in ('id', 'type'): raise SemErr('type name expected: %s' % cexpr.show(x))
            return x[1]
        def num(x):
            if x[0] != 'num': raise SemErr('number expected: %s' % cexpr.show(x))
            return int(x[1])
        def ptr(x):
            v = s.rv(s.ev(x))
            if v[1][0] != 'to': raise SemErr('%s is not a pointer' % cexpr.show(x))
            return v
        n = {'__GUARDP': 3, '__GUARDA': 3, '__GUARDR': 3, '__GUARDEQR': 3, '__GUARDEQP': 2, '__IS': 3, '__ISP': 3, '__TYPEOF': 1}.get(m)
        if n is None or len(l) != n: raise SemErr('unexpected call of %s' % m)
        if m in ('__GUARDP', '__GUARDA'):
            v = ptr(l[0]); s.guards.append((('tagof', v[1][1]), nm(l[1]), num(l[2]))); return ('rv', v[1], (('struct ' if m == '__GUARDA' else '') + nm(l[1]), ('*',)))
        if m == '__GUARDR':
            v = ptr(l[0]); s.guards.append((s.tag(s.suffix(l[0], '__typ')), nm(l[1]), num(l[2]))); return ('lv', v[1][1], (nm(l[1]), ()))
        if m == '__GUARDEQR':
            v = ptr(l[0]); s.guards.append((s.tag(l[1]), nm(l[2]), '=')); return ('lv', v[1][1], G.deref(v[2]))
        if m == '__GUARDEQP':
            v = ptr(l[0]); s.guards.append((('tagof', v[1][1]), nm(l[1]), '=')); return ('lv', v[1][1], (nm(l[1]), ()))
        if m == '__TYPEOF': v = ptr(l[0]); return ('rv', ('tagof', v[1][1]), ('ADDRESS', ('*',)))
        if m == '__IS': return ('rv', ('is', s.tag(l[0]), nm(l[1]), num(l[2])), ('int', ()))
        v = ptr(l[0]); return ('rv', ('is', ('tagof', v[1][1]), nm(l[1]), num(l[2])), ('int', ()))
    ft = {}
    def ftype(s, f): return s.ft.get(f, ('?', ()))
    def rv(s, v):
        """value of an lvalue: arrays become pointers to their storage"""
        if v[0] == 'rv': return v
        if v[1][0] == 'pvar': return ('rv', ('to', v[1][1]), v[2])
        if s.G.isarr(v[2]): return ('rv', ('to', v[1]), (s.G.deref(v[2])[0], ('*',) + s.G.deref(v[2])[1]))
        if s.G.isptr(v[2]) or v[2][0] == '?': return ('rv', ('to', ('deref', v[1])), v[2])
        return ('rv', ('value', v[1]), v[2])
    def poly(s, a):
        k = a[0]
        if k == 'par': return s.poly(a[1])
        if k == 'num': return pc(int(a[1].rstrip('uUlL'), 0))
        if k == 'bin' and a[1] in '+-': return padd(s.poly(a[2]), s.poly(a[3]), 1 if a[1] == '+' else -1)
        if k == 'bin' and a[1] == '*': return pmul(s.poly(a[2]), s.poly(a[3]))
        if k == 'call' and a[1] in (('id', '__X'), ('id', '__XF')):
            if len(a[2]) != 2: raise SemErr('%s with %d arguments' % (a[1][1], len(a[2])))
            x, n = s.poly(a[2][0]), s.poly(a[2][1]); s.checks.append((fz(x), fz(n), a[1][1])); return x
        if k == 'id' and a[1].startswith('$'): return pa(a[1])
        v = s.ev(a)
        if v[0] == 'rv' and v[1][0] == 'num': return pc(v[1][1])
        return pa(repr(v[1]))
class GV(Vars):
    vars = {}
    def engine(s, **kw):
        e = super().engine(**kw)
        for h in ('OPC.CompleteIdent', 'OPC.TypeOf'): e.handlers.pop(h, None)
        return e
    def text(s, toks, holes=None):
        t2 = []
        for t in toks:
            if t[0] == 'I' and t[1] in s.vars: t2.append(('T', s.vars[t[1]] + '_'))
            else: t2.append(t)
        return super().text(tuple(t2), holes)
    def single(s, r, what):
        if len(r) != 1: raise Broken('%s: %d paths' % (what, len(r)))
        if any(t[0] == 'ERR' for t in r[0][0]): raise Broken('%s reports an error' % what)


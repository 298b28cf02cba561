"""Oberon-2 (voc dialect) front end: lexer, parser, name and type resolution.

Independent of the compiler under test.  Every run parses the current working
tree; nothing is cached between runs.
"""
import os, re

class FrontError(Exception):
    pass

KEYWORDS = set("""ARRAY BEGIN BY CASE CONST DIV DO ELSE ELSIF END EXIT FOR IF IMPORT IN IS LOOP
MOD MODULE NIL OF OR POINTER PROCEDURE RECORD REPEAT RETURN THEN TO TYPE UNTIL VAR WHILE WITH""".split())

TOK = re.compile(r"""
  (?P<ws>[\x00-\x20]+)
 |(?P<ident>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9A-F]*X|[0-9][0-9A-Fa-f]*[Hh]|[0-9]+\.(?!\.)[0-9]*(?:[EDed][+-]?[0-9]+)?|[0-9]+)
 |(?P<str>"[^"\n]*"|'[^'\n]*')
 |(?P<op>:=|\.\.|<=|>=|[-+*/&~.,;|(\[{^=\#<>:)\]}])
""", re.X)

class Tok:
    __slots__ = ('k', 'v', 'line', 'pos')
    def __init__(s, k, v, line, pos): s.k, s.v, s.line, s.pos = k, v, line, pos
    def __repr__(s): return '%s(%r)@%d' % (s.k, s.v, s.line)

def lex(text, fname):
    toks = []; i = 0; line = 1; n = len(text)
    while i < n:
        c = text[i]
        if c == '\n': line += 1; i += 1; continue
        if c in ' \t\r\x0c\x1a\x00': i += 1; continue
        if c == '(' and text.startswith('(*', i):
            d = 1; i += 2
            while i < n and d:
                if text.startswith('(*', i): d += 1; i += 2
                elif text.startswith('*)', i): d -= 1; i += 2
                else:
                    if text[i] == '\n': line += 1
                    i += 1
            if d: toks.append(Tok('illegal', 'unterminated comment', line, i))
            continue
        m = TOK.match(text, i)
        if not m or m.end() == i:
            # reported by the parser only if it is reached (text after END X. is free)
            toks.append(Tok('illegal', c, line, i)); i += 1; continue
        k = m.lastgroup; v = m.group()
        if k == 'ident' and v in KEYWORDS: k = v
        elif k == 'op': k = v
        toks.append(Tok(k, v, line, i))
        line += v.count('\n'); i = m.end()
    toks.append(Tok('eof', '', line, n))
    return toks

# ---------------------------------------------------------------- types
class Type:
    __slots__ = ('form', 'size', 'base', 'n', 'fields', 'name', 'mod', 'params', 'res', 'sysflag',
                 'tprocs', 'uid', 'line', 'lenexpr')
    _n = 0
    def __init__(s, form, size=0, name=None):
        s.form, s.size, s.name = form, size, name
        s.base = None; s.n = None; s.fields = None; s.mod = None; s.params = None; s.res = None
        s.sysflag = 0; s.tprocs = None; s.line = 0; s.lenexpr = None
        Type._n += 1; s.uid = Type._n
    def __repr__(s):
        if s.name: return s.name
        return {'pointer': 'POINTER TO %s', 'array': 'ARRAY OF %s', 'dynarr': 'ARRAY OF %s'}.get(s.form, s.form + '%.0s') % (
            s.base.name if s.base is not None and s.base is not s and s.base.name else '..')
    def isint(s): return s.form == 'int'
    def deref(s): return s.base if s.form == 'pointer' else s
    def qname(s): return '%s.%s' % (s.mod, s.name) if s.mod and s.name else repr(s)

undf = Type('undef'); notyp = Type('notyp'); niltyp = Type('nil'); strtyp = Type('string')
booltyp = Type('bool', 1, 'BOOLEAN'); chartyp = Type('char', 1, 'CHAR'); bytetyp = Type('byte', 1, 'SYSTEM.BYTE')
settyp = Type('set', 4, 'SET'); realtyp = Type('real', 4, 'REAL'); lrltyp = Type('lreal', 8, 'LONGREAL')
sinttyp = Type('int', 1, 'SHORTINT'); inttyp = Type('int', 2, 'INTEGER'); linttyp = Type('int', 4, 'LONGINT')
hinttyp = Type('int', 8, 'HUGEINT')
i8 = Type('int', 1, 'SYSTEM.INT8'); i16 = Type('int', 2, 'SYSTEM.INT16'); i32 = Type('int', 4, 'SYSTEM.INT32')
i64 = Type('int', 8, 'SYSTEM.INT64'); adrtyp = Type('int', 8, 'SYSTEM.ADDRESS')
set32 = Type('set', 4, 'SYSTEM.SET32'); set64 = Type('set', 8, 'SYSTEM.SET64')
sysptr = Type('pointer', 8, 'SYSTEM.PTR'); sysptr.base = undf

class Obj:
    __slots__ = ('kind', 'name', 'typ', 'val', 'mod', 'vis', 'line', 'scope', 'level', 'params', 'res', 'body',
                 'locals', 'recv', 'code', 'parent', 'uid', 'owner', 'fwd', 'nested', 'sysflag', 'node')
    _n = 0
    def __init__(s, kind, name, typ=None, line=0):
        s.kind, s.name, s.typ, s.line = kind, name, typ, line
        s.val = None; s.mod = None; s.vis = ''; s.scope = None; s.level = 0; s.params = None; s.res = None
        s.body = None; s.locals = None; s.recv = None; s.code = None; s.parent = None; s.owner = None; s.fwd = False
        s.nested = None; s.sysflag = 0; s.node = None
        Obj._n += 1; s.uid = Obj._n
    def __repr__(s): return '<%s %s>' % (s.kind, s.qname())
    def qname(s):
        if s.kind == 'tproc' and s.recv is not None:
            t = s.recv.typ.deref() if s.recv.typ else None
            return '%s.%s.%s' % (s.mod, t.name if t is not None else '?', s.name)
        if s.parent is not None and s.kind != 'field': return s.parent.qname() + '.' + s.name
        return '%s.%s' % (s.mod, s.name) if s.mod else s.name

# ---------------------------------------------------------------- AST
class Node:
    __slots__ = ('k', 'line', 'typ', 'a', 'b', 'c', 'd', 'uid')
    _n = 0
    def __init__(s, k, line, a=None, b=None, c=None, d=None):
        s.k, s.line, s.a, s.b, s.c, s.d = k, line, a, b, c, d
        s.typ = None
        Node._n += 1; s.uid = Node._n
    def __repr__(s): return show(s)

def show(e):
    """compact rendering, for reports only"""
    if e is None: return ''
    if isinstance(e, (list, tuple)): return ', '.join(show(x) for x in e)
    if not isinstance(e, Node): return str(e)
    k = e.k
    if k == 'num' or k == 'real': return str(e.a)
    if k == 'char': return '%02XX' % e.a
    if k == 'str': return '"%s"' % e.a
    if k == 'nil': return 'NIL'
    if k == 'set': return '{%s}' % ', '.join(show(x[0]) + ('..' + show(x[1]) if x[1] is not None else '') for x in e.a)
    if k == 'name': return e.a.name if isinstance(e.a, Obj) else str(e.a)
    if k == 'qual': return '%s.%s' % (e.a, e.b)
    if k == 'field': return '%s.%s' % (show(e.a), e.b.name if isinstance(e.b, Obj) else e.b)
    if k == 'index': return '%s[%s]' % (show(e.a), show(e.b))
    if k == 'deref': return show(e.a) + '^'
    if k == 'guard': return '%s(%r)' % (show(e.a), e.b)
    if k == 'call': return '%s(%s)' % (show(e.a), show(e.b))
    if k == 'un': return '%s %s' % (e.a, show(e.b))
    if k == 'bin': return '(%s %s %s)' % (show(e.b), e.a, show(e.c))
    if k == 'is': return '%s IS %r' % (show(e.a), e.b)
    if k == 'typ': return repr(e.a)
    if k == 'assign': return '%s := %s' % (show(e.a), show(e.b))
    return k

class Scope:
    __slots__ = ('parent', 'names', 'proc')
    def __init__(s, parent, proc=None): s.parent, s.names, s.proc = parent, {}, proc
    def find(s, n):
        while s is not None:
            o = s.names.get(n)
            if o is not None: return o
            s = s.parent
        return None

def mkuniverse():
    u = Scope(None)
    for t in (booltyp, chartyp, settyp, realtyp, lrltyp, sinttyp, inttyp, linttyp, hinttyp):
        o = Obj('type', t.name, t); u.names[t.name] = o
    o = Obj('type', 'BYTE', bytetyp); 
    o = Obj('type', 'CURRENT_SIGNED8', i8)
    for n, v in (('TRUE', True), ('FALSE', False)):
        o = Obj('const', n, booltyp); o.val = v; u.names[n] = o
    o = Obj('const', 'INF', realtyp); o.val = float('inf'); u.names['INF'] = o
    for n in "ABS ASH ASSERT CAP CHR COPY DEC ENTIER EXCL HALT INC INCL LEN LONG MAX MIN NEW ODD ORD SHORT SIZE".split():
        u.names[n] = Obj('sproc', n, undf)
    return u

def mksystem():
    s = Scope(None)
    for n, t in (('BYTE', bytetyp), ('PTR', sysptr), ('ADDRESS', adrtyp), ('INT8', i8), ('INT16', i16), ('INT32', i32),
                 ('INT64', i64), ('SET32', set32), ('SET64', set64)):
        s.names[n] = Obj('type', n, t)
    for n in "ADR CC LSH ROT GET PUT GETREG PUTREG BIT VAL NEW MOVE".split():
        s.names[n] = Obj('sproc', 'SYSTEM.' + n, undf)
    return s

UNIVERSE = mkuniverse()
SYSTEMSCOPE = mksystem()

class Module:
    def __init__(s, name, path):
        s.name, s.path = name, path
        s.imports = {}; s.scope = None; s.procs = []; s.body = None; s.types = []; s.bodyobj = None
        s.unresolved = []; s.vars = []
    def proc(s, qn):
        """procedure by (possibly nested / type-bound) name inside this module"""
        for p in s.procs:
            if p.qname() == s.name + '.' + qn and p.body is not None: return p
        for p in s.procs:
            if p.qname() == s.name + '.' + qn: return p
        return None

class Parser:
    def __init__(s, world, text, path):
        s.w, s.path = world, path
        s.t = lex(text, path); s.i = 0
        s.tok = s.t[0]
    # -- token helpers
    def nx(s): s.i += 1; s.tok = s.t[s.i]
    def err(s, m): raise FrontError('%s:%d: %s (at %r)' % (s.path, s.tok.line, m, s.tok.v))
    def want(s, k):
        if s.tok.k != k: s.err('expected %s' % k)
        v = s.tok.v; s.nx(); return v
    def got(s, k):
        if s.tok.k == k: s.nx(); return True
        return False
    # -- module
    def module(s):
        s.want('MODULE')
        s.got('[') and (s.constexpr(), s.want(']'))
        name = s.want('ident')
        m = s.m = Module(name, s.path)
        m.scope = Scope(UNIVERSE)
        s.scope = m.scope; s.proc = None
        s.want(';')
        if s.got('IMPORT'):
            while True:
                al = s.want('ident'); nm = al
                if s.got(':='): nm = s.want('ident')
                o = Obj('mod', al); o.val = nm; o.line = s.tok.line
                m.scope.names[al] = o; m.imports[al] = nm
                if not s.got(','): break
            s.want(';')
            for al, nm in m.imports.items():
                if nm != 'SYSTEM': s.w.load(nm, m)
        b = Obj('body', name); b.mod = name; b.name = '$body'; m.bodyobj = b
        b.locals = []; b.params = []; b.nested = []
        m.body = s.block(b)
        b.body = m.body
        s.want('END')
        if s.tok.k == 'ident': s.nx()
        m.vars = [o for o in m.scope.names.values() if o.kind == 'var']
        return m
    # -- declarations
    def identdef(s):
        n = s.want('ident'); v = ''
        if s.tok.k in ('*', '-'): v = s.tok.k; s.nx()
        return n, v
    def declare(s, o):
        o.mod = s.m.name; o.parent = s.proc
        s.scope.names[o.name] = o
        return o
    def block(s, owner):
        fwd = []
        s.fwds = fwd
        while s.tok.k in ('CONST', 'TYPE', 'VAR', 'PROCEDURE'):
            if s.got('CONST'):
                while s.tok.k == 'ident':
                    ln = s.tok.line
                    n, v = s.identdef(); s.want('=')
                    e = s.expr()
                    o = Obj('const', n, None, ln); o.vis = v
                    o.node = e
                    s.declare(o); s.want(';')
                    s.deferconst(o, e)
            elif s.got('TYPE'):
                newt = []
                while s.tok.k == 'ident':
                    ln = s.tok.line
                    n, v = s.identdef(); s.want('=')
                    o = Obj('type', n, None, ln); o.vis = v
                    t = Type('undef'); o.typ = t
                    s.declare(o)
                    t2 = s.type(o)
                    if t2.name is None or t2 is t:
                        # anonymous: adopt name; keep identity through placeholder copy
                        for a in Type.__slots__:
                            if a != 'uid': setattr(t, a, getattr(t2, a))
                        t.name = n; t.mod = s.m.name; t.line = ln
                        s.moved[t2.uid] = t
                        s.w.fwdptr = [(t if x is t2 else x, nm) for x, nm in s.w.fwdptr]
                        for f in (t.fields or {}).values():
                            if f.owner is t2: f.owner = t
                        if s.m.types and s.m.types[-1] is t2: s.m.types[-1] = t
                        o.typ = t
                    else:
                        o.typ = t2
                    newt.append(o)
                    s.want(';')
            elif s.got('VAR'):
                while s.tok.k == 'ident':
                    s.varlist('var', owner)
                    s.want(';')
            else:
                s.procdecl(owner)
                s.want(';')
            s.fixfwd()
        st = []
        if s.got('BEGIN'): st = s.stats()
        return st
    moved = None
    def fixfwd(s):
        rest = []
        for t, n in s.w.fwdptr:
            o = s.scope.find(n)
            if o is not None and o.kind == 'type': t.base = o.typ
            else: rest.append((t, n))
        s.w.fwdptr = rest
    def varlist(s, kind, owner):
        objs = []
        while True:
            ln = s.tok.line
            n, v = s.identdef()
            o = Obj(kind, n, None, ln); o.vis = v; objs.append(o)
            if not s.got(','): break
        s.want(':')
        t = s.type()
        for o in objs:
            o.typ = t; s.declare(o)
            if owner.locals is not None: owner.locals.append(o)
        return objs
    def deferconst(s, o, e):
        s.resolve(e)
        o.typ = e.typ
        o.val = const_value(e)
    def sysflag(s):
        if s.tok.k == '[':
            s.nx(); e = s.expr(); s.resolve(e); s.want(']'); return const_value(e) or 0
        return 0
    def type(s, named=None):
        ln = s.tok.line
        if s.tok.k == 'ident':
            o = s.qualident()
            if o is None or o.kind != 'type':
                if o is None or o.kind == 'unknown': return Type('undef', 0, '?')
                s.err('type expected')
            return o.typ
        if s.got('ARRAY'):
            sf = s.sysflag()
            if s.got('OF'):
                t = Type('dynarr'); t.sysflag = sf; t.base = s.type(); return t
            lens = []
            while True:
                e = s.expr(); s.resolve(e); lens.append(e)
                if not s.got(','): break
            s.want('OF')
            base = s.type()
            for e in reversed(lens):
                t = Type('array'); t.n = const_value(e); t.lenexpr = e; t.base = base; t.sysflag = sf; base = t
            return base
        if s.got('RECORD'):
            t = Type('record'); t.line = ln; t.fields = {}; t.tprocs = {}
            t.sysflag = s.sysflag()
            s.m.types.append(t)
            if s.got('('):
                o = s.qualident(); t.base = o.typ.deref() if o is not None else None
                s.want(')')
            while True:
                if s.tok.k == 'ident':
                    fs = []
                    while True:
                        fl = s.tok.line
                        n, v = s.identdef(); f = Obj('field', n, None, fl); f.vis = v; f.owner = t; f.mod = s.m.name
                        fs.append(f)
                        if not s.got(','): break
                    s.want(':')
                    ft = s.type()
                    for f in fs: f.typ = ft; t.fields[f.name] = f
                if not s.got(';'): break
            s.want('END')
            return t
        if s.got('POINTER'):
            t = Type('pointer', 8); t.sysflag = s.sysflag()
            s.want('TO')
            if s.tok.k == 'ident':
                nm = s.tok.v
                if s.scope.find(nm) is None:
                    s.nx(); t.base = undf; s.w.fwdptr.append((t, nm)); return t
            t.base = s.type()
            return t
        if s.got('PROCEDURE'):
            s.sysflag()
            t = Type('proc', 8)
            t.params, t.res = [], notyp
            if s.tok.k == '(':
                sc = s.scope; s.scope = Scope(sc)
                t.params, t.res = s.formals()
                s.scope = sc
            return t
        s.err('type expected')
    def formals(s):
        ps = []; s.want('(')
        while s.tok.k in ('ident', 'VAR'):
            k = 'varpar' if s.got('VAR') else 'par'
            os_ = []
            while True:
                ln = s.tok.line; n = s.want('ident'); 
                if s.tok.k == '-' : s.nx()
                os_.append(Obj(k, n, None, ln))
                if not s.got(','): break
            s.want(':'); t = s.type()
            for o in os_: o.typ = t; ps.append(o)
            if not s.got(';'): break
        s.want(')')
        res = notyp
        if s.got(':'):
            o = s.qualident(); res = o.typ if o is not None else undf
        return ps, res
    def procdecl(s, owner):
        s.want('PROCEDURE')
        ln = s.tok.line
        kind = 'proc'; fwd = False
        if s.tok.k == '^': fwd = True; s.nx()
        elif s.tok.k == '*': s.nx()
        elif s.tok.k == '+': s.nx()
        elif s.tok.k == '-': kind = 'cproc'; s.nx()
        recv = None
        sc = s.scope
        psc = Scope(sc)
        if s.tok.k == '(':
            s.nx()
            rk = 'varpar' if s.got('VAR') else 'par'
            rn = s.want('ident'); s.want(':'); o = s.qualident(); s.want(')')
            recv = Obj(rk, rn, o.typ, ln); kind = 'tproc'
        n, v = s.identdef()
        if s.tok.k == '^': s.nx(); fwd = True
        p = Obj(kind, n, None, ln); p.vis = v; p.mod = s.m.name; p.parent = s.proc; p.recv = recv
        p.level = (s.proc.level + 1) if s.proc is not None else 0
        p.locals = []; p.nested = []
        s.scope = psc; psc.proc = p
        p.params, p.res = [], notyp
        if s.tok.k == '(': p.params, p.res = s.formals()
        t = Type('proc', 8); t.params, t.res = p.params, p.res
        p.typ = t
        prev = None
        if recv is not None:
            rt = recv.typ.deref()
            prev = rt.tprocs.get(n) if rt.tprocs is not None else None
            if rt.tprocs is not None and (prev is None or prev.body is None): pass
        else:
            prev = sc.names.get(n)
        if prev is not None and prev.kind == kind and prev.body is None and prev.fwd:
            # definition completing a forward declaration: keep the forward object
            prev.params, prev.res, prev.typ, prev.recv, prev.line = p.params, p.res, p.typ, recv, ln
            prev.locals, prev.nested, prev.vis, prev.fwd = p.locals, p.nested, v or prev.vis, fwd
            p = prev; psc.proc = p
        else:
            p.fwd = fwd
            if recv is not None:
                rt = recv.typ.deref()
                if rt.tprocs is None: rt.tprocs = {}
                rt.tprocs[n] = p
            else:
                sc.names[n] = p
            s.m.procs.append(p)
            owner.nested.append(p)
        for q in ([recv] if recv is not None else []) + p.params:
            q.mod = s.m.name; q.parent = p; psc.names[q.name] = q
        if kind == 'cproc':
            if s.tok.k == 'str': p.code = s.tok.v[1:-1]; s.nx()
            elif s.tok.k == ';' and s.t[s.i+1].k == 'str': s.nx(); p.code = s.tok.v[1:-1]; s.nx()
            elif s.tok.k == 'num':
                p.code = ''
                while s.tok.k in ('num', ','): s.nx()
            else:
                p.code = ''
            s.scope = sc
            return
        if not fwd:
            s.want(';')
            old = s.proc; s.proc = p
            p.body = s.block(p)
            s.want('END'); s.want('ident')
            s.proc = old
            p.scope = psc
        s.scope = sc
    # -- names
    def qualident(s):
        n = s.want('ident')
        o = s.scope.find(n)
        if o is not None and o.kind == 'mod' and s.tok.k == '.':
            s.nx(); n2 = s.want('ident')
            return s.modname(o, n2)
        if o is None: s.err('undeclared %s' % n)
        return o
    def modname(s, mo, n2):
        if mo.val == 'SYSTEM':
            o = SYSTEMSCOPE.names.get(n2)
            if o is None: s.err('SYSTEM.%s unknown' % n2)
            return o
        m = s.w.modules.get(mo.val)
        if m is None or m.scope is None:
            return s.w.unknown(mo.val, n2)
        o = m.scope.names.get(n2)
        if o is None: s.err('%s.%s unknown' % (mo.val, n2))
        return o
    # -- statements
    def stats(s):
        r = []
        while True:
            k = s.tok.k; ln = s.tok.line
            if k == 'ident':
                d = s.designator(); 
                if s.got(':='):
                    e = s.expr(); s.resolve(d); s.resolve(e)
                    r.append(Node('assign', ln, d, e))
                else:
                    if s.got('='): s.err(':=')
                    if d.k != 'call': d = Node('call', ln, d, [])
                    s.resolve(d)
                    r.append(Node('callst', ln, d))
            elif k == 'IF':
                arms = []; s.nx(); c = s.rexpr(); s.want('THEN'); arms.append((c, s.stats(), ln)); els = None
                while s.tok.k == 'ELSIF':
                    l2 = s.tok.line
                    s.nx(); c = s.rexpr(); s.want('THEN'); arms.append((c, s.stats(), l2))
                if s.got('ELSE'): els = s.stats()
                s.want('END')
                r.append(Node('if', ln, arms, els))
            elif k == 'CASE':
                s.nx(); e = s.rexpr(); s.want('OF'); arms = []; els = None
                while True:
                    if s.tok.k not in ('|', 'ELSE', 'END'):
                        l2 = s.tok.line
                        labs = []
                        while True:
                            a = s.rexpr(); b = a
                            if s.got('..'): b = s.rexpr()
                            labs.append((const_value(a), const_value(b), a, b))
                            if not s.got(','): break
                        s.want(':')
                        arms.append((labs, s.stats(), l2))
                    if not s.got('|'): break
                if s.got('ELSE'): els = s.stats()
                s.want('END')
                r.append(Node('case', ln, e, arms, els))
            elif k == 'WHILE':
                s.nx(); arms = []
                c = s.rexpr(); s.want('DO'); b = s.stats(); 
                if s.tok.k == 'ELSIF': s.err('ELSIF in WHILE')
                s.want('END')
                r.append(Node('while', ln, c, b))
            elif k == 'REPEAT':
                s.nx(); b = s.stats(); s.want('UNTIL'); c = s.rexpr()
                r.append(Node('repeat', ln, b, c))
            elif k == 'FOR':
                s.nx(); v = s.designator(); s.resolve(v); s.want(':='); a = s.rexpr(); s.want('TO'); b = s.rexpr(); st = 1
                if s.got('BY'): st = const_value(s.rexpr())
                s.want('DO'); body = s.stats(); s.want('END')
                r.append(Node('for', ln, v, (a, b, st), body))
            elif k == 'LOOP':
                s.nx(); b = s.stats(); s.want('END'); r.append(Node('loop', ln, b))
            elif k == 'WITH':
                s.nx(); arms = []; els = None
                while True:
                    l2 = s.tok.line
                    v = s.qualident_node(); s.want(':'); tn = s.qualident(); s.want('DO')
                    s.resolve(v)
                    vo = v.a if v.k == 'name' and isinstance(v.a, Obj) else None
                    old = vo.typ if vo is not None else None
                    tt = tn.typ if tn is not None else undf
                    if vo is not None: vo.typ = tt
                    b = s.stats()
                    if vo is not None: vo.typ = old
                    arms.append((v, tt, b, l2))
                    if not s.got('|'): break
                if s.got('ELSE'): els = s.stats()
                s.want('END')
                r.append(Node('with', ln, arms, els))
            elif k == 'EXIT': s.nx(); r.append(Node('exit', ln))
            elif k == 'RETURN':
                s.nx(); e = None
                if s.tok.k not in (';', 'END', 'ELSE', 'ELSIF', 'UNTIL', '|'): e = s.rexpr()
                r.append(Node('return', ln, e))
            if not s.got(';'): break
        return r
    def qualident_node(s):
        ln = s.tok.line; n = s.want('ident')
        return Node('id', ln, n)
    # -- expressions (unresolved ids)
    def rexpr(s):
        e = s.expr(); s.resolve(e); return e
    def constexpr(s): return const_value(s.rexpr())
    def expr(s):
        a = s.simple(); k = s.tok.k; ln = s.tok.line
        if k in ('=', '#', '<', '<=', '>', '>=', 'IN'):
            s.nx(); b = s.simple(); a = Node('bin', ln, k, a, b)
        elif k == 'IS':
            s.nx(); o = s.qualident(); a = Node('is', ln, a, o.typ if o is not None else undf)
        return a
    def simple(s):
        ln = s.tok.line
        if s.got('-'): a = Node('un', ln, '-', s.term())
        elif s.got('+'): a = Node('un', ln, '+', s.term())
        else: a = s.term()
        while s.tok.k in ('+', '-', 'OR'):
            k = s.tok.k; ln = s.tok.line; s.nx(); b = s.term(); a = Node('bin', ln, k, a, b)
        return a
    def term(s):
        a = s.factor()
        while s.tok.k in ('*', '/', 'DIV', 'MOD', '&'):
            k = s.tok.k; ln = s.tok.line; s.nx(); b = s.factor(); a = Node('bin', ln, k, a, b)
        return a
    def factor(s):
        k = s.tok.k; ln = s.tok.line; v = s.tok.v
        if k == 'num':
            s.nx()
            if v.endswith('X'): n = Node('char', ln, int(v[:-1], 16)); return n
            if v[-1] in 'Hh' :
                x = int(v[:-1], 16)
                n = Node('num', ln, x); return n
            if '.' in v: return Node('real', ln, v)
            return Node('num', ln, int(v))
        if k == 'str':
            s.nx(); t = v[1:-1]
            return Node('str', ln, t)
        if k == 'NIL': s.nx(); return Node('nil', ln)
        if k == '{':
            s.nx(); es = []
            if s.tok.k != '}':
                while True:
                    a = s.expr(); b = None
                    if s.got('..'): b = s.expr()
                    es.append((a, b))
                    if not s.got(','): break
            s.want('}')
            return Node('set', ln, es)
        if k == '(':
            s.nx(); e = s.expr(); s.want(')'); return e
        if k == '~':
            s.nx(); return Node('un', ln, '~', s.factor())
        if k == 'ident': return s.designator()
        s.err('factor')
    def designator(s):
        ln = s.tok.line
        e = Node('id', ln, s.want('ident'))
        while True:
            k = s.tok.k; ln = s.tok.line
            if k == '.':
                s.nx(); e = Node('sel', ln, e, s.want('ident'))
            elif k == '[':
                s.nx()
                while True:
                    e = Node('index', ln, e, s.expr())
                    if not s.got(','): break
                s.want(']')
            elif k == '^': s.nx(); e = Node('deref', ln, e)
            elif k == '(':
                s.nx(); args = []
                if s.tok.k != ')':
                    while True:
                        args.append(s.expr())
                        if not s.got(','): break
                s.want(')')
                e = Node('call', ln, e, args)
            else: return e
    # -- resolution (in place)
    def resolve(s, e):
        k = e.k
        if e.typ is not None: return e
        if k == 'num':
            v = e.a
            e.typ = sinttyp if -128 <= v <= 127 else inttyp if -32768 <= v < 32768 else linttyp if -2**31 <= v < 2**31 else hinttyp
        elif k == 'real':
            t = e.a.upper(); e.typ = lrltyp if 'D' in t else realtyp
        elif k == 'char': e.typ = chartyp
        elif k == 'str':
            e.typ = strtyp
        elif k == 'nil': e.typ = niltyp
        elif k == 'set':
            for a, b in e.a:
                s.resolve(a)
                if b is not None: s.resolve(b)
            e.typ = settyp
        elif k == 'id':
            o = s.scope.find(e.a)
            if o is None: raise FrontError('%s:%d: undeclared %s' % (s.path, e.line, e.a))
            s.setobj(e, o)
        elif k == 'sel':
            a = e.a
            if a.k == 'id':
                o = s.scope.find(a.a)
                if o is not None and o.kind == 'mod':
                    o2 = s.modname(o, e.b)
                    s.setobj(e, o2); return e
            s.resolve(a)
            t = a.typ
            if t.form == 'pointer':
                a = Node('deref', e.line, a); a.typ = t.base; t = t.base
            n = e.b; f = find_field(t, n)
            e.k = 'field'; e.a = a
            if f is None:
                if t.form != 'undef': raise FrontError('%s:%d: no field %s in %r' % (s.path, e.line, n, t))
                f = Obj('field', n, undf)
            e.b = f
            e.typ = f.typ
        elif k == 'index':
            s.resolve(e.a); s.resolve(e.b)
            t = e.a.typ
            if t.form == 'pointer':
                d = Node('deref', e.line, e.a); d.typ = t.base; e.a = d; t = t.base
            if t.form in ('array', 'dynarr'): e.typ = t.base
            elif t.form == 'string': e.typ = chartyp
            else:
                if t.form != 'undef': raise FrontError('%s:%d: index of non-array %r' % (s.path, e.line, t))
                e.typ = undf
        elif k == 'deref':
            s.resolve(e.a); t = e.a.typ
            if t.form == 'pointer': e.typ = t.base
            elif e.a.k == 'field' and e.a.b.kind == 'tproc': # super call
                e.k = 'super'; e.typ = e.a.typ
            else:
                if t.form != 'undef': raise FrontError('%s:%d: deref of %r' % (s.path, e.line, t))
                e.typ = undf
        elif k == 'call':
            s.resolve(e.a)
            f = e.a
            # type guard?
            if len(e.b) == 1 and f.typ is not None and f.typ.form != 'proc' and not (f.k == 'name' and f.a.kind == 'sproc'):
                t = s.astype(e.b[0])
                if t is not None:
                    e.k = 'guard'; e.b = t; e.typ = t; return e
            for a in e.b:
                if a.typ is None:
                    t = s.astype(a)
                    if t is not None: a.k = 'typ'; a.a = t; a.typ = t
                    else: s.resolve(a)
            if f.k == 'name' and f.a.kind == 'sproc': e.typ = sproc_type(f.a.name, e.b)
            elif f.typ.form == 'proc': e.typ = f.typ.res
            else: e.typ = undf
        elif k == 'un':
            s.resolve(e.b)
            e.typ = booltyp if e.a == '~' else e.b.typ
        elif k == 'bin':
            s.resolve(e.b); s.resolve(e.c)
            op = e.a; x, y = e.b.typ, e.c.typ
            if op in ('=', '#', '<', '<=', '>', '>=', 'IN', '&', 'OR'): e.typ = booltyp
            elif op == '/' and x.form == 'int' and y.form == 'int': e.typ = realtyp
            else: e.typ = widen(x, y)
        elif k == 'is':
            s.resolve(e.a); e.typ = booltyp
        elif k == 'typ': pass
        else: raise FrontError('resolve %s' % k)
        return e
    def astype(s, a):
        if a.k == 'id':
            o = s.scope.find(a.a)
            return o.typ if o is not None and o.kind == 'type' else None
        if a.k == 'sel' and a.a.k == 'id':
            o = s.scope.find(a.a.a)
            if o is not None and o.kind == 'mod':
                o2 = s.modname(o, a.b)
                return o2.typ if o2 is not None and o2.kind == 'type' else None
        return None
    def setobj(s, e, o):
        e.k = 'name'; e.a = o; e.b = None
        e.typ = o.typ if o.typ is not None else undf
        if o.kind == 'const' and e.typ is strtyp and False: pass

def widen(x, y):
    order = {'int': 0, 'real': 1, 'lreal': 2}
    if x.form in order and y.form in order:
        if x.form == 'int' and y.form == 'int': return x if x.size >= y.size else y
        return x if order[x.form] >= order[y.form] else y
    if x.form == 'set' and y.form == 'set': return x if x.size >= y.size else y
    return x if x.form != 'undef' else y

def find_field(t, n):
    seen = 0
    while t is not None and seen < 50:
        if t.form == 'pointer': t = t.base
        if t.fields is not None and n in t.fields: return t.fields[n]
        if t.tprocs is not None and n in t.tprocs: return t.tprocs[n]
        t = t.base if t.form == 'record' else None
        seen += 1
    return None

def sproc_type(n, args):
    a = args[0].typ if args else undf
    if n in ('ABS', 'SYSTEM.LSH', 'SYSTEM.ROT'): return a
    if n == 'ASH': return a if a.form == 'int' and a.size > 4 else linttyp
    if n in ('CAP', 'CHR'): return chartyp
    if n in ('ENTIER', 'LEN', 'SIZE'): return linttyp
    if n == 'ORD': return inttyp
    if n in ('ODD', 'SYSTEM.BIT', 'SYSTEM.CC'): return booltyp
    if n in ('MAX', 'MIN'):
        if args and args[0].k == 'typ' and a.form == 'set': return inttyp
        return a
    if n == 'LONG': return {1: inttyp, 2: linttyp, 4: hinttyp, 8: hinttyp}[a.size] if a.form == 'int' else lrltyp if a.form == 'real' else a
    if n == 'SHORT': return {1: sinttyp, 2: sinttyp, 4: inttyp, 8: linttyp}[a.size] if a.form == 'int' else realtyp if a.form == 'lreal' else a
    if n == 'SYSTEM.ADR': return adrtyp
    if n == 'SYSTEM.VAL': return args[0].typ if args else undf
    return notyp

def tdiv(a, b): return a // b
def const_value(e):
    """compile-time value of a resolved expression or None"""
    if e is None: return None
    k = e.k
    if k in ('num',): return e.a
    if k == 'char': return chr(e.a)
    if k == 'str': return e.a
    if k == 'real':
        try: return float(e.a.upper().replace('D', 'E'))
        except ValueError: return None
    if k == 'name': return e.a.val if isinstance(e.a, Obj) and e.a.kind == 'const' else None
    if k == 'set':
        r = set()
        for a, b in e.a:
            x = const_value(a); y = const_value(b) if b is not None else x
            if not isinstance(x, int) or not isinstance(y, int): return None
            r |= set(range(x, y + 1))
        return frozenset(r)
    if k == 'un':
        v = const_value(e.b)
        if v is None: return None
        try:
            if e.a == '~': return not v
            if e.a == '-': return frozenset(range(e.b.typ.size * 8)) - v if isinstance(v, frozenset) else -v
            return v
        except TypeError: return None
    if k == 'bin':
        x, y = const_value(e.b), const_value(e.c)
        if x is None or y is None: return None
        return const_bin(e.a, x, y)
    if k == 'call' and e.a.k == 'name' and e.a.a.kind == 'sproc':
        n = e.a.a.name
        if n in ('MAX', 'MIN') and e.b and e.b[0].k == 'typ':
            t = e.b[0].typ
            if t.form == 'int': return 2**(8*t.size-1)-1 if n == 'MAX' else -2**(8*t.size-1)
            if t.form == 'set': return 8*t.size-1 if n == 'MAX' else 0
            if t.form == 'char': return chr(255) if n == 'MAX' else chr(0)
            return None
        if n == 'SIZE' and e.b and e.b[0].k == 'typ':
            return sizeof(e.b[0].typ)
        if n == 'LEN' and e.b:
            t = e.b[0].typ
            d = const_value(e.b[1]) if len(e.b) > 1 else 0
            while d and t is not None: t = t.base; d -= 1
            return t.n if t is not None and t.form == 'array' else None
        vs = [const_value(a) for a in e.b if a.k != 'typ']
        if any(v is None for v in vs): return None
        try:
            if n == 'ORD': return ord(vs[0])
            if n == 'CHR': return chr(vs[0])
            if n in ('LONG', 'SHORT', 'SYSTEM.VAL'): return vs[0]
            if n == 'ASH': return vs[0] << vs[1] if vs[1] >= 0 else vs[0] >> -vs[1]
            if n == 'ABS': return abs(vs[0])
            if n == 'ODD': return vs[0] % 2 == 1
            if n == 'CAP': return vs[0].upper()
            if n == 'ENTIER':
                import math
                return math.floor(vs[0])
            if n == 'SYSTEM.LSH': return vs[0] << vs[1] if vs[1] >= 0 else vs[0] >> -vs[1]
        except Exception: return None
    return None

def const_bin(op, x, y):
    try:
        if op in ('+', '-', '*', '/') and isinstance(x, frozenset):
            return {'+': x | y, '-': x - y, '*': x & y, '/': x ^ y}[op]
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == 'DIV': return x // y
        if op == 'MOD': return x % y
        if op == '/': return x / y
        if op == '&': return bool(x and y)
        if op == 'OR': return bool(x or y)
        if op == '=': return x == y
        if op == '#': return x != y
        if op == '<': return x < y
        if op == '<=': return x <= y
        if op == '>': return x > y
        if op == '>=': return x >= y
        if op == 'IN': return x in y
    except Exception: return None
    return None

def sizeof(t):
    if t.form in ('array',):
        b = sizeof(t.base)
        return b * t.n if b is not None and t.n is not None else None
    if t.form == 'record':
        off = 0
        if t.base is not None:
            off = sizeof(t.base)
            if off is None: return None
        al = 1
        for f in t.fields.values():
            z = sizeof(f.typ)
            if z is None: return None
            a = alignof(f.typ); al = max(al, a)
            off = (off + a - 1) // a * a + z
        al = alignof(t)
        return (off + al - 1) // al * al
    return t.size or None
def alignof(t):
    if t.form == 'array': return alignof(t.base)
    if t.form == 'record':
        r = 1
        if t.base is not None: r = alignof(t.base)
        for f in t.fields.values(): r = max(r, alignof(f.typ))
        return r
    return max(1, min(8, t.size or 1))

# ---------------------------------------------------------------- world
class World:
    """Modules of one source tree.  `overrides` maps a module name to a path."""
    def __init__(s, root='/repo', platform='unix'):
        s.root = root; s.modules = {}; s.fwdptr = []; s.unk = {}; s.errors = []
        s.index = {}; s.loading = set()
        for d in ('src/runtime', 'src/compiler', 'src/library', 'src/tools'):
            for dp, dn, fn in sorted(os.walk(os.path.join(root, d))):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith('.Mod'):
                        nm = f[:-4]
                        s.index.setdefault(nm, os.path.join(dp, f))
        s.index['Platform'] = os.path.join(root, 'src/runtime/Platform%s.Mod' % platform)
        for a, f in (('oocC', 'oocCLP64'),):
            if f in s.index: s.index[a] = s.index[f]
    def path(s, name):
        if name in s.index: return s.index[name]
        return None
    def unknown(s, mod, n):
        key = (mod, n)
        if key not in s.unk:
            o = Obj('unknown', n, undf); o.mod = mod; s.unk[key] = o
        return s.unk[key]
    def load(s, name, importer=None):
        if name in s.modules: return s.modules[name]
        p = s.path(name)
        if p is None or name in s.loading:
            s.modules[name] = None
            if name not in ('Configuration',): s.errors.append('module %s not found (imported by %s)' % (name, importer and importer.name))
            return None
        s.loading.add(name)
        m = s.parse(p)
        s.loading.discard(name)
        s.modules[name] = m
        return m
    def parse(s, path):
        with open(path, encoding='latin-1') as f: text = f.read()
        ps = Parser(s, text, path); ps.moved = {}
        saved = s.fwdptr; s.fwdptr = []
        m = ps.module()
        for t, n in s.fwdptr: s.errors.append('%s: unresolved forward pointer to %s' % (path, n))
        s.fwdptr = saved
        # replace moved placeholder types
        if ps.moved: fix_moved(m, ps.moved)
        m.relpath = os.path.relpath(path, s.root)
        return m

def fix_moved(m, moved):
    """A named anonymous type was copied into its placeholder; redirect references."""
    def fx(t):
        return moved.get(t.uid, t) if t is not None else None
    seen = set()
    def walk(t):
        if t is None or t.uid in seen: return
        seen.add(t.uid)
        t.base = fx(t.base); t.res = fx(t.res)
        walk(t.base); walk(t.res)
        for f in (t.fields or {}).values(): f.typ = fx(f.typ); walk(f.typ)
        for f in (t.params or []): f.typ = fx(f.typ); walk(f.typ)
        for f in (t.tprocs or {}).values(): f.typ = fx(f.typ); walk(f.typ)
    for o in m.scope.names.values():
        if o.typ is not None: o.typ = fx(o.typ); walk(o.typ)
    for p in m.procs:
        p.res = fx(p.res)
        for q in (p.params or []) + (p.locals or []): q.typ = fx(q.typ); walk(q.typ)
    for t in m.types: walk(t)
    m.types = [fx(t) for t in m.types]

# ---------------------------------------------------------------- walkers
def children(n):
    """direct sub-expressions / statements of a node, in evaluation order"""
    k = n.k
    if k in ('num', 'real', 'char', 'str', 'nil', 'name', 'typ', 'exit'): return []
    if k == 'set':
        r = []
        for a, b in n.a:
            r.append(a)
            if b is not None: r.append(b)
        return r
    if k == 'field': return [n.a]
    if k == 'index': return [n.a, n.b]
    if k in ('deref', 'guard', 'super'): return [n.a]
    if k == 'call': return [n.a] + list(n.b)
    if k == 'un': return [n.b]
    if k == 'bin': return [n.b, n.c]
    if k == 'is': return [n.a]
    if k == 'assign': return [n.b, n.a]
    if k == 'callst': return [n.a]
    if k == 'if':
        r = []
        for c, b, l in n.a: r.append(c); r += b
        return r + (n.b or [])
    if k == 'case':
        r = [n.a]
        for labs, b, l in n.b: r += b
        return r + (n.c or [])
    if k == 'while': return [n.a] + n.b
    if k == 'repeat': return n.a + [n.b]
    if k == 'for': return [n.b[0], n.b[1], n.a] + n.c
    if k == 'loop': return n.a
    if k == 'with':
        r = []
        for v, t, b, l in n.a: r.append(v); r += b
        return r + (n.b or [])
    if k == 'return': return [n.a] if n.a is not None else []
    return []

def walk(ns):
    st = list(reversed(ns if isinstance(ns, list) else [ns]))
    while st:
        n = st.pop()
        if not isinstance(n, Node): continue
        yield n
        st.extend(reversed(children(n)))

def callee(n):
    """statically known target object of a call node, or None"""
    f = n.a
    while f.k == 'super': f = f.a
    if f.k == 'name': return f.a
    if f.k == 'field' and isinstance(f.b, Obj) and f.b.kind == 'tproc': return f.b
    return None

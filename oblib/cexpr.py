"""A parser for the C expressions and statements the code generator writes.  The text comes from
emission templates, so it contains holes ($n, parsed as atoms) and placeholder type names."""
import re
class CErr(Exception): pass
TOK = re.compile(r"""\s*(?:/\*.*?\*/\s*)*(?:(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|\d+\.\d*(?:[eE][-+]?\d+)?|\d+[uUlL]*)|(?P<id>[A-Za-z_$][\w$]*(?:\#\#\w+)?)|(?P<chr>'(?:\\.|[^'\\])+')|(?P<str>"(?:\\.|[^"\\])*")|(?P<op><<=|>>=|->|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|&=|\|=|\^=|%=|\+\+|--|[-+*/%&|^~!<>=?:;,.(){}\[\]]))""", re.S)
BIN = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '&=', '|=', '^=', '%=', '<<=', '>>='}
BASIC = {'INT8', 'INT16', 'INT32', 'INT64', 'UINT8', 'UINT16', 'UINT32', 'UINT64', 'CHAR', 'BOOLEAN', 'REAL', 'LONGREAL', 'ADDRESS', 'SYSTEM_BYTE', 'SYSTEM_PTR', 'int', 'void', 'char', 'float', 'double', 'long', 'unsigned', 'size_t'}
STMT = {'if', 'while', 'for', 'do', 'switch', 'return', 'break', 'goto', 'case', 'default', 'else'}
def lex(s):
    r = []; i = 0
    while True:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': return r
            raise CErr('no C token at %r' % s[i:i + 30])
        k = m.lastgroup; r.append((k, m.group(k))); i = m.end()
class P:
    """istype(name) tells whether an identifier is a type name"""
    keep = False                                       # keep parentheses in the tree
    def __init__(s, text, istype=None):
        s.t = lex(text); s.i = 0; s.ist = istype or (lambda n: n in BASIC)
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ('eof', '')
    def nx(s):
        t = s.pk(); s.i += 1; return t
    def ex(s, v):
        t = s.nx()
        if t[1] != v: raise CErr('expected %s, found %r' % (v, t[1]))
    def isop(s, v, k=0): return s.pk(k) == ('op', v)
    # ---- types
    def typestart(s, k=0):
        t = s.pk(k); return t[0] == 'id' and (t[1] == 'struct' or s.ist(t[1]))
    def typename(s):
        r = []
        if s.pk()[1] == 'struct': s.nx(); r.append('struct')
        while s.pk()[0] == 'id' and s.typestart() or r == ['struct']: r.append(s.nx()[1])
        while s.isop('*'): s.nx(); r.append('*')
        return ' '.join(r)
    # ---- expressions
    def expr(s):
        a = s.assign()
        while s.isop(','): s.nx(); a = ('comma', a, s.assign())
        return a
    def assign(s):
        a = s.cond()
        if s.pk()[0] == 'op' and s.pk()[1] in ASSIGN:
            op = s.nx()[1]; return ('assign', op, a, s.assign())
        return a
    def cond(s):
        a = s.bin(1)
        if s.isop('?'):
            s.nx(); b = s.expr(); s.ex(':'); return ('cond', a, b, s.cond())
        return a
    def bin(s, p):
        a = s.unary()
        while s.pk()[0] == 'op' and BIN.get(s.pk()[1], 0) >= p:
            op = s.nx()[1]; a = ('bin', op, a, s.bin(BIN[op] + 1))
        return a
    def unary(s):
        t = s.pk()
        if t[0] == 'op':
            if t[1] in ('!', '~', '-', '+', '*', '&', '++', '--'): s.nx(); return ('un', t[1], s.unary())
            if t[1] == '(' and s.typestart(1):
                k = s.i; s.nx(); ty = s.typename()
                if s.isop(')'):
                    s.nx()
                    if s.isop('{'): return s.compound(ty, None)
                    return ('cast', ty, s.unary())
                if s.isop('['):
                    s.nx(); n = None if s.isop(']') else s.expr(); s.ex(']'); s.ex(')')
                    if not s.isop('{'): raise CErr('cast to an array type')
                    return s.compound(ty, n)
                s.i = k
        return s.postfix()
    def compound(s, ty, n):
        s.ex('{'); a = s.assign(); s.ex('}'); return ('compound', ty, n, a)
    def postfix(s):
        a = s.prim()
        while True:
            if s.isop('('):
                s.nx(); l = []
                while not s.isop(')'):
                    l.append(s.arg())
                    if s.isop(','): s.nx()
                    elif not s.isop(')'): raise CErr('in the arguments: %r' % s.pk()[1])
                s.nx(); a = ('call', a, tuple(l))
            elif s.isop('['): s.nx(); i = s.expr(); s.ex(']'); a = ('idx', a, i)
            elif s.isop('.') or s.isop('->'):
                op = s.nx()[1]; t = s.nx()
                if t[0] != 'id': raise CErr('field name expected, found %r' % t[1])
                a = ('mem', op, a, t[1])
            elif s.isop('++') or s.isop('--'): a = ('post', s.nx()[1], a)
            else: return a
    def arg(s):
        if s.typestart():
            k = s.i; ty = s.typename()
            if s.isop(',') or s.isop(')'): return ('type', ty)
            s.i = k
        return s.assign()
    def prim(s):
        t = s.nx()
        if t[0] == 'num': return ('num', t[1])
        if t[0] == 'chr': return ('chr', t[1])
        if t[0] == 'str': return ('str', t[1])
        if t[0] == 'id':
            if t[1] in STMT: raise CErr('statement keyword in an expression')
            return ('id', t[1])
        if t[1] == '(':
            a = s.expr(); s.ex(')'); return ('par', a) if s.keep else a
        raise CErr('operand expected, found %r' % (t[1] or 'the end'))
    def whole(s, f):
        r = f()
        if s.pk()[0] != 'eof': raise CErr('text left over: %r' % ' '.join(x[1] for x in s.t[s.i:s.i + 6]))
        return r
    # ---- statements
    def stmts(s, end=None):
        r = []
        while s.pk()[0] != 'eof' and not s.isop('}'): r.append(s.stmt())
        return ('seq', tuple(x for x in r if x != ('empty',)))
    def stmt(s):
        t = s.pk()
        if t == ('op', ';'): s.nx(); return ('empty',)
        if t == ('op', '{'):
            s.nx(); b = s.stmts(); s.ex('}'); return ('block', b)
        if t[0] == 'id':
            w = t[1]
            if w.startswith('$S'): s.nx(); return ('hole', w)            # a statement sequence
            if w == 'if':
                s.nx(); s.ex('('); c = s.expr(); s.ex(')'); a = s.stmt(); b = None
                if s.pk() == ('id', 'else'): s.nx(); b = s.stmt()
                return ('if', c, a, b)
            if w == 'while':
                s.nx(); s.ex('('); c = s.expr(); s.ex(')'); return ('while', c, s.stmt())
            if w == 'do':
                s.nx(); b = s.stmt(); s.ex('while'); s.ex('('); c = s.expr(); s.ex(')'); s.ex(';'); return ('do', b, c)
            if w == 'for':
                s.nx(); s.ex('('); l = []
                for e in (';', ';', ')'):
                    l.append(None if s.isop(e) else s.expr()); s.ex(e)
                return ('for', l[0], l[1], l[2], s.stmt())
            if w == 'switch':
                s.nx(); s.ex('('); c = s.expr(); s.ex(')'); return ('switch', c, s.stmt())
            if w == 'case': s.nx(); c = s.cond(); s.ex(':'); return ('case', c)
            if w == 'default': s.nx(); s.ex(':'); return ('default',)
            if w == 'break': s.nx(); s.ex(';'); return ('break',)
            if w == 'goto': s.nx(); l = s.nx()[1]; s.ex(';'); return ('goto', l)
            if w == 'return':
                s.nx()
                if s.isop(';'): s.nx(); return ('return', None)
                e = s.expr(); s.ex(';'); return ('return', e)
            if s.isop(':', 1): s.nx(); s.nx(); return ('label', w)
            if w in ('static', 'extern', 'export', 'import', 'typedef') or s.typestart(): return s.decl()
        e = s.expr(); s.ex(';'); return ('expr', e)
    def decl(s):
        pre = []
        while s.pk()[1] in ('static', 'extern', 'export', 'import', 'typedef'): pre.append(s.nx()[1])
        t0 = s.i
        if s.pk()[1] == 'struct':
            s.nx(); tag = s.nx()[1] if s.pk()[0] == 'id' else ''
            base = ('struct', tag)
            if s.isop('{'):
                s.nx(); b = s.stmts(); s.ex('}'); base = ('struct', tag, b)
        else: base = ('name', s.nx()[1])
        out = []
        while not s.isop(';'):
            d, n = s.declarator(); init = None
            if s.isop('='): s.nx(); init = s.assign()
            out.append((n, d, init))
            if s.isop('{') and not out[1:]:
                return ('func', tuple(pre), base, n, d, s.stmt())
            if s.isop(','): s.nx()
        s.ex(';'); return ('decl', tuple(pre), base, tuple(out))
    def declarator(s):
        """-> (type suffix from the name outwards, name)"""
        if s.isop('*'):
            s.nx(); d, n = s.declarator(); return d + ('*',), n
        n = ''; d = ()
        if s.isop('(') and not s.typestart(1) and not s.isop(')', 1):
            s.nx(); d, n = s.declarator(); s.ex(')')
        elif s.pk()[0] == 'id': n = s.nx()[1]
        suf = ()
        while s.isop('[') or s.isop('('):
            if s.isop('['):
                s.nx(); e = None if s.isop(']') else s.expr(); s.ex(']'); suf += (('[]', e),)
            else:
                s.nx(); l = []
                while not s.isop(')'):
                    if s.pk()[1] == '.': 
                        while s.isop('.'): s.nx()
                        l.append('...'); continue
                    if s.pk()[1] == 'struct': s.nx(); b = ('struct', s.nx()[1])
                    else: b = ('name', s.nx()[1])
                    pd, pn = s.declarator(); l.append((b, pd, pn))
                    if s.isop(','): s.nx()
                s.nx(); suf += (('()', tuple(l)),)
        return d + suf, n
def expr(text, istype=None):
    p = P(text, istype); return p.whole(p.expr)
# levels of the C expression grammar: 0 assignment and comma, BIN's for binary operators, then
UNARY, POSTFIX, PRIMARY = 11, 12, 13
def level(a):
    k = a[0]
    if k in ('comma', 'assign', 'cond'): return 0
    if k == 'bin': return BIN[a[1]]
    if k in ('un', 'cast'): return UNARY
    if k in ('call', 'idx', 'mem', 'post'): return POSTFIX
    return PRIMARY
def context(a, out, need=0):
    """(atom, level its context demands) for every identifier of a tree parsed with parentheses kept"""
    k = a[0]
    if k == 'id': out.append((a[1], need))
    elif k == 'par': context(a[1], out, 0)
    elif k == 'bin': context(a[2], out, BIN[a[1]]); context(a[3], out, BIN[a[1]] + 1)
    elif k in ('un', 'cast'): context(a[2], out, UNARY)
    elif k == 'compound': context(a[3], out, 0)
    elif k == 'idx': context(a[1], out, POSTFIX); context(a[2], out, 0)
    elif k == 'mem': context(a[2], out, POSTFIX)
    elif k == 'post': context(a[2], out, POSTFIX)
    elif k == 'call':
        context(a[1], out, POSTFIX)
        for x in a[2]:
            if x[0] != 'type': context(x, out, 0)
    elif k == 'assign': context(a[2], out, UNARY); context(a[3], out, 0)
    elif k == 'comma':
        for x in a[1:]: context(x, out, 0)
    elif k == 'cond': context(a[1], out, 1); context(a[2], out, 0); context(a[3], out, 0)
    return out
def grouped(text, istype=None):
    """-> (level of the text, [(atom, level demanded)])"""
    p = P(text, istype); p.keep = True; a = p.whole(p.expr); return level(a), context(a, [])
def stmts(text, istype=None):
    p = P(text, istype); return p.whole(p.stmts)
def subst(ast, m):
    """replace hole atoms by trees"""
    if isinstance(ast, tuple):
        if ast[:1] == ('id',) and ast[1] in m: return m[ast[1]]
        return tuple(subst(x, m) for x in ast)
    return ast
def show(a):
    if a is None: return ''
    k = a[0]
    if k in ('id', 'num', 'chr', 'str', 'type'): return a[1]
    if k == 'un': return a[1] + show(a[2]) if a[2][0] not in ('bin', 'cond', 'assign') else '%s(%s)' % (a[1], show(a[2]))
    if k == 'bin': return '(%s %s %s)' % (show(a[2]), a[1], show(a[3]))
    if k == 'assign': return '%s %s %s' % (show(a[2]), a[1], show(a[3]))
    if k == 'cast': return '(%s)%s' % (a[1], show(a[2]))
    if k == 'call': return '%s(%s)' % (show(a[1]), ', '.join(map(show, a[2])))
    if k == 'compound': return '(%s%s){%s}' % (a[1], '[%s]' % show(a[2]) if a[2] else '', show(a[3]))
    if k == 'idx': return '%s[%s]' % (show(a[1]), show(a[2]))
    if k == 'mem': return '%s%s%s' % (show(a[2]), a[1], a[3])
    if k == 'cond': return '(%s ? %s : %s)' % tuple(map(show, a[1:]))
    return str(a)

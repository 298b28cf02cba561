"""Statements: source statements are taken through the parser, the tree construction and the code generator (interpreted abstractly with
opaque operands); the C statements obtained are parsed and have to have the control flow, and perform the assignments and calls, that the
language report defines."""
from oblib.comp import *
import itertools, os, multiprocessing
LEVEL = 'other'
# ---------------------------------------------------------------- control flow graphs
class Flow:
    """nodes: ('ev', text, next) | ('br', condition, then, else) | ('sw', text, {value: next}, default) | ('nop', next) | ('end', what)"""
    def __init__(s): s.n = []
    def new(s, x=None): s.n.append(x); return len(s.n) - 1
    def skip(s, i):
        seen = set()
        while s.n[i][0] == 'nop':
            if i in seen: return None                               # an empty endless loop
            seen.add(i); i = s.n[i][1]
        return i
def same_flow(A, a, B, b):
    """None or a description of the first difference"""
    todo = [(a, b)]; seen = set()
    while todo:
        x, y = todo.pop(); x, y = A.skip(x), B.skip(y)
        if (x, y) in seen: continue
        seen.add((x, y))
        if x is None or y is None:
            if x is not y: return 'one of them does not terminate'
            continue
        p, q = A.n[x], B.n[y]
        if p[0] != q[0]: return '%s where %s is expected' % (sn(q), sn(p))
        if p[0] == 'end':
            if p[1] != q[1]: return '%s where %s is expected' % (sn(q), sn(p))
        elif p[0] == 'ev':
            if p[1] != q[1]: return '%s where %s is expected' % (sn(q), sn(p))
            todo.append((p[2], q[2]))
        elif p[0] == 'br':
            if p[1] != q[1]: return '%s where %s is expected' % (sn(q), sn(p))
            todo += [(p[2], q[2]), (p[3], q[3])]
        else:
            if p[1] != q[1]: return '%s where %s is expected' % (sn(q), sn(p))
            for v in set(p[2]) | set(q[2]): todo.append((p[2].get(v, p[3]), q[2].get(v, q[3])))
            todo.append((p[3], q[3]))
    return None
def sn(n): return {'ev': 'executing %s', 'br': 'the condition %s', 'sw': 'selecting by %s', 'end': '%s'}[n[0]] % (n[1],)
# ---------------------------------------------------------------- Oberon statements
# ('ev', k) ('exit',) ('ret',) ('if', [(c, body)], else) ('while', c, body) ('repeat', body, c) ('loop', body) ('case', k, [(labels, body)], else) ('for', k, const limit?, step, body)
def src(b):
    return '; '.join(src1(x) for x in b)
def src1(x):
    k = x[0]
    if k == 'ev': return 'x1 := $e%d' % x[1]
    if k == 'exit': return 'EXIT'
    if k == 'ret': return 'RETURN'
    if k == 'if':
        r = ' ELSIF '.join('%s THEN %s' % (cnd(c), src(b)) for c, b in x[1])
        return 'IF %s%s END' % (r, '' if x[2] is None else ' ELSE ' + src(x[2]))
    if k == 'while': return 'WHILE %s DO %s END' % (cnd(x[1]), src(x[2]))
    if k == 'repeat': return 'REPEAT %s UNTIL %s' % (src(x[1]), cnd(x[2]))
    if k == 'loop': return 'LOOP %s END' % src(x[1])
    if k == 'case':
        r = ' | '.join('%s: %s' % (', '.join(lab(l) for l in ls), src(b)) for ls, b in x[2])
        return 'CASE $e%d OF %s%s END' % (x[1], r, '' if x[3] is None else ' ELSE ' + src(x[3]))
    if k == 'for': return 'FOR x2 := $e%d TO %s%s DO %s END' % (x[1], x[2] if x[2] is not None else '$e%d' % (x[1] + 50), '' if x[3] == 1 else ' BY %d' % x[3] if x[3] > 0 else ' BY -%d' % -x[3], src(x[4]))
    raise KeyError(k)
def cnd(c): return c if isinstance(c, str) else '$c%d' % c
def branch(F, c, t, f): return t if c == 'TRUE' else f if c == 'FALSE' else F.new(('br', '$c%d' % c, t, f))
def lab(l): return str(l[0]) if l[0] == l[1] else '%d .. %d' % l
def spec(F, b, nxt, ex):
    for x in reversed(b): nxt = spec1(F, x, nxt, ex)
    return nxt
def spec1(F, x, nxt, ex):
    k = x[0]
    if k == 'ev': return F.new(('ev', 'x1_ = $e%d' % x[1], nxt))
    if k == 'exit': return ex
    if k == 'ret': return F.new(('end', 'return'))
    if k == 'if':
        n = nxt if x[2] is None else spec(F, x[2], nxt, ex)
        for c, b in reversed(x[1]): n = branch(F, c, spec(F, b, nxt, ex), n)
        return n
    if k == 'while':
        h = F.new(); F.n[h] = ('nop', branch(F, x[1], spec(F, x[2], h, ex), nxt)); return h
    if k == 'repeat':
        h = F.new(); F.n[h] = ('nop', spec(F, x[1], branch(F, x[2], nxt, h), ex)); return h
    if k == 'loop':
        h = F.new(); F.n[h] = ('nop', spec(F, x[1], h, nxt)); return h
    if k == 'case':
        m = {}
        for ls, b in x[2]:
            n = spec(F, b, nxt, ex)
            for lo, hi in ls:
                for v in range(lo, hi + 1): m[v] = n
        return F.new(('sw', '$e%d' % x[1], m, F.new(('end', 'trap -4: no label matches')) if x[3] is None else spec(F, x[3], nxt, ex)))
    if k == 'for':
        h = F.new(); st = x[3]; lim = str(x[2]) if x[2] is not None else 'limit%d' % x[1]
        F.n[h] = ('br', '(x2_ %s %s)' % ('<=' if st > 0 else '>=', lim), spec(F, x[4], F.new(('ev', 'x2_ += %d' % st, h)), ex), nxt)
        n = F.new(('ev', 'x2_ = $e%d' % x[1], h))
        return n if x[2] is not None else F.new(('ev', 'limit%d = $e%d' % (x[1], x[1] + 50), n))
    raise KeyError(k)
# ---------------------------------------------------------------- C statements
class CFlow:
    def __init__(s, F): s.F = F; s.labels = {}; s.bad = []; s.defd = set(); s.used = set()
    def seq(s, b, nxt, brk):
        for x in reversed(b): nxt = s.st(x, nxt, brk)
        return nxt
    def label(s, l):
        if l not in s.labels: s.labels[l] = s.F.new()
        return s.labels[l]
    def cond(s, c, t, f):
        if c[0] == 'un' and c[1] == '!': return s.cond(c[2], f, t)
        if c[0] == 'num': return t if int(c[1], 0) else f
        return s.F.new(('br', cexpr.show(c), t, f))
    def st(s, x, nxt, brk):
        F = s.F; k = x[0]
        if k == 'seq': return s.seq(x[1], nxt, brk)
        if k == 'block': return s.seq(x[1][1], nxt, brk)
        if k == 'expr':
            e = x[1]
            if e == ('id', '__CASECHK'): return F.new(('end', 'trap -4: no label matches'))
            return F.new(('ev', cexpr.show(norm(e)), nxt))
        if k == 'if': return s.cond(x[1], s.st(x[2], nxt, brk), nxt if x[3] is None else s.st(x[3], nxt, brk))
        if k == 'while':
            h = F.new(); F.n[h] = ('nop', s.cond(x[1], s.st(x[2], h, nxt), nxt)); return h
        if k == 'do':
            h = F.new(); F.n[h] = ('nop', s.st(x[1], s.cond(x[2], h, nxt), nxt)); return h
        if k == 'for':
            if x[1] is not None or x[3] is not None: raise SemErr('a for loop with parts')
            h = F.new(); F.n[h] = ('nop', s.st(x[4], h, nxt) if x[2] is None else s.cond(x[2], s.st(x[4], h, nxt), nxt)); return h
        if k == 'break':
            if brk is None: raise SemErr('break outside a loop')
            return brk
        if k == 'goto': s.used.add(x[1]); return s.label(x[1])
        if k == 'label':
            if x[1] in s.defd: raise SemErr('the label %s is defined twice' % x[1])
            s.defd.add(x[1]); F.n[s.label(x[1])] = ('nop', nxt); return nxt
        if k == 'return':
            return F.new(('end', 'return' if x[1] is None else 'return ' + cexpr.show(x[1])))
        if k == 'switch':
            b = x[2]; b = b[1][1] if b[0] == 'block' else (b,); m = {}; df = None; n = nxt
            if b and b[-1][0] in ('case', 'default'): pass
            for y in reversed(b):
                if y[0] == 'case':
                    v = value(y[1])
                    if v in m: raise SemErr('the label %s is written twice' % v)
                    m[v] = n
                elif y[0] == 'default':
                    if df is not None: raise SemErr('default is written twice')
                    df = n
                else: n = s.st(y, n, nxt)
            return F.new(('sw', cexpr.show(x[1]), m, nxt if df is None else df))
        raise SemErr('unexpected C statement %s' % (k,))
def value(a):
    if a[0] == 'par': return value(a[1])
    if a[0] == 'cast':
        v = value(a[2]); n = {'INT8': 8, 'INT16': 16, 'INT32': 32, 'INT64': 64}.get(a[1])
        if n is None: raise SemErr('a constant is converted to %s' % a[1])
        return (v + (1 << n - 1)) % (1 << n) - (1 << n - 1)
    if a[0] == 'bin' and a[1] in '+-': return value(a[2]) + (1 if a[1] == '+' else -1) * value(a[3])
    if a[0] == 'num': return int(a[1].rstrip('uUlL'), 0)
    if a[0] == 'un' and a[1] == '-': return -value(a[2])
    if a[0] == 'chr':
        t = a[1][1:-1]
        if len(t) == 1: return ord(t)
        if t[0] == '\\':
            if t[1] in '01234567': return int(t[1:], 8)
            if t[1] == 'x': return int(t[2:], 16)
            if len(t) == 2 and t[1] in '\\\'"?': return ord(t[1])
            if len(t) == 2 and t[1] in 'abfnrtv': return dict(zip('abfnrtv', (7, 8, 12, 10, 13, 9, 11)))[t[1]]
    raise SemErr('constant expected: %s' % cexpr.show(a))
def norm(e):
    if e[0] == 'assign' and e[1] == '-=' and e[3][0] == 'num': return ('assign', '+=', e[2], ('num', str(-value(e[3]))))
    if e[0] == 'assign' and e[3][0] == 'un' and e[3][1] == '-' and e[3][2][0] == 'num': return e[:3] + (('num', '-' + e[3][2][1]),)
    return e
def cflow(ast):
    F = Flow(); end = F.new(('end', 'the end')); C_ = CFlow(F); a = C_.seq(ast[1], end, None)
    if C_.used - C_.defd: raise SemErr('goto to the label %s, which is not defined' % ', '.join(sorted(C_.used - C_.defd)))
    return F, a
# ---------------------------------------------------------------- enumeration
EV = itertools.count
class Namer:
    def __init__(s): s.e = 0; s.c = 0
    def ev(s): s.e += 1; return ('ev', s.e)
    def k(s): s.e += 1; return s.e
    def cd(s): s.c += 1; return s.c
def contexts(N):
    """compound statements with one slot"""
    e = N.ev; c = N.cd
    L = lambda *v: [(x, x) for x in v]
    return {'IF': lambda b: ('if', [(c(), b)], None),
            'IF ELSE then': lambda b: ('if', [(c(), b)], [e()]),
            'IF ELSE else': lambda b: ('if', [(c(), [e()])], b),
            'ELSIF': lambda b: ('if', [(c(), [e()]), (c(), b)], None),
            'ELSIF first': lambda b: ('if', [(c(), b), (c(), [e()]), (c(), [e()])], None),
            'ELSIF ELSE': lambda b: ('if', [(c(), [e()]), (c(), []), (c(), [e()])], b),
            'WHILE': lambda b: ('while', c(), b), 'REPEAT': lambda b: ('repeat', b, c()), 'LOOP': lambda b: ('loop', b),
            'CASE first': lambda b: ('case', N.k(), [(L(1, 3), b), ([(5, 7), (9, 9)], [e()])], [e()]),
            'CASE last': lambda b: ('case', N.k(), [(L(0), [e()]), ([(2, 9)], []), (L(11, 12, 13, 14, 15, 17), b)], None),
            'CASE ELSE': lambda b: ('case', N.k(), [(L(4), [e()])], b),
            'FOR': lambda b: ('for', N.k(), None, 1, b), 'FOR BY 3': lambda b: ('for', N.k(), 90, 3, b), 'FOR BY -2': lambda b: ('for', N.k(), None, -2, b)}
NAMES = tuple(contexts(Namer()))
CORE = ('IF ELSE then', 'ELSIF', 'WHILE', 'REPEAT', 'LOOP', 'CASE first', 'CASE ELSE', 'FOR')
LEAVES = {'assignment': lambda N: [N.ev()], 'EXIT': lambda N: [('exit',)], 'RETURN': lambda N: [('ret',)], 'nothing': lambda N: [], 'x; EXIT': lambda N: [N.ev(), ('exit',)]}
def program(path, leaf, tail):
    """nested statement; inside a LOOP so that EXIT is legal, with statements around every level when tail"""
    N = Namer(); b = LEAVES[leaf](N)
    for p in path:
        x = contexts(N)[p](b); b = [N.ev(), x, N.ev()] if tail else [x]
    return [('loop', b), N.ev()]
def shapes():
    for l in LEAVES:
        for t in (0, 1):
            for a in NAMES:
                yield (a,), l, t
                for b in NAMES: yield (a, b), l, t
    for a in CORE:
        for b in CORE:
            for c in CORE:
                for l in ('EXIT', 'x; EXIT'): yield (a, b, c), l, 0
            for c in ('LOOP', 'CASE first', 'WHILE'):
                for d in ('LOOP', 'IF ELSE then', 'CASE ELSE', 'FOR'): yield (a, b, c, d), 'EXIT', 1
def setup(G, opts=(), level=1, exprs=80, **kw):
    st = G.begin(opts, level); G.vars = {}; G.tmps = {}; pr = G.scopes(st, **kw); G.predeclare(st)
    for i in range(exprs): G.opaque_(st, 'c%d' % i, G.typ(st, 'BOOL')); G.opaque_(st, 'e%d' % i, G.typ(st, 'INT32'))
    for i in range(4): G.variable(st, 'x%d' % i, G.typ(st, 'INT32'))
    return st, pr
def limits(G, toks, st):
    """the temporaries of FOR statements, named after the expression assigned to them"""
    for i, t in enumerate(toks):
        if t[0] in ('CI', 'I') and t[1] not in G.vars and i + 2 < len(toks) and toks[i + 1] == ('T', ' = ') and toks[i + 2][0] == 'E':
            n = toks[i + 2][1][1]
            if n[:1] == 'e' and n[1:].isdigit(): G.tmps[t[1]] = 'limit%d' % (int(n[1:]) - 50)
def chain_(st, E, G, first):
    r = []
    while first != NIL and len(r) < 50: r.append(first); first = E.load(st, ('f', ('*', first), G.O['link']))
    return r
def flow_case(G, prog, text):
    """-> (problem or None, C text)"""
    st, pr = setup(G, exprs=1)
    for k in set(re.findall(r'\$(\w+)', text)): G.opaque_(st, k, G.typ(st, 'BOOL' if k[0] == 'c' else 'INT32'))
    res = G.compile(st, text, pr)
    if len(res) != 1: raise Broken('%s: %d paths' % (text, len(res)))
    c, err, toks, u = res[0]
    if err: return 'is rejected with error %s' % err, ''
    limits(G, toks, u); c = G.text(toks)
    try:
        F = Flow(); a = spec(F, prog, F.new(('end', 'the end')), None); H, b = cflow(cexpr.stmts(c, G.istype)); d = same_flow(F, a, H, b)
    except (CErr, SemErr) as e: return str(e), c
    if d is None:
        E = G.engine(); top = u.env[('g', G.rctx.obj('OPT.topScope'))]; decl = chain_(u, E, G, E.load(u, ('f', ('*', top), G.O['scope'])))
        for t in G.tmps:
            if t not in decl: d = 'the limit of a FOR statement is not declared'
            elif E.load(u, ('f', ('*', t), G.O['typ'])) != G.types['INT32']: d = 'the limit of a FOR statement has not the type of its variable'
    return d, c
_G = None
def work(chunk):
    out = []
    for path, leaf, tail in chunk:
        p = program(path, leaf, tail); t = src(p)
        try: d, c = flow_case(_G, p, t)
        except Broken as e: out.append((path, leaf, tail, t, '', 'BROKEN %s' % e)); continue
        out.append((path, leaf, tail, t, c, d))
    return out
def pool(G, items, f):
    global _G; _G = G
    n = max(1, min(8, os.cpu_count() or 1)); items = list(items); k = max(1, min(64, len(items) // (4 * n) or 1))
    chunks = [items[i:i + k] for i in range(0, len(items), k)]
    if n == 1: return [x for c in chunks for x in f(c)]
    with multiprocessing.get_context('fork').Pool(n) as p: return [x for r in p.imap_unordered(f, chunks) for x in r]
def run(ctx):
    G = Comp(ctx)
    constants(ctx, G); rows(ctx, G); conditions(ctx, G); labels(ctx, G); loops(ctx, G); returns(ctx, G)
    control(ctx, G)
    for r, k in (('control flow', 4000), ('constant condition', 60), ('statement', 300), ('condition', 300), ('labels', 20), ('FOR', 40), ('RETURN', 20), ('predeclared', 30)): ctx.floor(r, k)
def constants(ctx, G):
    """IF, WHILE and REPEAT with constant conditions"""
    w = ctx.where(ctx.proc('OPB.OptIf')); items = []
    for n in (1, 2, 3):
        for cs in itertools.product(('c', 'TRUE', 'FALSE'), repeat=n):
            for e in (0, 1):
                N = Namer(); items.append(([('if', [(N.cd() if c == 'c' else c, [N.ev()]) for c in cs], [N.ev()] if e else None), N.ev()], 'IF %s%s' % (' ELSIF '.join(cs), ' ELSE' * e)))
    for c in ('TRUE', 'FALSE'):
        N = Namer(); items.append(([('while', c, [N.ev()]), N.ev()], 'WHILE ' + c))
        N = Namer(); items.append(([('repeat', [N.ev()], c), N.ev()], 'REPEAT UNTIL ' + c))
        N = Namer(); items.append(([('loop', [('if', [(c, [('exit',)])], [N.ev()])]), N.ev()], 'EXIT IF ' + c))
    for p, name in items:
        t = src(p); d, c = flow_case(G, p, t)
        ctx.check(d is None, 'constant condition', name, w, '%s is written as %s: %s' % (t, ' '.join(c.split()), d), sample='%s: %s' % (t, ' '.join(c.split())))
# ---------------------------------------------------------------- single statements
PRE = {'HALT': 'haltfn', 'NEW': 'newfn', 'ABS': 'absfn', 'CAP': 'capfn', 'ORD': 'ordfn', 'ENTIER': 'entierfn', 'ODD': 'oddfn', 'MIN': 'minfn', 'MAX': 'maxfn', 'CHR': 'chrfn', 'SHORT': 'shortfn', 'LONG': 'longfn', 'SIZE': 'sizefn', 'INC': 'incfn', 'DEC': 'decfn', 'INCL': 'inclfn', 'EXCL': 'exclfn', 'LEN': 'lenfn', 'COPY': 'copyfn', 'ASH': 'ashfn', 'ASSERT': 'assertfn', 'FALSE': 0, 'TRUE': 1}
SYS = {'ADR': 'adrfn', 'CC': 'ccfn', 'LSH': 'lshfn', 'ROT': 'rotfn', 'GET': 'getfn', 'PUT': 'putfn', 'GETREG': 'getrfn', 'PUTREG': 'putrfn', 'BIT': 'bitfn', 'VAL': 'valfn', 'NEW': 'sysnewfn', 'MOVE': 'movefn'}
BT = {'b': 'BOOL', 'c': 'CHAR', 'i8': 'INT8', 'i16': 'INT16', 'i32': 'INT32', 'i64': 'INT64', 'r': 'REAL', 'lr': 'LREAL', 's32': 'SET32', 's64': 'SET64', 'by': 'BYTE'}
CN = {'BOOL': 'BOOLEAN', 'LREAL': 'LONGREAL', 'SET32': 'SET', 'BYTE': 'SYSTEM_BYTE'}
def strip(a):
    if isinstance(a, tuple):
        if a[:1] == ('par',) and len(a) == 2: return strip(a[1])
        return tuple(strip(x) for x in a)
    return a
def env(G, opts=(), level=1, names=None, **kw):
    """variables v (local) and vv (VAR parameter) and opaque operands $v of every kind of type"""
    st = G.begin(opts, level, **kw); G.vars = {}; G.tmps = {}; pr = G.scopes(st); G.predeclare(st); T = lambda k: G.typ(st, k)
    want = lambda n: names is None or n in names
    def three(n, t):
        if want(n): G.variable(st, n, t)
        if want('v' + n): G.variable(st, 'v' + n, t, 'VarPar')
        if want('$' + n): G.opaque_(st, n, t)
    for n, k in BT.items(): three(n, T(k))
    s = G.setf
    def arr(k, e, n, size): v = G.array(st, k, e, n); s(st, v, G.S, 'size', C(size)); return v
    R = G.record(st, 'R'); R1 = G.record(st, 'R1', base=R); R2 = G.record(st, 'R2', base=R1); RP = G.record(st, 'RP')
    P = G.pointer(st, 'PR', R); P1 = G.pointer(st, 'PR1', R1); P2 = G.pointer(st, 'PR2', R2)
    s10, s20, s1 = arr('S10', T('CHAR'), 10, 10), arr('S20', T('CHAR'), 20, 20), arr('S1', T('CHAR'), 1, 1)
    ai, ar, ap, a2 = arr('AI', T('INT32'), 10, 40), arr('AR', R, 3, 24), arr('AP', P, 5, 40), None
    row = arr('ROW', T('INT16'), 4, 8); a2 = arr('AA', row, 7, 56)
    for n, t in (('rec', R), ('rec1', R1), ('rec2', R2), ('p', P), ('p1', P1), ('p2', P2), ('s', s10), ('t', s20), ('u', s1), ('a', ai), ('ar', ar), ('ap', ap), ('aa', a2), ('pt', G.proct(st))): three(n, t)
    oa = lambda k, e: G.openarr(st, k, e)
    def ptr(k, b): return G.pointer(st, k, b)
    n = 0
    for nm, e in (('oi', T('INT32')), ('oc', T('CHAR')), ('ol', T('LREAL')), ('op', P), ('or', R), ('orp', RP), ('oa', ai), ('oaa', a2), ('oar', arr('ARP', RP, 3, 24)), ('oap', ap)):
        three('p' + nm, ptr('P_' + nm, oa('O_' + nm, e)))
        three('p2' + nm, ptr('P2_' + nm, oa('O2_' + nm, oa('O2b_' + nm, e))))
    three('p3', ptr('P3', oa('O3', oa('O3b', oa('O3c', T('INT16'))))))
    three('pa', ptr('PA', ai)); three('paa', ptr('PAA', a2)); three('parr', ptr('PARP', G.types['ARP'])); three('par', ptr('PARR', ar)); three('pap', ptr('PAP', ap))
    for k in ('R', 'R1', 'R2', 'PR', 'PR1', 'PR2', 'S10', 'AI'): G.idents[k] = G.sobj[G.types[k]]
    if want('os'): G.variable(st, 'os', oa('OS', T('CHAR')), 'VarPar')
    if want('ov'): G.variable(st, 'ov', oa('OV', T('CHAR')), 'Var')
    fr = G.rec(st, 'fld_f', G.O, name=C('f'), mode=C(G.c('Fld')), typ=T('INT32'), mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL)
    fb = G.rec(st, 'fld_g', G.O, name=C('g'), mode=C(G.c('Fld')), typ=T('BOOL'), mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL)
    fc = G.rec(st, 'fld_h', G.O, name=C('h'), mode=C(G.c('Fld')), typ=T('CHAR'), mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL)
    for r in (R, R1, R2):
        for o, x in (('f', fr), ('g', fb), ('h', fc)): G.flds[(r, o)] = x; G.vars[x] = x and o[:-1] if False else o
    return st, pr
def used(text): return set(re.findall(r'\$?[A-Za-z]\w*', text))
def one(G, text, opts=(), level=1, **kw):
    """-> (C text or None, errors)"""
    st, pr = env(G, opts, level, used(text), **kw)
    E0 = G.handlers_ = {'OPC.NofPtrs': lambda E, n, a, st: [(C(1 if E.norm(st, a[0]) == G.types.get('RP') else 0), st)]}
    res = G.compile(st, text, pr)
    if not res: raise Broken('%s: no path' % text)
    return [(c, e) for c, e, toks, u in res]
def stmt_row(G, text, want, opts=(), **kw):
    """None or a problem; want: C statements that are all acceptable, or None when the source has to be rejected"""
    r = one(G, text, opts, **kw)
    if want is None:
        bad = [c for c, e in r if c is not None]
        return ('is accepted and written as %s' % ' '.join(bad[0].split()) if bad else None), ''
    ok = [strip(cexpr.stmts(x, G.istype)) for x in want]
    for c, e in r:
        if c is None: return 'is rejected with error %s' % e, ''
        try: a = strip(cexpr.stmts(c, G.istype))
        except CErr as x: return str(x), c
        if a not in ok: return 'not as %s' % want[0], c
    return None, r[0][0]
def table():
    """(source, C) of all kinds of assignments and predeclared procedures"""
    r = []; add = lambda s, *c, **o: r.append((s, c or None, o.get('opts', ())))
    sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
    for a in BT:
        for b in BT:
            ok = a == b or a in sz and b in sz and sz[b] <= sz[a] or a in ('r', 'lr') and b in sz or (a, b) == ('lr', 'r') or a == 'by' and b in ('c', 'i8') or (a, b) == ('s64', 's32')
            for v, cv in ((a, a + '_'), ('v' + a, '*v%s_' % a)):
                if ok: add('%s := $%s' % (v, b), '%s = $%s;' % (cv, b))
                elif (a, b) not in (('s32', 's64'),): add('%s := $%s' % (v, b))
    # assignments of constants
    for a, n in sz.items():
        for k in (0, 1, 127, 128, 32767, 32768, 2147483647, 2147483648):
            if k < 2 ** (8 * n - 1): add('%s := %d' % (a, k), '%s_ = %d;' % (a, k), '%s_ = (INT64)(%d);' % (a, k), '%s_ = (INT64)%d;' % (a, k), '%s_ = ((INT64)(%d));' % (a, k))
            else: add('%s := %d' % (a, k))
    add('b := TRUE', 'b_ = 1;'); add('b := FALSE', 'b_ = 0;'); add("c := 'x'", "c_ = 'x';"); add('b := 1'); add('i8 := TRUE'); add('c := 5'); add("i32 := 'x'")
    add('s32 := {}', 's32_ = 0x0;'); add('s32 := {1, 3 .. 5}', 's32_ = 0x3A;'); add('s32 := {$i32}', 's32_ = __SETOF($i32, 32);')
    # strings and arrays
    for v, cv in (('s', 's_'), ('vs', 'vs_'), ('aa', None)):
        if cv is None: continue
        add('%s := "abc"' % v, '__MOVE("abc", %s, 4);' % cv); add('%s := "x"' % v, '__MOVE("x", %s, 2);' % cv); add('%s := ""' % v, '%s[0] = 0x00;' % cv, "%s[0] = 0;" % cv, '__MOVE("", %s, 1);' % cv)
        add('%s := "123456789"' % v, '__MOVE("123456789", %s, 10);' % cv); add('%s := "1234567890"' % v)
    add('u := ""', 'u_[0] = 0x00;'); add('u := "x"'); add('a := "abc"'); add('s := 5'); add("c := ''") if False else None
    for x, y, n in (('s', 's', 10), ('a', 'a', 40), ('aa', 'aa', 56), ('ar', 'ar', 24), ('ap', 'ap', 40)):
        for v, cv in ((x, x + '_'), ('v' + x, 'v%s_' % x)):
            for w, cw in ((y, y + '_'), ('v' + y, 'v%s_' % y)): add('%s := %s' % (v, w), '__MOVE(%s, %s, %d);' % (cw, cv, n))
    add('t := s', '__MOVE(s_, t_, 10);'); add('s := t'); add('s := a'); add('a := s')
    # records
    for o, (gp, gr) in (((), ('*p_', '*vrec_')), (('typchk',), ('__GUARDEQP(p_, R)', '__GUARDEQR(vrec_, vrec___typ, R)'))):
        for y, cy in (('rec', 'rec_'), ('$rec', '$rec'), ('rec1', '*(R*)&rec1_'), ('rec2', '*(R*)&rec2_'), ('$rec1', '*(R*)&$rec1')):
            add('rec := ' + y, 'rec_ = %s;' % cy, opts=o); add('vrec := ' + y, '%s = %s;' % (gr, cy), opts=o); add('p^ := ' + y, '%s = %s;' % (gp, cy), opts=o)
    add('rec1 := rec'); add('rec2 := rec1'); add('vrec1 := $rec'); add('rec := p'); add('p := rec'); add('a := rec'); add('rec := a')
    # pointers and procedures
    for x, y, t in (('p', 'p', None), ('p', 'p1', 'PR'), ('p', 'p2', 'PR'), ('p1', 'p2', 'PR1'), ('p2', 'p2', None)):
        for v, cv in ((x, x + '_'), ('v' + x, '*v%s_' % x)):
            for w, cw in ((y, y + '_'), ('$' + y, '$' + y), ('v' + y, '*v%s_' % y)): add('%s := %s' % (v, w), '%s = %s%s;' % (cv, '(%s)' % t if t else '', cw))
    for x, y in (('p1', 'p'), ('p2', 'p1'), ('p2', 'p'), ('p', 'pa'), ('pa', 'p'), ('pa', 'poi'), ('pt', 'p'), ('p', 'pt'), ('i64', 'p'), ('p', 'i64'), ('rec', 'NIL'), ('i32', 'NIL'), ('s', 'NIL')): add('%s := %s' % (x, '$' + y if y != 'NIL' else y))
    for x in ('p', 'p1', 'pa', 'poi', 'pt'): add('%s := NIL' % x, '%s_ = NIL;' % x); add('v%s := NIL' % x, '*v%s_ = NIL;' % x)
    add('pt := pt', 'pt_ = pt_;'); add('pt := $pt', 'pt_ = $pt;')
    # increments
    for f, op in (('INC', '+='), ('DEC', '-=')):
        for x in sz:
            for v, cv in ((x, x + '_'), ('v' + x, '*v%s_' % x)):
                add('%s(%s)' % (f, v), '%s %s 1;' % (cv, op)); add('%s(%s, 5)' % (f, v), '%s %s 5;' % (cv, op))
                for y in sz:
                    if sz[y] <= sz[x]: add('%s(%s, $%s)' % (f, v, y), '%s %s $%s;' % (cv, op, y), '%s %s (%s)$%s;' % (cv, op, BT[x], y))
                    else: add('%s(%s, $%s)' % (f, v, y))
        for x in ('r', 'c', 'b', 's32', 'p', 'rec', 's', 'by'): add('%s(%s)' % (f, x))
        add('%s(i32, $r)' % f); add('%s($i32)' % f) if False else None; add('%s(i32, $c)' % f); add('%s(3)' % f); add('%s(i32, 1, 2)' % f); add('%s()' % f)
    for f, op in (('INCL', '|= '), ('EXCL', '&= ~')):
        for x, n in (('s32', 32), ('s64', 64)):
            for v, cv in ((x, x + '_'), ('v' + x, '*v%s_' % x)):
                for y in list(sz) + ['k']:
                    e = '$' + y if y != 'k' else '7'
                    add('%s(%s, %s)' % (f, v, e), '%s %s__SETOF(%s, %d);' % (cv, op, e, n))
            add('%s(%s, %d)' % (f, x, n)); add('%s(%s, %d)' % (f, x, n - 1), '%s_ %s__SETOF(%d, %d);' % (x, op, n - 1, n)); add('%s(%s, $r)' % (f, x)); add('%s(%s)' % (f, x))
        add('%s(i32, 3)' % f); add('%s(b, 3)' % f); add('%s(s32, -1)' % f)
    # strings
    for d, cd, n in (('s', 's_', '10'), ('t', 't_', '20'), ('vs', 'vs_', '10'), ('os', 'os_', 'os___len'), ('ov', 'ov_', 'ov___len')):
        for x, cx in (('s', 's_'), ('t', 't_'), ('vt', 'vt_'), ('os', 'os_'), ('ov', 'ov_'), ('"abc"', '"abc"'), ('""', '""'), ('"x"', '"x"'), ('$s', '$s')): add('COPY(%s, %s)' % (x, d), '__COPY(%s, %s, %s);' % (cx, cd, n))
    for x, y in (('a', 's'), ('s', 'a'), ('s', '"abc"'), ('i32', 's'), ('s', 'i32'), ('c', 's'), ('rec', 's')): add('COPY(%s, %s)' % (x, y))
    add('COPY(s)'); add('COPY(s, t, t)')
    # SYSTEM
    for x, t in list(BT.items()) + [('p', 'PR'), ('pt', 'TyPROC')]:
        ct = CN.get(t, t)
        for g in ('GET', 'PUT'): pass
        add('SYSTEM.GET($i64, %s)' % x, '__GET($i64, %s_, %s);' % (x, ct if t not in ('SET32', 'SET64') else 'UINT' + t[3:])); add('SYSTEM.GET($i64, v%s)' % x, '__GET($i64, *v%s_, %s);' % (x, ct if t not in ('SET32', 'SET64') else 'UINT' + t[3:]))
        add('SYSTEM.PUT($i64, $%s)' % x, '__PUT($i64, $%s, %s);' % (x, ct if t not in ('SET32', 'SET64') else 'UINT' + t[3:]))
    for x in ('rec', 's', 'a'): add('SYSTEM.GET($i64, %s)' % x); add('SYSTEM.PUT($i64, %s)' % x)
    for x in ('$i32', '$i16', '$r', '$c', '$s32'): add('SYSTEM.GET(%s, i32)' % x); add('SYSTEM.PUT(%s, $i32)' % x); add('SYSTEM.MOVE(%s, $i64, $i32)' % x); add('SYSTEM.MOVE($i64, %s, $i32)' % x)
    add('SYSTEM.GET($i64, 5)'); add('SYSTEM.GET($i64)'); add('SYSTEM.PUT($i64)')
    for y in sz: add('SYSTEM.MOVE($i64, i64, $%s)' % y, '__MOVE($i64, i64_, $%s);' % y)
    add('SYSTEM.MOVE(SYSTEM.ADR(s), SYSTEM.ADR(t), 10)', '__MOVE((ADDRESS)s_, (ADDRESS)t_, 10);', '__MOVE((ADDRESS)s_, (ADDRESS)t_, (INT64)10);'); add('SYSTEM.MOVE($i64, $i64, $r)'); add('SYSTEM.MOVE($i64, $i64)')
    for x in ('p', 'pa', 'poi'):
        for y in sz: add('SYSTEM.NEW(%s, $%s)' % (x, y), '__SYSNEW(%s_, $%s);' % (x, y)); add('SYSTEM.NEW(v%s, $%s)' % (x, y), '__SYSNEW(*v%s_, $%s);' % (x, y))
    add('SYSTEM.NEW(i32, $i32)'); add('SYSTEM.NEW(p)'); add('SYSTEM.NEW(p, $r)')
    # NEW
    for x, R in (('p', 'R'), ('p1', 'R1'), ('p2', 'R2')): add('NEW(%s)' % x, '__NEW(%s_, %s);' % (x, R)); add('NEW(v%s)' % x, '__NEW(*v%s_, %s);' % (x, R)); add('NEW(%s, $i32)' % x)
    el = {'oi': ('NIL', 4, 4, ()), 'oc': ('NIL', 1, 1, ()), 'ol': ('NIL', 8, 8, ()), 'op': ('POINTER__typ', 8, 8, ()), 'or': ('NIL', 8, 4, ()), 'orp': ('RP__typ', 8, 4, ()), 'oa': ('NIL', 4, 4, (10,)), 'oaa': ('NIL', 2, 2, (7, 4)), 'oar': ('RP__typ', 8, 4, (3,)), 'oap': ('POINTER__typ', 8, 8, (5,))}
    def newarr(x, tag, size, al, dyn, fix): return '%s = __NEWARR(%s, %d, %d, %d, %d%s);' % (x, tag, size, al, len(dyn) + len(fix), len(dyn), ''.join(', ' + d for d in dyn) + ''.join(', (INT64)(%d)' % f for f in fix))
    for k, (tag, size, al, fix) in el.items():
        if k in ('or', 'orp', 'oar'): continue                             # sizes of records: below
        for v, cv in (('p' + k, 'p%s_' % k), ('vp' + k, '*vp%s_' % k)):
            for y in sz: add('NEW(%s, $%s)' % (v, y), newarr(cv, tag, size, al, ('(ADDRESS)$' + y,), fix))
            add('NEW(%s, 5)' % v, newarr(cv, tag, size, al, ('(INT64)(5)',), fix)); add('NEW(%s)' % v); add('NEW(%s, $i32, $i32)' % v); add('NEW(%s, $r)' % v); add('NEW(%s, 0)' % v); add('NEW(%s, -1)' % v)
        for y, z in (('i32', 'i8'), ('i64', 'i16')): add('NEW(p2%s, $%s, $%s)' % (k, y, z), newarr('p2%s_' % k, tag, size, al, ('(ADDRESS)$' + y, '(ADDRESS)$' + z), fix))
        add('NEW(p2%s, 3, $i32)' % k, newarr('p2%s_' % k, tag, size, al, ('(INT64)(3)', '(ADDRESS)$i32'), fix)); add('NEW(p2%s, $i32, 4)' % k, newarr('p2%s_' % k, tag, size, al, ('(ADDRESS)$i32', '(INT64)(4)'), fix)); add('NEW(p2%s, $i32)' % k); add('NEW(p2%s, $i32, $i32, $i32)' % k)
    add('NEW(p3, $i32, $i64, $i8)', newarr('p3_', 'NIL', 2, 2, ('(ADDRESS)$i32', '(ADDRESS)$i64', '(ADDRESS)$i8'), ())); add('NEW(p3, $i32, $i32)'); add('NEW(p3, $i32, $i32, $i32, $i32)')
    for x, tag, size, al, fix in (('pa', 'NIL', 4, 4, (10,)), ('paa', 'NIL', 2, 2, (7, 4)), ('pap', 'POINTER__typ', 8, 8, (5,))): add('NEW(%s)' % x, newarr(x + '_', tag, size, al, (), fix)); add('NEW(v%s)' % x, newarr('*v%s_' % x, tag, size, al, (), fix)); add('NEW(%s, $i32)' % x)
    for x in ('i32', 'rec', 's', 'pt', '5'): add('NEW(%s)' % x)
    # traps
    for k in (0, 1, 20, 127, 255): add('HALT(%d)' % k, '__HALT(%d);' % k)
    for k in ('256', '$i32', '$r', 'TRUE', "'x'"): add('HALT(%s)' % k)
    for o in ((), ('assert',)):
        for e, ce in (('$b', '$b'), ('b', 'b_'), ('~$b', '!$b'), ('vb', '*vb_')):
            for n in (None, 5, 200): add('ASSERT(%s%s)' % (e, '' if n is None else ', %d' % n), *(['__ASSERT(%s, %d);' % (ce, 0 if n is None else n)] if o else ['']), opts=o)
        add('ASSERT(TRUE)', '', opts=o); add('ASSERT(TRUE, 7)', '', opts=o); add('ASSERT(FALSE)', opts=o); add('ASSERT($i32)', opts=o); add('ASSERT($b, $i32)', opts=o); add('ASSERT($b, 256)', opts=o); add('ASSERT()', opts=o)
    # functions are not statements, procedures not expressions
    for f in ('ABS($i32)', 'ODD($i32)', 'CAP($c)', 'ORD($c)', 'CHR($i32)', 'LEN(s)', 'MAX(CHAR)', 'SIZE(CHAR)', 'SHORT($i32)', 'LONG($i16)', 'ENTIER($r)', 'ASH($i32, 3)', 'SYSTEM.ADR(s)', 'SYSTEM.BIT($i64, 3)', 'SYSTEM.LSH($i32, 3)', 'SYSTEM.VAL(CHAR, $b)'): add(f)
    for f in ('INC(i32)', 'NEW(p)', 'HALT(3)', 'ASSERT($b)', 'COPY(s, t)', 'INCL(s32, 3)', 'SYSTEM.PUT($i64, 3)', 'SYSTEM.MOVE($i64, $i64, 3)', 'SYSTEM.NEW(p, 3)'): add('i32 := ' + f)
    add('i32 := x9'); add('x9 := i32'); add('EXIT'); add('i32 = 5'); add('5 := i32'); add('IF $i32 THEN END'); add('WHILE $c DO END'); add('REPEAT UNTIL $i32'); add('IF BOOLEAN THEN END'); add('CASE $r OF END'); add('CASE $b OF 1: END'); add('CASE $s32 OF 1: END')
    add('CASE $i32 OF 1: | 1: END'); add('CASE $i32 OF 1 .. 5: | 3: END'); add('CASE $i32 OF 5: | 1 .. 7: END'); add('CASE $i32 OF 5 .. 3: END'); add("CASE $i32 OF 'a': END"); add('CASE $c OF 5: END'); add('CASE $i32 OF $i32: END'); add('CASE $i32 OF 1 .. 3, 3 .. 5: END'); add('CASE $i32 OF 0, 2, 4, 1, 2: END'); add('CASE $i8 OF 300: END'); add('CASE $i8 OF 1 .. 300: END')
    return r
def work2(chunk):
    out = []
    for text, want, opts in chunk:
        try: d, c = stmt_row(_G, text, want, opts)
        except Broken as e: d, c = 'BROKEN %s' % e, ''
        out.append((text, want, opts, c, d))
    return out
def rows(ctx, G):
    w = ctx.where(ctx.proc('OPV.stat')); sysn, uni = G.predefined(); wp = 'src/compiler/OPT.Mod'
    for have, want, pre in ((uni, PRE, ''), (sysn, SYS, 'SYSTEM.')):
        for n in sorted(set(have) | set(want)):
            h, k = have.get(n), want.get(n); k = ctx.const('OPT.' + k) if isinstance(k, str) else ('const', k) if k is not None else None
            ctx.check(h == k, 'predeclared', pre + n, wp, '%s%s %s' % (pre, n, 'is not a predeclared procedure' if k is None else 'is not entered' if h is None else 'stands for procedure %s, not %s' % (h, k)), sample='%s%s: procedure %s' % (pre, n, k))
    for text, want, opts, c, d in sorted(pool(G, table(), work2), key=repr):
        if d and d.startswith('BROKEN'): raise Broken(d)
        ctx.check(d is None, 'statement', text + ('' if not opts else ' with ' + ', '.join(opts)), w, '%s is written as %s: %s' % (text, ' '.join((c or '').split()), d) if c else '%s %s' % (text, d), sample='%s: %s' % (text, ' '.join(c.split()) if want else 'rejected'))
# ---------------------------------------------------------------- conditions and selectors
CONDS = ('$b', 'b', 'vb', 'rec.g', 'vrec.g', 'p^.g', 'p.g', 'vp.g', 'p1.g', 'ba[$i32]', 'pb[$i32]', 'pb^[3]', '~$b', '~b', '~vb', '~(b & $b)', '$b & b', 'b & vb & $b', '$b OR b', 'b OR vb OR $b', '(b OR vb) & $b', 'b & vb OR $b', '~b & ~vb', '~(b OR vb)', '$i32 = i32', '$i32 # 3', 'i32 < $i8', '$i64 <= i64', '$r > r', '$lr >= $lr', '$c = c', "$c < 'x'", 'b = vb', '$b # b', 's32 = $s32', 's32 # {}', 'p = $p', 'p # NIL', 'p1 = p', 'pt = $pt', 'pt # NIL', 's = t', 's < "abc"', 's # ""', 'os = s', '3 IN $s32', '$i32 IN s32', '~(3 IN s64)', '$i8 IN $s64', 'ODD($i32)', '~ODD(i64)', 'p IS PR1', 'vrec IS R1', '~(p IS PR1)', 'SYSTEM.BIT($i64, 3)', 'SYSTEM.BIT($i64, $i32)', 'SYSTEM.VAL(BOOLEAN, $c)', 'SYSTEM.VAL(BOOLEAN, c)', '$i32 + i32 > 3', '(i32 + 1) * 2 = $i32', 'ABS(i32) = 3', 'CAP($c) = c', 'LEN(os) > 3', 'i32 MOD 3 = 0', 'i32 DIV $i32 # 0', '-i32 < 3', 'fb()', 'fb() & b', '~fb()')
SELS = ('$i32', 'i32', 'vi32', '$i8', 'i16', '$i64', 'vi64', '$c', 'c', 'vc', 'rec.f', 'rec.h', 'p.f', 'p^.h', 'a[$i32]', 'pa[3]', 's[$i32]', 'vs[2]', '$i32 + i32', 'i32 - 1', 'i32 * 2', '-$i32', '-i32', 'i32 DIV 2', 'i32 MOD 4', 'i32 DIV $i32', 'i32 MOD $i32', 'ABS(i32)', 'ABS($i8)', 'ORD($c)', 'ORD(c)', 'CAP($c)', 'CHR($i32)', 'CHR(i32)', 'SHORT($i32)', 'LONG($i16)', 'LONG(i8)', 'ENTIER($r)', 'ASH(i32, 2)', 'LEN(os)', 'SYSTEM.VAL(SYSTEM.INT32, $s32)', 'SYSTEM.LSH(i32, 1)', 'SHORT(ENTIER(lr))', 'fi()')
def condenv(G, text, opts):
    st, pr = env(G, opts, 1, used(text))
    ba = G.array(st, 'BA', G.typ(st, 'BOOL'), 8); G.variable(st, 'ba', ba); G.variable(st, 'pb', G.pointer(st, 'PBA', ba))
    for n, k in (('fb', 'BOOL'), ('fi', 'INT32')):
        o = G.rec(st, 'I:' + n, G.O, name=C(n), mode=C(G.c('LProc')), typ=G.typ(st, k), mnolev=C(0), link=NIL, leaf=C(True), vis=C(0), adr=C(0), conval=NIL, scope=NIL, left=NIL, right=NIL); G.idents[n] = o; G.vars[o] = n
    G.variable(st, 'zb', G.typ(st, 'BOOL')); G.variable(st, 'zi', G.typ(st, 'INT64')); G.variable(st, 'zc', G.typ(st, 'CHAR')); G.variable(st, 'zz', G.typ(st, 'INT32'))
    return st, pr
FORMS = {'IF': ('IF %s THEN zz := 1 END', lambda b: b[0][1] if b[0][0] == 'if' else None), 'ELSIF': ('IF zb THEN ELSIF %s THEN zz := 1 END', lambda b: (b[0][3][1][0] if b[0][3][0] == 'seq' else b[0][3][1][1][0] if b[0][3][0] == 'block' else b[0][3])[1]), 'WHILE': ('WHILE %s DO zz := 1 END', lambda b: b[0][1] if b[0][0] == 'while' else None), 'REPEAT': ('REPEAT zz := 1 UNTIL %s', lambda b: b[0][2][2] if b[0][0] == 'do' and b[0][2][:2] == ('un', '!') else None), 'ASSERT': ('ASSERT(%s)', lambda b: b[0][1][2][0] if b[0][0] == 'expr' and b[0][1][0] == 'call' else None), 'RETURN': ('RETURN %s', lambda b: b[0][1] if b[0][0] == 'return' else None), 'CASE': ('CASE %s OF %s: zz := 1 END', lambda b: b[0][1] if b[0][0] == 'switch' else None)}
def unblock(b):
    return tuple(('seq', x[1][1]) if x[0] == 'block' else x for x in b)
def cond_case(G, form, e, opts):
    def go(text, ret=None):
        st, pr = condenv(G, text, opts)
        if form == 'RETURN': pr = G.scopes(st, typ=G.typ(st, 'BOOL'))
        r = G.compile(st, text, pr); out = []
        if not r: raise Broken('no path for %s' % text)
        for c, err, tk, u in r:
            if err: return 'is rejected with error %s' % err, []
            out.append((c, strip(cexpr.stmts(c, G.istype))[1]))
        return None, out
    f, pick = FORMS[form]; ischr = e.lower().startswith(('$c', 'c', 'vc', 'cap', 'chr')) or e.endswith('.h') or e.startswith(('s[', 'vs['))
    d, ref = go('%s := %s' % ('zb' if form != 'CASE' else 'zc' if ischr else 'zi', e))
    if d: return 'as an expression %s' % d, ''
    d, have = go(f % (e, "'x'" if ischr else '3') if form == 'CASE' else f % e)
    if d: return d, ''
    rs = [x[1][0][1][3] for x in ref]; c = ''
    for c, b in have:
        try: x = pick(b)
        except (IndexError, TypeError): x = None
        if x is None: return 'no condition found', c
        if not any(alike(x, y) for y in rs): return 'the condition differs from the expression %s' % cexpr.show(rs[0]), c
    return None, c
def alike(x, y):
    """equal, where ! of a relation may be the opposite relation"""
    if x == y: return True
    neg = {'==': '!=', '!=': '=='}
    if x[:2] == ('un', '!') and y[:1] == ('bin',) and y[1] in neg and x[2][:1] == ('bin',) and x[2] == ('bin', neg[y[1]]) + y[2:]: return True
    return len(x) == len(y) and x[:2] == y[:2] and x[0] in ('bin', 'un') and all(alike(p, q) for p, q in zip(x[2:], y[2:]))
def work3(chunk):
    out = []
    for form, e, opts in chunk:
        try: d, c = cond_case(_G, form, e, opts)
        except Broken as x: d, c = 'BROKEN %s' % x, ''
        except (CErr, SemErr) as x: d, c = str(x), ''
        out.append((form, e, opts, c, d))
    return out
def conditions(ctx, G):
    w = ctx.where(ctx.proc('OPV.stat'))
    items = [(f, e, o) for f in FORMS if f != 'CASE' for e in CONDS for o in (((), ('typchk', 'inxchk', 'ranchk')) if f != 'ASSERT' else (('assert',),))] + [('CASE', e, o) for e in SELS for o in ((), ('typchk', 'inxchk', 'ranchk'))]
    for form, e, opts, c, d in sorted(pool(G, items, work3), key=repr):
        if d and d.startswith('BROKEN'): raise Broken(d)
        ctx.check(d is None, 'condition', '%s %s%s' % (form, e, ' with checks' if len(opts) > 1 else ''), w, '%s %s: %s %s' % (form, e, d, ' '.join(c.split())), sample='%s %s: %s' % (form, e, ' '.join(c.split())))
# ---------------------------------------------------------------- labels
def labels(ctx, G):
    w = ctx.where(ctx.proc('OPP.CaseLabelList')); ws = ctx.where(ctx.proc('OPV.CaseStat')); N = 2 ** 63
    sel = {'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-N, N - 1)}
    def num(k): return str(k) if k >= 0 else '-%d' % -k if k > -N else '-9223372036854775807-1'
    cases = []
    for s, (lo, hi) in sel.items():
        for ls in ([[(0, 0)]], [[(lo, lo)]] if lo > -N else [[(-N + 1, -N + 1)]], [[(hi, hi)]], [[(-3, 2)], [(5, 5), (3, 3), (9, 12)]], [[(hi - 5, hi)], [(hi - 7, hi - 7)]], [[(k, k)] for k in (9, 3, 7, 1, 5, 0, 8, 2)], [[(k, k) for k in range(0, 40, 2)]], [[(1, 100)]], [[(100, 100)], [(-100, -100)], [(0, 0)]], [[], [(3, 3)]], [[(-1, -1)], [(0, 0)], [(1, 1)]]):
            cases.append((s, ls))
        if hi < N - 1:
            for ls in ([[(hi + 1, hi + 1)]], [[(0, hi + 1)]], [[(lo - 1, 0)]], [[(lo - 1, lo - 1)]]): cases.append((s, ls, 'reject'))
    for b in ([[(5, 5)], [(1, 9)]], [[(1, 3), (3, 3)]], [[(1, 3)], [(7, 9)], [(2, 8)]], [[(4, 2)]], [[(k, k) for k in (1, 5, 3, 7, 5)]], [[(1, 4)], [(4, 6)]], [[(4, 6)], [(1, 4)]], [[(-4, -2)], [(-3, -3)]]): cases.append(('i64', b, 'reject')); cases.append(('i16', b, 'reject'))
    Q = lambda c: '"%s"' % c if c == "'" else "'%s'" % c
    for ls in ([['a']], [['a'], ['b', 'z']], [["'"], ['"'], ['\\']], [[' ']], [['0', '9'], ['A', 'Z']], [[('a', 'f')], [('A', 'F')], [('0', '9')]], [['?'], ['%']]): cases.append(('c', [[(ord(x), ord(x)) if isinstance(x, str) else (ord(x[0]), ord(x[1])) for x in l] for l in ls]))
    for ls in ([['a'], ['a']], [[('a', 'f')], ['c']], [[('f', 'a')]]): cases.append(('c', [[(ord(x), ord(x)) if isinstance(x, str) else (ord(x[0]), ord(x[1])) for x in l] for l in ls], 'reject'))
    n = 0
    for case in cases:
        s, ls = case[:2]; f = (lambda k: Q(chr(k))) if s == 'c' else num
        for els in (0, 1):
            arms = [('%s: x1 := $e%d' % (', '.join(f(a) if a == b else '%s .. %s' % (f(a), f(b)) for a, b in l), i)) if l else '' for i, l in enumerate(ls)]
            text = 'CASE $%s OF %s%s END' % (s, ' | '.join(arms), ' ELSE x1 := $e90' if els else '')
            st, pr = setup(G, exprs=1)
            for i in list(range(len(ls))) + [90]: G.opaque_(st, 'e%d' % i, G.typ(st, 'INT32'))
            G.opaque_(st, s, G.typ(st, BT[s])); res = G.compile(st, text, pr); inst = '%s%s' % (text if len(text) < 70 else text[:60] + '...%d' % len(ls), ' ELSE' * els); n += 1
            if not res: raise Broken('no path for %s' % text)
            for c, err, tk, u in res:
                if len(case) > 2:
                    ctx.check(c is None, 'labels', inst, w, '%s is accepted' % text, sample='%s: rejected' % text); continue
                if c is None: ctx.check(False, 'labels', inst, w, '%s is rejected with error %s' % (text, err)); continue
                F = Flow(); end = F.new(('end', 'the end')); m = {}
                for i, l in enumerate(ls):
                    q = F.new(('ev', 'x1_ = $e%d' % i, end))
                    for a, b in l:
                        for v in range(a, b + 1): m[v] = q
                top = F.new(('sw', '$' + s, m, F.new(('ev', 'x1_ = $e90', end)) if els else F.new(('end', 'trap -4: no label matches'))))
                try: H, b = cflow(cexpr.stmts(c, G.istype)); d = same_flow(F, top, H, b)
                except (CErr, SemErr) as x: d = str(x)
                ctx.check(d is None, 'labels', inst, ws, '%s is written as %s: %s' % (text, ' '.join(c.split())[:200], d), sample='%s: %s' % (text, ' '.join(c.split())[:150]))
# ---------------------------------------------------------------- FOR
def loops(ctx, G):
    w = ctx.where(ctx.proc('OPP.StatSeq')); sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}; E = G.engine
    for v in sz:
        mx = 2 ** (8 * sz[v] - 1) - 1
        for a in list(sz) + [0, mx]:
            for b in list(sz) + [7, 127, mx] + ([mx + 1] if v != 'i64' else []):
                for step in (1, 2, -1, -3):
                    if step in (2, -1) and (a in sz and a != v): continue
                    st, pr = setup(G, exprs=1)
                    for k in sz: G.opaque_(st, k, G.typ(st, BT[k]))
                    G.opaque_(st, 'e1', G.typ(st, 'INT32')); G.variable(st, 'v', G.typ(st, BT[v]))
                    sh = lambda x: '$' + x if x in sz else str(x)
                    text = 'FOR v := %s TO %s BY %s DO x1 := $e1 END' % (sh(a), sh(b), step)
                    ok = (a not in sz or sz[a] <= sz[v]) and (sz[b] <= sz[v] if b in sz else b <= mx)
                    res = G.compile(st, text, pr)
                    if not res: raise Broken('no path for %s' % text)
                    for c, err, toks, u in res:
                        if not ok: ctx.check(c is None, 'FOR', text, w, '%s is accepted although the values of its limits do not fit its variable' % text, sample='%s: rejected' % text); continue
                        if c is None: ctx.check(False, 'FOR', text, w, '%s is rejected with error %s' % (text, err)); continue
                        tmp = [t[1] for t in toks if t[0] in ('CI', 'I') and t[1] not in G.vars]; G.tmps = {t: 'limit' for t in tmp}; c = G.text(toks); G.tmps = {}
                        F = Flow(); end = F.new(('end', 'the end')); h = F.new(); op = '<=' if step > 0 else '>='
                        lim = 'limit' if b in sz else None
                        rx = re.compile(r'\((?:INT64)\)')
                        F.n[h] = ('br', '(v_ %s %s)' % (op, lim or b), F.new(('ev', 'x1_ = $e1', F.new(('ev', 'v_ += %d' % step, h)))), end)
                        top = F.new(('ev', 'v_ = %s' % sh(a), h))
                        if lim: top = F.new(('ev', 'limit = $' + b, top))
                        try:
                            H, q = cflow(nocast(strip(cexpr.stmts(c, G.istype)), BT[v])); d = same_flow(F, top, H, q)
                        except (CErr, SemErr) as x: d = str(x)
                        if d is None and lim:
                            e = G.engine(); T = G.rctx.obj('OPT.topScope'); decl = chain_(u, e, G, e.load(u, ('f', ('*', u.env[('g', T)]), G.O['scope'])))
                            for t in set(tmp):
                                if t not in decl: d = 'the limit of a FOR statement is not declared'
                                elif e.load(u, ('f', ('*', t), G.O['typ'])) != G.types[BT[v]]: d = 'the limit of a FOR statement has not the type of its variable'
                        ctx.check(d is None, 'FOR', text, w, '%s is written as %s: %s' % (text, ' '.join(c.split()), d), sample='%s: %s' % (text, ' '.join(c.split())))
    for text in ('FOR v := 1 TO 5 BY 0 DO END', 'FOR v := 1 TO 5 BY $i8 DO END', 'FOR v := 1 TO $r DO END', 'FOR v := $r TO 5 DO END', 'FOR r := 1 TO 5 DO END', 'FOR c := 1 TO 5 DO END', 'FOR b := 1 TO 5 DO END', "FOR v := 'a' TO 'z' DO END", 'FOR v := 1 TO 5 BY 40000 DO END', 'FOR $i16 := 1 TO 5 DO END', 'FOR v := 1 DO END', 'FOR v := 1 TO 5 x1 := 3 END'):
        st, pr = env(G, names=('r', 'c', 'b', '$r', '$i8', '$i16')); G.variable(st, 'v', G.typ(st, 'INT16')); G.variable(st, 'x1', G.typ(st, 'INT32'))
        for c, err, toks, u in G.compile(st, text, pr): ctx.check(c is None, 'FOR', text, w, '%s is accepted' % text, sample='%s: rejected' % text)
def nocast(a, t):
    """without conversions to t or INT64"""
    if isinstance(a, tuple):
        if a[:1] == ('cast',) and a[1] in (t, 'INT64'): return nocast(a[2], t)
        return tuple(nocast(x, t) for x in a)
    return a
# ---------------------------------------------------------------- RETURN
def returns(ctx, G):
    """the value is computed before the scope is left; falling off the end of a function halts"""
    w = ctx.where(ctx.proc('OPV.stat')); wi = ctx.where(ctx.proc('OPV.ImplicitReturn'))
    V, Ex = 'VALUE', 'RESTORE'
    bodies = {'RETURN %s': ['ret'], 'x1 := $e1; RETURN %s': ['ev', 'ret'], 'IF $c1 THEN RETURN %s END; x1 := $e1': ['if'], 'IF $c1 THEN RETURN %s ELSE RETURN %s END': ['ifelse'], 'LOOP RETURN %s END': ['loop'], 'x1 := $e1': ['fall'], '': ['empty'], 'WHILE $c1 DO RETURN %s END; RETURN %s': ['while'], 'CASE $e1 OF 1: RETURN %s | 2: x1 := $e1 ELSE RETURN %s END; x1 := $e1': ['case']}
    types = [(None, '', None)] + [(t, e, None) for t, e in (('BOOL', '$b'), ('CHAR', '$c'), ('INT8', '$i8'), ('INT16', '$i8'), ('INT32', '$i32'), ('INT64', '$i16'), ('REAL', '$i32'), ('LREAL', '$r'), ('SET32', '$s32'), ('PR', '$p'), ('PR', '$p1'), ('PR', 'NIL'), ('TyPROC', '$pt'), ('INT32', 'i32'), ('INT32', 'i32 + 1'), ('BOOL', 'b & $b'), ('PR', 'p1'))]
    for T, e, _ in types:
        for leaf in (True, False):
            for text, kind in bodies.items():
                if T is None and '%s' in text: text2 = text.replace(' %s', '')
                else: text2 = text.replace('%s', e)
                st, pr = env(G, names=used(e) | {'x'}); 
                for i in range(3): G.opaque_(st, 'c%d' % i, G.typ(st, 'BOOL')); G.opaque_(st, 'e%d' % i, G.typ(st, 'INT32'))
                G.variable(st, 'x1', G.typ(st, 'INT32'))
                pr = G.scopes(st, leaf=leaf, typ=None if T is None else G.types.get(T) or G.typ(st, T))
                inst = '%s returning %s%s' % (text2 or 'nothing', T or 'nothing', '' if leaf else ', with nested procedures')
                r = G.parse_(st, text2) if text2 else [(NIL, [], st)]
                if len(r) != 1: raise Broken('%d paths for %s' % (len(r), text2))
                x, err, u = r[0]
                if err: ctx.check(False, 'RETURN', inst, w, '%s is rejected with error %s' % (text2, err)); continue
                u = u.copy(); u.cl = (); s_ = G.rec(u, 'scope_', G.O, right=NIL)
                sc = u.env[('f', ('*', pr), G.O['scope'])]; G.setf(u, sc, G.O, 'scope', NIL); G.setf(u, sc, G.O, 'leaf', C(leaf))
                k = G.rec(u, 'k_enter', G.K, intval=C(0), intval2=C(0))
                nd = G.rec(u, 'n_enter', G.N, left=NIL, right=x, link=NIL, obj=pr, subcl=C(0), typ=NIL, conval=k); G.setf(u, nd, G.N, 'class', C(G.c('Nenter')))
                G.vars[pr] = 'P'
                o, E = G.run(ctx.proc('OPV.stat'), with_(G, u), {'n': nd, 'outerProc': NIL})
                if len(o) != 1: raise Broken('%d paths in Nenter' % len(o))
                c = G.text(o[0][0])
                try: d = ret_check(G, c, T, e, leaf, text2, u)
                except (CErr, SemErr) as x: d = str(x)
                ctx.check(d is None, 'RETURN', inst, w if 'falls' not in (d or '') else wi, '%s in a procedure: %s (%s)' % (text2 or 'nothing', d, ' '.join(c.split())[:250]), sample='%s: %s' % (inst, ' '.join(c.split())[:160]))
    # module body
    for text in ('RETURN', 'x1 := $e1; RETURN'):
        for o, want in (((), '__ENDMOD'), (('mainprog',), '__FINI')):
            st, pr = setup(G, o, 0)
            for c, err, tk, u in G.compile(st, text, NIL):
                d = 'rejected' if c is None else None if strip(cexpr.stmts(c.split('=', 1)[1].split(';', 1)[1] if '=' in c else c, G.istype)) == strip(cexpr.stmts(want + ';', G.istype)) else 'not %s' % want
                ctx.check(d is None, 'RETURN', '%s in a module body%s' % (text, ' of a main program' if o else ''), w, '%s: %s %s' % (text, c, d), sample='%s: %s' % (text, c))
    for text, T in (('RETURN $b', 'INT32'), ('RETURN', 'INT32'), ('RETURN $i32', None), ('RETURN $i64', 'INT32'), ('RETURN $lr', 'REAL'), ('RETURN $p', 'PR1'), ('RETURN $c', 'INT32'), ('RETURN $i8', 'CHAR'), ('RETURN $s64', 'SET32') if False else ('RETURN $s32', 'INT32')):
        st, pr = env(G, names=used(text) | {'x'}); pr = G.scopes(st, typ=None if T is None else G.types.get(T) or G.typ(st, T))
        for c, err, tk, u in G.compile(st, text, pr): ctx.check(c is None, 'RETURN', '%s returning %s' % (text, T), w, '%s is accepted in a procedure returning %s' % (text, T), sample='%s in a procedure returning %s: rejected' % (text, T))
def with_(G, st):  # the level of a global procedure
    G.glob(st, 'OPM.level', C(1)); G.glob(st, 'OPM.noerr', C(True)); return st
def ret_check(G, c, T, e, leaf, text, st):
    ast = cexpr.stmts(c, G.istype)[1]
    fs = [x for x in ast if x[0] == 'func']
    if len(fs) != 1: raise SemErr('%d functions' % len(fs))
    body = fs[0][5][1][1] if fs[0][5][0] == 'block' else fs[0][5][1]
    # the language-level control flow, and the C control flow with returns made of events
    F = Flow(); end = F.new(('end', 'returns')); trap = F.new(('end', 'the function trap'))
    def ret(): return F.new(('end', 'return')) if T is None else F.new(('end', 'return value'))
    def ev(n): return F.new(('ev', 'x1_ = $e1', n))
    fall = ret() if T is None else trap
    k = [t for t in ('IF $c1 THEN RETURN', 'WHILE', 'LOOP', 'CASE', 'RETURN', 'x1 := $e1; RETURN', 'x1 :=') if text.startswith(t)]
    if text == '': a = fall
    elif text.startswith('LOOP') or text.startswith('RETURN'): a = ret()
    elif text.startswith('x1 := $e1; RETURN'): a = ev(ret())
    elif text.startswith('x1 :='): a = ev(fall)
    elif text.startswith('IF') and 'ELSE' in text: a = F.new(('br', '$c1', ret(), ret()))
    elif text.startswith('IF'): a = F.new(('br', '$c1', ret(), ev(fall)))
    elif text.startswith('WHILE'): a = F.new(('br', '$c1', ret(), ret()))
    else: q = ev(fall); a = F.new(('sw', '$e1', {1: ret(), 2: ev(q)}, ret()))
    val = set()
    def value_ok(v):
        w = ['$' + e[1:]] if e[0] == '$' else [{'NIL': 'NIL', 'i32': 'i32_', 'i32 + 1': '(i32_ + 1)', 'b & $b': '(b_ && $b)', 'p1': 'p1_'}[e]]
        v = strip(v)
        while v[0] == 'cast': v = v[2]
        return cexpr.show(v) in w
    def seqs(b, top=False):
        """rewrite scope bookkeeping: entry and the sequences that leave"""
        out = []; b = list(b); i = 0
        while i < len(b):
            x = b[i]
            if x[0] == 'block': out.append(('seq', seqs(x[1][1]))); i += 1; continue
            if x[0] == 'seq': out.append(('seq', seqs(x[1]))); i += 1; continue
            if x[0] in ('if',): out.append(('if', x[1], ('seq', seqs((x[2],))), None if x[3] is None else ('seq', seqs((x[3],))))); i += 1; continue
            if x[0] in ('while',): out.append(('while', x[1], ('seq', seqs((x[2],))))); i += 1; continue
            if x[0] == 'for': out.append(x[:4] + (('seq', seqs((x[4],))),)); i += 1; continue
            if x[0] == 'switch':
                y = x[2]; y = y[1][1] if y[0] == 'block' else (y,); out.append(('switch', x[1], ('block', ('seq', seqs(y))))); i += 1; continue
            out.append(x); i += 1
        # leaving: [__retval = v;] [P_s = _s.lnk;] return [v];
        r = []; i = 0
        def isa(x, l): return x[0] == 'expr' and x[1][0] == 'assign' and x[1][1] == '=' and strip(x[1][2]) == l
        while i < len(out):
            x = out[i]; j = i; v = None; rest = False; got = False
            if isa(out[j], ('id', '__retval')): v = out[j][1][3]; j += 1; got = True
            if j < len(out) and isa(out[j], ('id', 'P_s')) and strip(out[j][1][3]) == ('mem', '.', ('id', '_s'), 'lnk'): rest = True; j += 1
            if j < len(out) and out[j][0] == 'return':
                q = out[j][1]
                if not leaf and not rest: raise SemErr('returns without restoring the scope of its caller')
                if leaf and rest: raise SemErr('restores a scope it never set')
                if T is None:
                    if q is not None or got: raise SemErr('returns a value')
                    r.append(('return', None))
                else:
                    if q is None: raise SemErr('returns no value')
                    if got:
                        if strip(q) != ('id', '__retval'): raise SemErr('returns %s, not the value computed' % cexpr.show(q))
                        q = v
                    elif rest and not leaf: raise SemErr('computes the value to be returned after leaving its scope')
                    if not value_ok(q): raise SemErr('returns %s' % cexpr.show(q))
                    r.append(('return', ('id', 'value')))
                i = j + 1; continue
            if rest and j == len(out) and T is None and not got and top: r.append(('return', None)); i = j; continue
            if got or rest: raise SemErr('leaves its scope in the middle of the procedure')
            r.append(x); i += 1
        return tuple(r)
    b = [x for x in body if x[0] != 'decl']
    if not leaf:
        want = [('expr', ('assign', '=', ('mem', '.', ('id', '_s'), 'lnk'), ('id', 'P_s'))), ('expr', ('assign', '=', ('id', 'P_s'), ('un', '&', ('id', '_s'))))]
        if [strip(x) for x in b[:2]] != want: raise SemErr('does not link its scope first')
        b = b[2:]
    body_ = tuple(b); b = seqs(body_, True)
    H = Flow(); he = H.new(('end', 'falls off the end')); Cf = CFlow(H)
    if T is None and leaf: he = H.new(('end', 'return'))
    st0 = Cf.st
    def st_(x, nxt, brk):
        if x[0] == 'expr' and strip(x[1]) == ('id', '__RETCHK'): return H.new(('end', 'the function trap'))
        return st0(x, nxt, brk)
    Cf.st = st_
    h = Cf.seq(b, he, None)
    d = same_flow(F, a, H, h)
    if d: return d
    decl = [(x[2], x[3]) for x in body if x[0] == 'decl']
    if T is not None and '__retval' in c:
        t = [G.ctype(bs, dd) for bs, l in decl for n, dd, i in l if n == '__retval']
        if len(t) != 1: return '__retval is declared %d times' % len(t)
        if not G.same(t[0], ctof(G, st, G.types[T])): return '__retval has the type %s' % G.ctshow(t[0])
    return None
def ctof(G, st, t): G.use(st); return G.ctof(t)
def control(ctx, G):
    w = ctx.where(ctx.proc('OPV.stat')); ctx.proc('OPP.StatSeq')
    for path, leaf, tail, t, c, d in sorted(pool(G, shapes(), work), key=repr):
        if d and d.startswith('BROKEN'): raise Broken(d)
        ctx.check(d is None, 'control flow', '%s in %s%s' % (leaf, ' in '.join(path), ' with neighbours' if tail else ''), w, '%s is written as %s: %s' % (t, ' '.join(c.split()), d), sample='%s: %s' % (t, ' '.join(c.split())))

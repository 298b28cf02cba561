"""Type rules: expressions, statements, calls and designators built from operands of every type are taken through the parser and the tree
construction; a combination has to be rejected exactly when the language's type rules forbid it, and an accepted expression has to get
exactly the type the rules give it.  The rules are written down here from the language report and the compiler's documentation."""
from oblib.comp import *
from props.C05 import World, proc, comp, base, form, INTS
LEVEL = 'other'
NUM = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'r': 16, 'lr': 32}
IN = ('i8', 'i16', 'i32', 'i64'); RE = ('r', 'lr'); SE = {'s32': 4, 's64': 8}
BASIC_ = ('b', 'c', 'by') + IN + RE + tuple(SE)
PTRS = {'p': 'rec', 'p1': 'rec1', 'p2': 'rec2', 'px': 'recx'}
EXT = {'rec': (), 'rec1': ('rec',), 'rec2': ('rec1', 'rec'), 'recx': ()}
CHARS = {'s': 10, 't': 20, 's2': 10}                       # s2: another name for an array of the same shape
OTHER = ('a', 'qa', 'qoc', 'pt', 'ptb', 'pti', 'pp')
ALL = BASIC_ + tuple(PTRS) + tuple(EXT) + tuple(CHARS) + OTHER
OPEN = ('oc', 'oi')
# constants of the source: text -> (type, value kind)
CONST = {'5': 'i8', '300': 'i16', '70000': 'i32', '5000000000': 'i64', "'a'": 'c', '"abc"': 'str3', '"abcdefghijklm"': 'str13', '""': 'str0', 'TRUE': 'b', 'NIL': 'nil', '{1}': 's32', '{40}': 's64', '$r_const': 'r', '$lr_const': 'lr'}
def extends(s, t): return s == t or t in EXT[s]
def assignable(t, s, const=False):
    """a value of type s (a constant) may be assigned to a variable of type t"""
    if t in OPEN or s in OPEN or s == 'none': return False
    if s == t: return True
    if t in IN: return s in IN and NUM[s] <= NUM[t]
    if t in RE: return s in NUM and NUM[s] <= NUM[t]
    if t in SE: return s in SE and SE[s] <= SE[t]
    if t == 'by': return s in ('c', 'i8')
    if t == 'pp': return s in PTRS or s in ('qa', 'qoc', 'nil')
    if t in PTRS: return s == 'nil' or s in PTRS and extends(PTRS[s], PTRS[t])
    if t in ('qa', 'qoc', 'pt', 'ptb', 'pti'): return s == 'nil'
    if t in EXT: return s in EXT and extends(s, t)
    if t in CHARS: return s in CHARS and CHARS[s] <= CHARS[t] or s.startswith('str') and int(s[3:]) + 1 <= CHARS[t] or s == 'c' and const
    return False
def ischars(s, const=False): return s in CHARS or s == 'oc' or s.startswith('str') or s == 'c' and const
def binary(op, a, b, ac=False, bc=False):
    """type of a op b, or None"""
    if 'none' in (a, b): return None
    if op in '+-*' or op == '/':
        if a in NUM and b in NUM:
            r = max(a, b, key=lambda x: NUM[x])
            return 'r' if op == '/' and r in IN else r
        if a in SE and b in SE: return max(a, b, key=lambda x: SE[x])
        return None
    if op in ('DIV', 'MOD'): return max(a, b, key=lambda x: NUM[x]) if a in IN and b in IN else None
    if op in ('&', 'OR'): return 'b' if a == b == 'b' else None
    if op == 'IN': return 'b' if a in IN and b in SE else None
    num = a in NUM and b in NUM or a == b == 'c'
    st = ischars(a, ac) and ischars(b, bc) and not a == b == 'c'
    if num or st: return 'b'
    if op in ('=', '#'):
        if a == b and a in ('b', 'by', 'pp', 'qa', 'qoc', 'pt', 'ptb', 'pti', 'nil') or a in SE and b in SE: return 'b'
        if a in PTRS and b in PTRS: return 'b' if extends(PTRS[a], PTRS[b]) or extends(PTRS[b], PTRS[a]) else None
        pn = tuple(PTRS) + ('pp', 'qa', 'qoc', 'pt', 'ptb', 'pti')
        if a == 'nil' and b in pn or b == 'nil' and a in pn: return 'b'
    return None
class TW(World):
    def __init__(s, G, level=1, opts=()):
        super().__init__(G, level, True, opts, ())
        st = s.st; T = s.T
        X = G.record(st, 'RX', extlev=C(0)); G.setf(st, X, G.S, 'size', C(8)); s.tys['recx'] = X; s.tys['px'] = G.pointer(st, 'PX', X)
        s2 = G.array(st, 'S2', T('CHAR'), 10); G.setf(st, s2, G.S, 'size', C(10)); s.tys['s2'] = s2
        def pty(k, fs): v = G.proct(st, k); G.setf(st, v, G.S, 'BaseTyp', G.types['NOTYP']); G.setf(st, v, G.S, 'link', fs[0] if fs else NIL); return v
        o, fs = proc(G, st, 'FPI', [('Var', T('INT32'))])
        s.tys['ptb'] = pty('PTB', []); s.tys['pti'] = pty('PTI', fs)
        for k in ('pt', 'ptb', 'pti', 's2', 'recx', 'px', 'a', 'qoc', 'qa'):
            so = st.env.get(('f', ('*', s.tys[k]), G.S['strobj']))
        for v in (s.tys['pp'], st.env[('g', G.rctx.obj('OPT.niltyp'))]): G.setf(st, v, G.S, 'BaseTyp', G.undf)      # as NewStr leaves it
        for k in ALL: s.name(k)
        st.env[('g', G.ctx.obj('OPT.SYSimported'))] = C(True)
        for v in set(list(s.tys.values()) + list(G.types.values())):
            for f, d in (('extlev', C(0)), ('mno', C(0)), ('n', C(0)), ('link', NIL), ('BaseTyp', G.undf)):
                if ('f', ('*', v), G.S[f]) not in st.env: G.setf(st, v, G.S, f, d)
    def name(s, k):
        """type identifier T_k"""
        G, st = s.G, s.st
        o = G.rec(st, 'N:' + k, G.O, name=C('T' + k), mode=C(G.c('Typ')), typ=s.tys[k], mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL)
        G.idents['T' + k] = o
    def op(s, k, cls='Nvar', readonly=False):
        """opaque operand of type k: $k_cls"""
        G, st = s.G, s.st; n = '%s_%s%s' % (k, cls[1:].lower(), 'ro' if readonly else '')
        if n not in G.opq:
            nd = G.opaque_(st, n, s.tys[k], cls=cls)
            if readonly: G.setf(st, nd, G.N, 'readonly', C(True))
            if cls in ('Nconst',):
                kv = G.rec(st, 'K_' + n, G.K, intval=C(1), intval2=C(0), setval=C(frozenset()), realval=('s', 'real_' + n), ext=NIL); G.setf(st, nd, G.N, 'conval', kv)
            if cls in ('Ndop', 'Nmop'): G.setf(st, nd, G.N, 'subcl', C(G.ctx.const('OPS.plus')))
        return '$' + n
    def tname_(s, t):
        for k, v in s.tys.items():
            if v == t and k not in ('qr1',): return k
        if t == s.G.types['NOTYP']: return 'none'
        if t == s.G.undf: return 'undefined'
        if isinstance(t, tuple) and t == s.st.env.get(('g', s.G.rctx.obj('OPT.niltyp'))): return 'nil'
        return str(t)
def real_errors(e): return [x for x in e if not (isinstance(x, int) and x < 0)]
VALUE = {203, 204, 205, 206, 207}                 # the value of the constants is too large (their values are unknown here)
class Judge:
    def __init__(s, ctx, G): s.ctx, s.G = ctx, G
    def parse(s, W, text, proc, arg):
        r = []
        for x, e, u in s.G.parse_(W.st, text, proc, arg): r.append((x, real_errors(e), u))
        if not r: raise Broken('%s: no path' % text)
        return r
    def accepts(s, W, rule, inst, text, want, proc='OPP.StatSeq', arg='stat', where='OPP.StatSeq', what=''):
        """the construct is accepted (without an error) iff want"""
        r = s.parse(W, text, proc, arg); u = W
        ok = [not e and s.done(x, t) for x, e, t in r]
        bad = not all(ok) if want else any(ok)
        s.ctx.check(not bad, rule, inst, s.ctx.where(s.ctx.proc(where)), '%s is %s (%s)%s' % (text, 'rejected' if want else 'accepted', ', '.join('error %s' % y for x, e, t in r for y in e) or 'no error', ': ' + what if what else ''), sample='%s: %s' % (text, 'accepted' if want else 'rejected'))
    def done(s, x, t):
        p = t.env[POS][1]
        if p < len(s.G.toks): return False
        return True
    def typed(s, W, rule, inst, text, want, where='OPB.Op'):
        """the expression is accepted with the type want, or rejected when want is None"""
        r = s.parse(W, text, 'OPP.Expression', 'x'); bad = None; some = False; real = any(z in text for z in ('$r_const', '$lr_const', '/', '$r_var', '$lr_var', '$r_dop', '$lr_dop'))
        for x, e, t in r:
            if want is None:
                if not e: bad = 'accepted'
            elif e:
                if not (real and set(e) <= VALUE): bad = 'rejected (error %s)' % ', '.join(str(y) for y in e)
            else:
                some = True
                ty = s.G.E0.norm(t, s.G.E0.load(t, ('f', ('*', x), s.G.N['typ'])))
                if ty != W.tys.get(want) and W.tname_(ty) != want: bad = 'given the type %s, not %s' % (W.tname_(ty), want)
        if want is not None and not some and bad is None: bad = 'rejected for every value'
        s.ctx.check(bad is None, rule, inst, s.ctx.where(s.ctx.proc(where)), '%s is %s' % (text, bad), sample='%s: %s' % (text, want))
# ---------------------------------------------------------------- expressions
OPS_ = ('+', '-', '*', '/', 'DIV', 'MOD', '&', 'OR', '=', '#', '<', '<=', '>', '>=', 'IN')
REP = {'p1': 0, 'p2': 0}
def operators(ctx, G, part=OPS_):
    J = Judge(ctx, G); W = TW(G); G.use(W.st)
    ks = [k for k in ALL if k not in ('rec2',)] + list(OPEN)
    cs = list(CONST)
    for c in cs:
        if c.startswith('$'): W.op(CONST[c], 'Nconst')
    for k in ks: W.op(k); W.op(k, 'Ndop') if k in BASIC_ else None
    def ops():
        for k in ks: yield W.op(k), k, False
        for k in BASIC_: yield W.op(k, 'Ndop'), k, False
        for c in cs: yield c, CONST[c], True
    L = list(ops())
    for op in part:
        for ta, a, ac in L:
            for tb, b, bc in L:
                if 'dop' in ta and not (b in BASIC_ or bc): continue
                if 'dop' in tb and not (a in BASIC_ or ac): continue
                text = '%s %s %s' % (ta, op, tb); w = binary(op, a, b, ac, bc)
                if ac and bc: continue                                              # constants: the value decides the type
                if op == 'IN' and w and ac and not int(ta) < 8 * SE[b]: w = None
                if w is not None and w in IN and (op in ('DIV', 'MOD') or op == '*') and (ac or bc): pass
                J.typed(W, 'operator ' + op, '%s %s %s' % (ta, op, tb), text, w)
    # constants: accepted exactly when variables of these types are; the type is that of the value
    for op in part:
        for ta in cs:
            for tb in cs:
                w = binary(op, CONST[ta], CONST[tb], True, True)
                if op == 'IN' and w and not int(ta) < 8 * SE[CONST[tb]]: w = None
                r = J.parse(W, '%s %s %s' % (ta, op, tb), 'OPP.Expression', 'x'); bad = None
                for x, e, t in r:
                    if w is None and not e: bad = 'accepted'
                    if w is not None and e and not set(e) <= VALUE: bad = 'rejected (error %s)' % e
                    if w is not None and not e:
                        ty = W.tname_(G.E0.norm(t, G.E0.load(t, ('f', ('*', x), G.N['typ']))))
                        if not (ty == w or ty in IN and w in IN or ty in SE and w in SE): bad = 'given the type %s, not %s' % (ty, w)
                ctx.check(bad is None, 'constant operator ' + op, '%s %s %s' % (ta, op, tb), ctx.where(ctx.proc('OPB.ConstOp')), '%s %s %s is %s' % (ta, op, tb, bad), sample='%s %s %s: %s' % (ta, op, tb, w))
    # names of types and of procedures are no operands
    proc(G, W.st, 'Q', [], res=W.tys['i32'])
    for op in part:
        for n in ('Ti32', 'Q', 'Tb', 'Ts32'):
            for o in ('i32', 'b', 's32', 'c', 'r', 'pt'):
                J.typed(W, 'no operand', '%s %s %s' % (n, op, o), '%s %s %s' % (n, op, W.op(o)), None)
                J.typed(W, 'no operand', '%s %s %s' % (o, op, n), '%s %s %s' % (W.op(o), op, n), None)
def unary(ctx, G):
    J = Judge(ctx, G); W = TW(G); G.use(W.st); P = 'OPB.MOp'; Q = 'OPB.StPar0'
    proc(G, W.st, 'Q', [], res=W.tys['i32'])
    sh = {'i64': 'i32', 'i32': 'i16', 'i16': 'i8', 'i8': 'i8', 'lr': 'r'}; lo = {'i8': 'i16', 'i16': 'i32', 'i32': 'i64', 'i64': 'i64', 'r': 'lr', 'c': 'i32'}
    for k in ALL + OPEN:
        for cls in ('Nvar', 'Ndop', 'Ncall'):
            x = W.op(k, cls)
            J.typed(W, '~', x, '~ ' + x, 'b' if k == 'b' else None, P)
            J.typed(W, 'sign', '- ' + x, '- ' + x, k if k in NUM or k in SE else None, P)
            J.typed(W, 'sign', '+ ' + x, '+ ' + x, k if k in NUM else None, P)
            for f, w in (('ABS', k if k in NUM else None), ('CAP', 'c' if k == 'c' else None), ('ODD', 'b' if k in IN else None), ('ORD', 'i16' if k == 'c' else None), ('CHR', 'c' if k in IN else None),
                         ('ENTIER', 'i32' if k in RE else None), ('SHORT', sh.get(k)), ('LONG', lo.get(k)), ('LEN', 'len' if k in ('s', 't', 's2', 'a') + OPEN else None)):
                if w == 'len':
                    if k in OPEN: w = 'i32'
                    else: w = 'i8'
                J.typed(W, f, '%s(%s)' % (f, x), '%s(%s)' % (f, x), w, Q)
            for f in ('MIN', 'MAX', 'SIZE'): J.typed(W, f, '%s(%s)' % (f, x), '%s(%s)' % (f, x), None, Q)
            J.typed(W, 'ASH', x, 'ASH(%s, %s)' % (x, W.op('i16')), ('i64' if k == 'i64' else 'i32') if k in IN else None, Q)
            J.typed(W, 'ASH', 'by ' + x, 'ASH(%s, %s)' % (W.op('i16'), x), 'i32' if k in IN else None, 'OPB.StPar1')
            J.typed(W, 'LSH', x, 'SYSTEM.LSH(%s, %s)' % (x, W.op('i16')), k if k in IN + ('by', 'c', 's32', 's64') else None, Q)
            J.typed(W, 'LSH', 'by ' + x, 'SYSTEM.LSH(%s, %s)' % (W.op('s32'), x), 's32' if k in IN else None, 'OPB.StPar1')
            J.typed(W, 'ROT', x, 'SYSTEM.ROT(%s, %s)' % (x, W.op('i16')), k if k in IN + ('by', 'c', 's32', 's64') else None, Q)
            J.typed(W, 'ROT', 'by ' + x, 'SYSTEM.ROT(%s, %s)' % (W.op('s32'), x), 's32' if k in IN else None, 'OPB.StPar1')
            J.typed(W, 'BIT', 'at ' + x, 'SYSTEM.BIT(%s, %s)' % (x, W.op('i16')), 'b' if k == 'i64' or k in PTRS or k in ('pp', 'qa', 'qoc') else None, Q)
            J.typed(W, 'BIT', x, 'SYSTEM.BIT(%s, %s)' % (W.op('i64'), x), 'b' if k in IN else None, 'OPB.StPar1')
        for f, ok in (('MIN', k in BASIC_ and k != 'by'), ('MAX', k in BASIC_ and k != 'by'), ('SIZE', True)):
            w = None
            if ok: w = {'b': 'b', 'c': 'c', 'r': 'r', 'lr': 'lr'}.get(k, 'int') if f != 'SIZE' else 'int'
            if k in OPEN: continue
            x = 'T' + k; r = J.parse(W, '%s(%s)' % (f, x), 'OPP.Expression', 'x'); bad = None
            for y, e, t in r:
                ty = None if e else W.tname_(G.E0.norm(t, G.E0.load(t, ('f', ('*', y), G.N['typ']))))
                if (ty is None) != (w is None) or w == 'int' and ty not in IN or w not in (None, 'int') and ty != w: bad = 'rejected (%s)' % e if e else 'given the type %s' % ty
            ctx.check(bad is None, f, '%s(%s)' % (f, x), ctx.where(ctx.proc(Q)), '%s(%s) is %s' % (f, x, bad), sample='%s(%s)' % (f, x))
    for f in ('ABS', 'CAP', 'ODD', 'ORD', 'CHR', 'ENTIER', 'SHORT', 'LONG', 'SYSTEM.ADR'):
        for n in ('Ti32', 'Q', 'Tc', 'Tlr'): J.typed(W, 'no operand', '%s(%s)' % (f, n), '%s(%s)' % (f, n), None, Q)
    for n in ('Ti32', 'Q', 'Tb'):
        for x in ('~ ', '- ', '+ '): J.typed(W, 'no operand', x + n, x + n, None, P)
        for x in ('ASH(%s, $i16_var)', 'ASH($i16_var, %s)', 'SYSTEM.LSH(%s, $i16_var)', 'SYSTEM.LSH($s32_var, %s)', 'SYSTEM.ROT($s32_var, %s)', 'SYSTEM.BIT(%s, $i16_var)', 'SYSTEM.BIT($i64_var, %s)', '{%s}', '{%s .. $i16_var}', '{$i16_var .. %s}'): J.typed(W, 'no operand', x % n, x % n, None, Q)
    # number of parameters
    one = {'ABS': 'i16', 'CAP': 'c', 'ODD': 'i16', 'ORD': 'c', 'CHR': 'i16', 'ENTIER': 'r', 'SHORT': 'i16', 'LONG': 'i16'}
    for f, k in one.items():
        J.typed(W, 'number of parameters', f + '()', f + '()', None, 'OPB.StFct'); J.typed(W, 'number of parameters', f + ' 2', '%s($%s_var, $%s_var)' % (f, k, k), None, 'OPB.StPar1')
    for f, a in (('ASH', ('i16', 'i16', 'i16')), ('SYSTEM.LSH', ('s32', 'i16', 'i16')), ('SYSTEM.ROT', ('s32', 'i16', 'i16')), ('SYSTEM.BIT', ('i64', 'i16', 'i16'))):
        for n in (0, 1, 3): J.typed(W, 'number of parameters', '%s %d' % (f, n), '%s(%s)' % (f, ', '.join(W.op(z) for z in a[:n])), None, 'OPB.StFct')
    # sets
    for k in ALL:
        x = W.op(k); J.typed(W, 'set element', x, '{%s}' % x, 's32' if k in IN else None, 'OPB.SetElem')
        J.typed(W, 'set element', x + ' ..', '{%s .. %s}' % (x, W.op('i16')), 's32' if k in IN else None, 'OPB.SetRange'); J.typed(W, 'set element', '.. ' + x, '{%s .. %s}' % (W.op('i16'), x), 's32' if k in IN else None, 'OPB.SetRange')
# ---------------------------------------------------------------- assignment
def formals(k): return k in OPEN
def elem(k): return {'oc': 'c', 'oi': 'i32', 's': 'c', 't': 'c', 's2': 'c', 'a': 'i32'}.get(k)
def passed(mode, f, a, var, const=False, readonly=False, guard=False):
    """an actual parameter of type a may be passed to a formal parameter of type f"""
    if a == 'none': return False
    if mode == 'VarPar':
        if not var or readonly: return False
        if f in OPEN: return elem(a) == elem(f) and elem(a) is not None
        if f in EXT: return a in EXT and extends(a, f)
        if f == 'pp': return a in PTRS or a in ('pp', 'qa', 'qoc')
        if f == 'by': return a in ('by', 'b', 'c', 'i8')
        return a == f
    if f in OPEN:
        if f == 'oc' and (a.startswith('str') or a == 'c' and const): return True
        return var and elem(a) == elem(f) and elem(a) is not None
    return assignable(f, a, const)
def assignment(ctx, G, part=ALL + OPEN):
    J = Judge(ctx, G); W = TW(G); G.use(W.st)
    for c in CONST:
        if c.startswith('$'): W.op(CONST[c], 'Nconst')
    # results and parameters: procedures of every type
    for k in ALL + OPEN:
        G.variable(W.st, 'x' + k, W.tys[k], 'VarPar' if k in OPEN else 'Var'); G.variable(W.st, 'v' + k, W.tys[k], 'VarPar')
        proc(G, W.st, 'V_' + k, [('VarPar', W.tys[k])]); proc(G, W.st, 'W_' + k, [('Var', W.tys[k])])
    proc(G, W.st, 'Q', [], res=W.tys['i32']); proc(G, W.st, 'N', [])
    src = [(W.op(k, cls), k, False, cls) for k in ALL + OPEN for cls in ('Nvar', 'Nindex', 'Nderef', 'Nfield', 'Nvarpar') + (('Ndop', 'Ncall') if k in BASIC_ + tuple(PTRS) + ('pt',) else ())] + [(c, CONST[c], True, 'Nconst') for c in CONST]
    for t in part:
        for x, k, c, cls in src:
            if cls in ('Nindex', 'Nderef', 'Nfield', 'Nvarpar') and not (k in EXT or k in OPEN or t == k or k in PTRS): continue
            var = cls in ('Nvar', 'Nindex', 'Nderef', 'Nfield', 'Nvarpar'); real = x.startswith('$') and c
            if not (real and assignable(t, k, c)):
                J.accepts(W, 'assignment', '%s := %s' % (t, x), 'x%s := %s' % (t, x), assignable(t, k, c), where='OPB.CheckAssign')
            for m, n in (('VarPar', 'V_'), ('Var', 'W_')):
                w = passed(m, t, k, var, c)
                if real and w: continue
                J.accepts(W, 'parameter', '%s %s' % (n + t, x), '%s%s(%s)' % (n, t, x), w, where='OPB.Param')
        for cls in ('Nvar', 'Nindex', 'Nfield', 'Nvarpar'):
            J.accepts(W, 'read-only', 'V_%s %s' % (t, cls), 'V_%s(%s)' % (t, W.op(t, cls, True)), False, where='OPB.Param')
        for n in ('T' + t, 'Q', 'N', 'T' + 'i32'):
            ok = n == 'N' and t in ('pt', 'ptb')
            J.accepts(W, 'assignment', '%s := %s' % (t, n), 'x%s := %s' % (t, n), ok, where='OPB.CheckAssign')
            J.accepts(W, 'parameter', 'W_%s(%s)' % (t, n), 'W_%s(%s)' % (t, n), ok, where='OPB.Param')
            J.accepts(W, 'parameter', 'V_%s(%s)' % (t, n), 'V_%s(%s)' % (t, n), False, where='OPB.Param')
    for t in part:
        if t in CHARS or t in OPEN or t == 'c':
            for n in (CHARS.get(t, 1) - 1, CHARS.get(t, 1), CHARS.get(t, 1) + 1):
                x = '"%s"' % ('x' * n); k = 'str%d' % n
                if n == 1: continue
                J.accepts(W, 'assignment', '%s := string of %d characters' % (t, n), 'x%s := %s' % (t, x), assignable(t, k, True), where='OPB.CheckAssign'); J.accepts(W, 'parameter', '%s, string of %d characters' % (t, n), 'W_%s(%s)' % (t, x), passed('Var', t, k, False, True), where='OPB.Param')
    if part[-1] != (ALL + OPEN)[-1]: return
    # number of parameters
    for t in ('i32', 'r', 'rec', 's', 'oc', 'p'):
        for n, a in (('W_', '$%s_var' % t), ('V_', '$%s_var' % t)):
            J.accepts(W, 'number of parameters', n + t, n + t, False, where='OPP.StatSeq'); J.accepts(W, 'number of parameters', n + t + '()', n + t + '()', False, where='OPP.ActualParameters')
            J.accepts(W, 'number of parameters', n + t + ' 2', '%s%s(%s, %s)' % (n, t, a, a), False, where='OPP.ActualParameters'); J.accepts(W, 'number of parameters', n + t + ' 1', '%s%s(%s)' % (n, t, a), True, where='OPP.ActualParameters')
    J.accepts(W, 'number of parameters', 'N', 'N', True); J.accepts(W, 'number of parameters', 'N()', 'N()', True); J.accepts(W, 'number of parameters', 'N 1', 'N(1)', False, where='OPP.ActualParameters')
    # procedures and functions
    J.accepts(W, 'function', 'Q', 'Q', False); J.accepts(W, 'function', 'Q()', 'Q()', False); J.accepts(W, 'function', 'x := Q()', 'xi32 := Q()', True)
    J.accepts(W, 'function', 'x := N()', 'xi32 := N()', False); J.accepts(W, 'function', 'x := Q() + 1', 'xi64 := Q() + 1', True); J.accepts(W, 'function', 'x := N() + 1', 'xi64 := N() + 1', False)
    for k in ALL + OPEN: 
        if k not in ('pt', 'ptb', 'pti'):
            J.accepts(W, 'function', 'call of ' + k, 'x%s' % k, False, where='OPB.PrepCall')
    for n in ('Ti32', 'Trec', 'Tpt'): J.accepts(W, 'function', 'call of ' + n, n, False, where='OPB.PrepCall'); J.accepts(W, 'assignment', n + ' :=', '%s := 1' % n, False, where='OPB.Assign')
    J.accepts(W, 'function', 'xpt', 'xpt', True); J.accepts(W, 'function', 'xpti', 'xpti', False); J.accepts(W, 'function', 'xpti(1)', 'xpti(1)', True); J.accepts(W, 'function', 'xpti(TRUE)', 'xpti(TRUE)', False); J.accepts(W, 'function', 'xpt(1)', 'xpt(1)', False)
    # targets that are no variables
    k = G.rec(W.st, 'KC', G.K, intval=C(7), intval2=C(0), setval=C(frozenset()), ext=NIL)
    G.idents['CC'] = G.rec(W.st, 'obj_CC', G.O, name=C('CC'), mode=C(G.c('Con')), typ=W.tys['i32'], conval=k, mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL, left=NIL, right=NIL, scope=NIL)
    for t, e in (('CC', '1'), ('Q', '1'), ('N', 'N'), ('TRUE', 'TRUE'), ('ABS', '1')): J.accepts(W, 'no variable', t + ' :=', '%s := %s' % (t, e), False, where='OPB.Assign')
# ---------------------------------------------------------------- procedure types
def procedures(ctx, G):
    """a procedure, or a variable of the same procedure type, is assigned only when parameters and result agree"""
    J = Judge(ctx, G); w = 'OPB.CheckParameters'
    PS = ('i16', 'i32', 'rec', 'rec1', 'p', 'oc', 'oi', 's', 's2', 'pt', 'pti')
    SIG = [((), None), ((), 'i32'), ((), 'i16'), ((), 'p')] + [(((m, k),), None) for m in ('Var', 'VarPar') for k in PS] + [((('Var', 'i32'), ('Var', 'i16')), None), ((('Var', 'i32'), ('VarPar', 'i16')), None), ((('Var', 'i16'), ('Var', 'i32')), None), ((('Var', 'i32'), ('Var', 'i16')), 'i32')]
    W = TW(G)
    for i, (ps, res) in enumerate(SIG):
        o, fs = proc(G, W.st, 'F%d' % i, [(m, W.tys[k]) for m, k in ps], res=W.tys[res] if res else None)
        o2, fs2 = proc(G, W.st, 'H%d' % i, [(m, W.tys[k]) for m, k in ps], res=W.tys[res] if res else None)
        v = G.proct(W.st, 'TF%d' % i); G.setf(W.st, v, G.S, 'BaseTyp', W.tys[res] if res else G.types['NOTYP']); G.setf(W.st, v, G.S, 'link', fs2[0] if fs2 else NIL); W.tys['tf%d' % i] = v
        G.variable(W.st, 'f%d' % i, v)
        v2 = G.proct(W.st, 'UF%d' % i); G.setf(W.st, v2, G.S, 'BaseTyp', W.tys[res] if res else G.types['NOTYP']); G.setf(W.st, v2, G.S, 'link', fs2[0] if fs2 else NIL); W.tys['uf%d' % i] = v2
        G.variable(W.st, 'g%d' % i, v2); G.variable(W.st, 'h%d' % i, v)
        for x in (v, v2):
            for f in ('n', 'extlev', 'mno'):
                if ('f', ('*', x), G.S[f]) not in W.st.env: G.setf(W.st, x, G.S, f, C(0))
    G.use(W.st)
    def same(a, b):
        if (a[1] or '') != (b[1] or '') or len(a[0]) != len(b[0]): return False
        return all(m == n and k == l for (m, k), (n, l) in zip(a[0], b[0]))
    for i, a in enumerate(SIG):
        for j, b in enumerate(SIG):
            J.accepts(W, 'procedure type', 'f%s := F%s' % (a, b), 'f%d := F%d' % (i, j), same(a, b), where=w)
            J.accepts(W, 'procedure type', 'f%s := variable of another type %s' % (a, b), 'f%d := g%d' % (i, j), False, where='OPB.CheckAssign')
        J.accepts(W, 'procedure type', 'f%s := variable of its type' % (a,), 'f%d := h%d' % (i, i), True, where='OPB.CheckAssign')
    # local, standard and code procedures
    o, fs = proc(G, W.st, 'L', [], lev=1); J.accepts(W, 'procedure type', 'local procedure', 'f0 := L', False, where='OPB.CheckProc')
    o, fs = proc(G, W.st, 'L2', [], lev=2); J.accepts(W, 'procedure type', 'local procedure of a local one', 'f0 := L2', False, where='OPB.CheckProc')
    o, fs = proc(G, W.st, 'X', [], mode='XProc'); J.accepts(W, 'procedure type', 'exported procedure', 'f0 := X', True, where='OPB.CheckProc')
    o, fs = proc(G, W.st, 'X2', [], mode='XProc', lev=-1); J.accepts(W, 'procedure type', 'imported procedure', 'f0 := X2', True, where='OPB.CheckProc')
    o, fs = proc(G, W.st, 'CP', [], mode='CProc'); J.accepts(W, 'procedure type', 'code procedure', 'f0 := CP', False, where='OPB.CheckProc')
    for n in ('ABS', 'NEW', 'HALT', 'ODD'): J.accepts(W, 'procedure type', n, 'f0 := ' + n, False, where='OPB.CheckProc')
    # parameters that are procedures
    proc(G, W.st, 'PP', [('Var', W.tys['pti'])]); proc(G, W.st, 'PV', [('VarPar', W.tys['pti'])])
    for i, a in enumerate(SIG):
        J.accepts(W, 'procedure type', 'PP(F%s)' % (a,), 'PP(F%d)' % i, same(a, ((('Var', 'i32'),), None)), where=w); J.accepts(W, 'procedure type', 'PV(F%s)' % (a,), 'PV(F%d)' % i, False, where='OPB.Param')
        J.accepts(W, 'procedure type', 'PV(f%s)' % (a,), 'PV(f%d)' % i, False, where='OPB.Param')
# ---------------------------------------------------------------- statements
def statements(ctx, G):
    J = Judge(ctx, G); W = TW(G); G.use(W.st); S_ = 'OPP.StatSeq'; P0 = 'OPB.StPar0'; P1 = 'OPB.StPar1'
    for k in ALL + OPEN: G.variable(W.st, 'x' + k, W.tys[k], 'VarPar' if k in OPEN else 'Var')
    proc(G, W.st, 'Q', [], res=W.tys['i32'])
    for c in CONST:
        if c.startswith('$'): W.op(CONST[c], 'Nconst')
    vals = [(W.op(k), k, False) for k in ALL + OPEN] + [(W.op(k, 'Ndop'), k, False) for k in BASIC_] + [(c, CONST[c], True) for c in CONST] + [(n, 'none', False) for n in ('Tb', 'Ti32', 'Q')]
    b = W.op('b'); i16 = W.op('i16')
    for x, k, c in vals:
        isb = k == 'b'; acc = lambda inst, text, w, where=S_: J.accepts(W, inst, x, text, w, where=where)
        acc('IF', 'IF %s THEN xi16 := 1 END' % x, isb); acc('ELSIF', 'IF %s THEN xi16 := 1 ELSIF %s THEN xi16 := 2 END' % (b, x), isb)
        acc('WHILE', 'WHILE %s DO xi16 := 1 END' % x, isb); acc('REPEAT', 'REPEAT xi16 := 1 UNTIL %s' % x, isb)
        if not c:
            acc('ASSERT', 'ASSERT(%s)' % x, isb, P0); acc('ASSERT', 'ASSERT(%s, 5)' % x, isb, P0)
            acc('CASE', 'CASE %s OF 1: xi16 := 1 ELSE END' % x, k in IN); acc('CASE', "CASE %s OF 'a': xi16 := 1 ELSE END" % x, k == 'c')
        for t in IN:
            if not c or k not in RE:
                acc('FOR', 'FOR x%s := %s TO 9 DO END' % (t, x), assignable(t, k, c)); acc('FOR', 'FOR x%s := 1 TO %s DO END' % (t, x), assignable(t, k, c))
        if c: acc('FOR', 'FOR xi16 := 1 TO 9 BY %s DO END' % x, k in ('i8', 'i16'), S_)
        else: acc('FOR', 'FOR xi16 := 1 TO 9 BY %s DO END' % x, False)
        acc('HALT', 'HALT(%s)' % x, c and x == '5', P0)
        # INC, INCL, NEW, COPY, PUT: the second operand
        for t in IN:
            for f in ('INC', 'DEC'): acc(f, '%s(x%s, %s)' % (f, t, x), k in IN and (NUM[k] <= NUM[t]), P1)
        for f in ('INCL', 'EXCL'):
            acc(f, '%s(xs32, %s)' % (f, x), k in IN and (not c or x == '5'), P1); acc(f, '%s(xs64, %s)' % (f, x), k in IN and (not c or x == '5'), P1)
        acc('NEW', 'NEW(xqoc, %s)' % x, k in IN and not (c and x == '5000000000'), P1)
        acc('COPY', 'COPY(%s, xs)' % x, ischars(k, c), P0); acc('COPY', 'COPY("a string", %s)' % x, k in CHARS or k == 'oc', P1)
        big = k in ('i64', 'pp', 'qa', 'qoc') or k in PTRS or c and k in IN
        for f in ('GET', 'PUT'): acc(f, 'SYSTEM.%s(%s, xi16)' % (f, x), big, P0)
        basic = k in BASIC_ or k in PTRS or k in ('pp', 'qa', 'qoc', 'pt', 'ptb', 'pti')
        acc('PUT', 'SYSTEM.PUT(%s, %s)' % (W.op('i64'), x), basic, P1)
        acc('GET', 'SYSTEM.GET(%s, %s)' % (W.op('i64'), x), basic and not c and not x.endswith('dop'), P1)
        acc('MOVE', 'SYSTEM.MOVE(%s, %s, 5)' % (x, W.op('i64')), big, P0); acc('MOVE', 'SYSTEM.MOVE(%s, %s, 5)' % (W.op('i64'), x), big, P1); acc('MOVE', 'SYSTEM.MOVE(%s, %s, %s)' % (W.op('i64'), W.op('i64'), x), k in IN, 'OPB.StParN')
        acc('SYSTEM.NEW', 'SYSTEM.NEW(xp, %s)' % x, k in IN, P1)
    # the variable operands of the predeclared procedures
    tgt = [('$%s_%s' % (k, cls[1:].lower()), k, cls) for k in ALL + OPEN for cls in ('Nvar', 'Nindex', 'Nvarpar', 'Ndop', 'Ncall') if W.op(k, cls)]
    tgt += [(c, CONST[c], 'Nconst') for c in CONST] + [(n, 'none', '') for n in ('Ti32', 'Tp', 'Q')]
    for x, k, cls in tgt:
        var = cls in ('Nvar', 'Nindex', 'Nvarpar')
        for f in ('INC', 'DEC'): J.accepts(W, f, x, '%s(%s)' % (f, x), var and k in IN, where=P0)
        for f in ('INCL', 'EXCL'): J.accepts(W, f, x + ' as set', '%s(%s, 3)' % (f, x), var and k in SE, where=P0)
        J.accepts(W, 'NEW', x + ' as pointer', 'NEW(%s)' % x, var and (k in PTRS or k == 'qa'), where=P0)
        J.accepts(W, 'NEW', x + ' with length', 'NEW(%s, 5)' % x, var and k == 'qoc', where=P0)
        J.accepts(W, 'COPY', x + ' as target', 'COPY("abc", %s)' % x, var and ischars(k), where=P1)
        J.accepts(W, 'SYSTEM.NEW', x + ' as pointer', 'SYSTEM.NEW(%s, 5)' % x, var and (k in PTRS or k in ('pp', 'qa', 'qoc')), where=P0)
    # read-only variables
    for cls in ('Nvar', 'Nindex', 'Nfield'):
        for k in IN:
            x = W.op(k, cls, True)
            for f in ('INC(%s)', 'DEC(%s)', 'INC(%s, 2)', 'DEC(%s, xi8)', 'SYSTEM.GET(xi64, %s)'): J.accepts(W, 'read-only', f % x, f % x, False, where=P0)
        for k in ALL:
            x = W.op(k, cls, True)
            if k in BASIC_ or k in PTRS or k in ('pp', 'qa', 'qoc', 'pt'): J.accepts(W, 'read-only', 'GET ' + x, 'SYSTEM.GET(xi64, %s)' % x, False, where=P1)
            if k in PTRS or k in ('qa',): J.accepts(W, 'read-only', 'NEW ' + x, 'NEW(%s)' % x, False, where=P0)
            if k in PTRS or k in ('pp', 'qa', 'qoc'): J.accepts(W, 'read-only', 'SYSTEM.NEW ' + x, 'SYSTEM.NEW(%s, 8)' % x, False, where=P0)
            if k in CHARS: J.accepts(W, 'read-only', 'COPY ' + x, 'COPY("a", %s)' % x, False, where=P1); J.accepts(W, 'read-only', 'COPY from ' + x, 'COPY(%s, xs)' % x, True, where=P1)
            if k in SE:
                for f in ('INCL(%s, 1)', 'EXCL(%s, xi16)'): J.accepts(W, 'read-only', f % x, f % x, False, where=P0)
        x = W.op('qoc', cls, True); J.accepts(W, 'read-only', 'NEW n ' + x, 'NEW(%s, 4)' % x, False, where=P0)
    # number of parameters of predeclared procedures
    good = {'INC': ('xi16', '1'), 'DEC': ('xi16', '1'), 'INCL': ('xs32', '1'), 'EXCL': ('xs32', '1'), 'COPY': ('xs', 'xs2'), 'ASSERT': ('xb', '1'), 'HALT': ('1',), 'SYSTEM.GET': ('xi64', 'xi16'), 'SYSTEM.PUT': ('xi64', 'xi16'), 'SYSTEM.MOVE': ('xi64', 'xi64', '4'), 'SYSTEM.NEW': ('xp', '8'), 'SYSTEM.GETREG': ('1', 'xi16'), 'SYSTEM.PUTREG': ('1', 'xi16')}
    for f, a in good.items():
        for n in range(len(a) + 2):
            w = (n == len(a) or f in ('INC', 'DEC', 'ASSERT') and n == 1) and 'REG' not in f      # there are no register numbers (OPM.MaxRegNr = -1)
            t = '%s(%s)' % (f, ', '.join((a + ('1',))[:n])); J.accepts(W, 'number of parameters', t, t, w, where='OPB.StFct')
        J.accepts(W, 'number of parameters', f, f, False, where='OPP.StandProcCall')
    for t, w in (('NEW()', 0), ('NEW(xp)', 1), ('NEW(xp, 1)', 0), ('NEW(xqoc)', 0), ('NEW(xqoc, 1)', 1), ('NEW(xqoc, 1, 1)', 0), ('NEW(xqa, 1)', 0)): J.accepts(W, 'number of parameters', t, t, bool(w), where='OPB.StFct')
    for f, a in (('ABS', 'xi16'), ('ODD', 'xi16'), ('CHR', 'xi16'), ('LEN', 'xs'), ('ASH', 'xi16, 1'), ('SHORT', 'xi32'), ('SYSTEM.ADR', 'xi16')): J.accepts(W, 'function', f + ' as statement', '%s(%s)' % (f, a), False, where=S_)
    for f, a in good.items(): J.accepts(W, 'function', f + ' in an expression', 'xi64 := %s(%s)' % (f, ', '.join(a)), False, where='OPB.CheckAssign')
    # labels, EXIT, RETURN
    for e, k in [('$%s_var' % k, k) for k in IN + ('c',)]:
        for l, lk in ((c, CONST[c]) for c in CONST if not c.startswith('$')):
            J.accepts(W, 'CASE', '%s of %s' % (e, l), 'CASE %s OF %s: xi16 := 1 ELSE END' % (e, l), lk == k == 'c' or lk in IN and k in IN and NUM[lk] <= NUM[k], where='OPP.CaseLabelList')
            J.accepts(W, 'CASE', '%s of .. %s' % (e, l), 'CASE %s OF %s .. %s: xi16 := 1 ELSE END' % (e, l, l), lk == k == 'c' or lk in IN and k in IN and NUM[lk] <= NUM[k], where='OPP.CaseLabelList')
        J.accepts(W, 'CASE', '%s of a variable' % e, 'CASE %s OF %s: xi16 := 1 ELSE END' % (e, W.op(k, 'Nindex')), False, where='OPP.ConstExpression')
    for t, w in (("1, 1", 0), ('1: | 1', 0), ('1 .. 3: | 2', 0), ('1 .. 3, 3 .. 5', 0), ('5: | 4 .. 6', 0), ('4 .. 6: | 1 .. 3', 1), ('1, 2: | 3, 4', 1), ('3 .. 1', 0), ('1 .. 3, 7: | 4 .. 6: | 0, 8', 1), ('7: | 1 .. 9', 0), ('1 .. 9: | 9', 0), ('0: | 9: | 5: | 5', 0), ("1 .. 'a'", 0), ("1 .. TRUE", 0)):
        J.accepts(W, 'CASE', 'labels ' + t, 'CASE %s OF %s: xi16 := 1 ELSE END' % (i16, t), bool(w), where='OPP.CaseLabelList')
    for t, w in (('EXIT', 0), ('LOOP EXIT END', 1), ('WHILE xb DO EXIT END', 0), ('LOOP WHILE xb DO EXIT END END', 1), ('LOOP END; EXIT', 0), ('LOOP LOOP END; EXIT END', 1), ('REPEAT EXIT UNTIL xb', 0), ('FOR xi16 := 1 TO 5 DO EXIT END', 0)):
        J.accepts(W, 'EXIT', t, t, bool(w), where=S_)
    for k in BASIC_ + tuple(PTRS) + ('pt', 'pti', 'pp', 'qa', 'qoc', None):
        G.setf(W.st, W.pr, G.O, 'typ', W.tys[k] if k else G.types['NOTYP'])
        J.accepts(W, 'RETURN', 'nothing from %s' % k, 'RETURN', k is None, where='OPB.Return')
        for x, s, c in vals:
            if c and x.startswith('$'): continue
            J.accepts(W, 'RETURN', '%s from %s' % (x, k), 'RETURN %s' % x, k is not None and assignable(k, s, c), where='OPB.Return')
# ---------------------------------------------------------------- designators
def fields(W):
    G = W.G; st = W.st
    for nm, k in (('f', 'rec'), ('g', 'rec1')):
        o = G.rec(st, 'fl_' + nm, G.O, name=C(nm), mode=C(G.c('Fld')), typ=W.tys['i32'], mnolev=C(0), leaf=C(True), vis=C(0), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL)
        for z in EXT:
            if extends(z, k): G.flds[(W.tys[z], nm)] = o
def designators(ctx, G):
    J = Judge(ctx, G); W = TW(G); G.use(W.st)
    st = W.st
    fields(W)
    ro = G.rec(st, 'fl_ro', G.O, name=C('ro'), mode=C(G.c('Fld')), typ=W.tys['i32'], mnolev=C(-1), leaf=C(True), vis=C(G.c('externalR')), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL); G.flds[(W.tys['rec'], 'ro')] = ro
    rw = G.rec(st, 'fl_rw', G.O, name=C('rw'), mode=C(G.c('Fld')), typ=W.tys['i32'], mnolev=C(-1), leaf=C(True), vis=C(G.c('external')), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL); G.flds[(W.tys['rec'], 'rw')] = rw
    own = G.rec(st, 'fl_own', G.O, name=C('own'), mode=C(G.c('Fld')), typ=W.tys['i32'], mnolev=C(0), leaf=C(True), vis=C(G.c('externalR')), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL); G.flds[(W.tys['rec'], 'own')] = own
    roa = G.rec(st, 'fl_roa', G.O, name=C('roa'), mode=C(G.c('Fld')), typ=W.tys['a'], mnolev=C(-1), leaf=C(True), vis=C(G.c('externalR')), adr=C(0), link=NIL, left=NIL, right=NIL, conval=NIL, scope=NIL); G.flds[(W.tys['rec'], 'roa')] = roa
    for k in ALL + OPEN: G.variable(st, 'x' + k, W.tys[k], 'VarPar' if k in OPEN else 'Var'); G.variable(st, 'v' + k, W.tys[k], 'VarPar')
    for k in ALL + OPEN:
        x = 'x' + k; el = elem({'qa': 'a', 'qoc': 'oc'}.get(k, k))
        J.typed(W, 'index', x, '%s[%s]' % (x, W.op('i16')), el, 'OPB.Index')
        J.typed(W, 'dereference', x, x + '^', dict(PTRS, qa='a', qoc='oc').get(k), 'OPB.DeRef')
        r = PTRS.get(k, k if k in EXT else None)
        J.typed(W, 'field', x + '.f', x + '.f', 'i32' if r and extends(r, 'rec') else None, 'OPB.Field')
        J.typed(W, 'field', x + '.g', x + '.g', 'i32' if r and extends(r, 'rec1') else None, 'OPB.Field')
        J.typed(W, 'index', 'by ' + x, 'xa[%s]' % W.op(k), 'i32' if k in IN else None, 'OPB.Index')
    for c, k in CONST.items():
        if not c.startswith('$'): J.typed(W, 'index', 'by ' + c, 'xa[%s]' % c, 'i32' if k in IN and int(c) < 10 else None, 'OPB.Index'); J.typed(W, 'index', 'by ' + c, 'xoi[%s]' % c, 'i32' if k in IN else None, 'OPB.Index')
    J.typed(W, 'index', 'negative', 'xa[-1]', None, 'OPB.Index'); J.typed(W, 'index', 'last', 'xa[9]', 'i32', 'OPB.Index'); J.typed(W, 'index', 'first beyond', 'xa[10]', None, 'OPB.Index'); J.typed(W, 'index', 'negative', 'xoi[-1]', None, 'OPB.Index')
    for n in ('Ta', 'Ts'): J.typed(W, 'index', n, n + '[1]', None, 'OPB.Index')
    for n in ('Tp', 'Tqa'): J.typed(W, 'dereference', n, n + '^', None, 'OPB.DeRef')
    for n in ('Trec', 'Tp'): J.typed(W, 'field', n, n + '.f', None, 'OPB.Field')
    # type tests and guards
    for v in ('x', 'v'):
        for a in ALL:
            for t in tuple(PTRS) + tuple(EXT) + ('i32', 's', 'qa', 'pt'):
                if a == 'pp': ok = t in PTRS
                elif a in PTRS: ok = t in PTRS and extends(PTRS[t], PTRS[a])
                elif a in EXT: ok = v == 'v' and t in EXT and extends(t, a)
                else: ok = False
                J.typed(W, 'type test', '%s%s IS %s' % (v, a, t), '%s%s IS T%s' % (v, a, t), 'b' if ok else None, 'OPB.TypTest')
                if a in ('pt', 'ptb', 'pti'): continue
                J.typed(W, 'type guard', '%s%s(%s)' % (v, a, t), '%s%s(T%s)' % (v, a, t), t if ok else None, 'OPB.TypTest')
                J.accepts(W, 'WITH', '%s%s: %s' % (v, a, t), 'WITH %s%s: T%s DO xi16 := 1 END' % (v, a, t), ok and not (v == 'v' and a not in EXT), where='OPP.StatSeq')
    # what is passed on: read-only selectors
    def ro_(name, k, vis, lev):
        o = G.variable(st, name, W.tys[k], 'Var', lev=lev, vis=G.c(vis)); return o
    W.st = st
    sel = (('i32', '', 'i32'), ('a', '[xi16]', 'i32'), ('rec', '.f', 'i32'), ('rec1', '.g', 'i32'), ('rec', '.rw', 'i32'), ('p', '', 'p'), ('s', '', 's'), ('rec', '', 'rec'))
    proc(G, st, 'V_i32', [('VarPar', W.tys['i32'])]); proc(G, st, 'V_p', [('VarPar', W.tys['p'])]); proc(G, st, 'V_s', [('VarPar', W.tys['s'])]); proc(G, st, 'V_rec', [('VarPar', W.tys['rec'])])
    val = {'i32': '1', 'p': 'xp', 's': 'xs', 'rec': 'xrec'}
    # a guarded pointer is an expression; inside WITH the variable itself has the type of the guard
    for z in ('rec1', 'rec2', 'p1', 'p2'): proc(G, st, 'V_' + z, [('VarPar', W.tys[z])])
    for a, t in (('p', 'p1'), ('p', 'p2'), ('p1', 'p2'), ('pp', 'p')):
        for v in ('x', 'v'):
            J.accepts(W, 'guarded pointer as VAR parameter', '%s%s(%s)' % (v, a, t), 'V_%s(%s%s(T%s))' % (t, v, a, t), False, where='OPB.Param')
            if v == 'x': J.accepts(W, 'guarded pointer as VAR parameter', 'WITH %s%s: %s' % (v, a, t), 'WITH %s%s: T%s DO V_%s(%s%s) END' % (v, a, t, t, v, a), True, where='OPB.Param')
    for a, t in (('rec', 'rec1'), ('rec', 'rec2'), ('rec1', 'rec2')):
        J.accepts(W, 'guarded record as VAR parameter', 'v%s(%s)' % (a, t), 'V_%s(v%s(T%s))' % (t, a, t), True, where='OPB.Param'); J.accepts(W, 'guarded record as VAR parameter', 'V_%s v%s(%s)' % (a, a, t), 'V_%s(v%s(T%s))' % (a, a, t), True, where='OPB.Param')
        J.accepts(W, 'guarded record as VAR parameter', 'WITH v%s: %s' % (a, t), 'WITH v%s: T%s DO V_%s(v%s) END' % (a, t, t, a), True, where='OPB.Param')
    for vis, lev, ok in (('externalR', -1, False), ('external', -1, True), ('externalR', 0, True), ('external', 0, True), ('internal', 0, True)):
        for k, s, t in sel:
            n = 'm%d%s%s' % (lev + 1, vis, k)
            if n not in G.idents: ro_(n, k, vis, lev)
            d = n + s; w = '%s%s, %s' % (k, s, '%s, %s' % (vis, 'imported' if lev < 0 else 'own'))
            J.accepts(W, 'read-only', w + ': assignment', '%s := %s' % (d, val[t]), ok, where='OPB.Assign')
            J.accepts(W, 'read-only', w + ': parameter', 'V_%s(%s)' % (t, d), ok, where='OPB.Param')
            J.accepts(W, 'read-only', w + ': read', 'x%s := %s' % (t, d), True, where='OPB.Assign')
            if t == 'i32':
                for f in ('INC(%s)', 'SYSTEM.GET(xi64, %s)'): J.accepts(W, 'read-only', w + ': ' + f, f % d, ok, where='OPB.StPar0')
                if s == '': J.accepts(W, 'read-only', w + ': FOR', 'FOR %s := 1 TO 5 DO END' % d, ok, where='OPP.StatSeq')
            if t == 'p':
                J.accepts(W, 'read-only', w + ': NEW', 'NEW(%s)' % d, ok, where='OPB.StPar0'); J.accepts(W, 'read-only', w + ': guard', '%s(Tp1) := xp1' % d, ok, where='OPB.Assign')
                J.accepts(W, 'read-only', w + ': what it points to', '%s.f := 1' % d, True, where='OPB.Assign'); J.accepts(W, 'read-only', w + ': what it points to', 'V_rec(%s^)' % d, True, where='OPB.Param')
            if t == 's': J.accepts(W, 'read-only', w + ': COPY', 'COPY("a", %s)' % d, ok, where='OPB.StPar1'); J.accepts(W, 'read-only', w + ': empty string', '%s := ""' % d, ok, where='OPB.Assign')
    for r in ('xrec', 'xp', 'vrec', 'vp1'):
        for f, ok in (('ro', False), ('rw', True), ('own', True), ('roa[xi16]', False)):
            if r == 'vp1': continue
            J.accepts(W, 'read-only', '%s.%s' % (r, f), '%s.%s := 1' % (r, f), ok, where='OPB.Field'); J.accepts(W, 'read-only', '%s.%s as parameter' % (r, f), 'V_i32(%s.%s)' % (r, f), ok, where='OPB.Field'); J.accepts(W, 'read-only', 'INC(%s.%s)' % (r, f), 'INC(%s.%s)' % (r, f), ok, where='OPB.Field')
            J.accepts(W, 'read-only', 'read %s.%s' % (r, f), 'xi32 := %s.%s' % (r, f), True, where='OPB.Field')
    # receivers
    for rk, pm in (('rec', 'VarPar'), ('p', 'Var')):
        nm = 'meth_' + rk
        o, fs = proc(G, st, nm, [(pm, W.tys[rk])], mode='TProc'); G.setf(st, o, G.O, 'adr', C(7))
        for z in EXT:
            if extends(z, 'rec'): G.flds[(W.tys[z], nm)] = o
        for vis, lev, ok in (('externalR', -1, False), ('external', -1, True), ('externalR', 0, True)):
            n = 'm%d%s' % (lev + 1, vis)
            J.accepts(W, 'read-only', '%s rec.%s' % (n, nm), '%srec.%s' % (n, nm), ok and rk == 'rec', where='OPB.CheckReceiver')
            J.accepts(W, 'read-only', '%s p.%s' % (n, nm), '%sp.%s' % (n, nm), True, where='OPB.CheckReceiver')
        for x, ok in (('xrec', rk == 'rec'), ('vrec1', rk == 'rec'), ('xp', True), ('xp2', True), ('xp^', True), ('xrecx', False), ('xpx', False)): J.accepts(W, 'receiver', '%s.%s' % (x, nm), '%s.%s' % (x, nm), ok, where='OPB.CheckReceiver')
        J.accepts(W, 'receiver', nm + ' as variable', 'xpt := xp.%s' % nm, False, where='OPB.CheckAssign'); J.accepts(W, 'receiver', nm + ' assigned', 'xp.%s := 1' % nm, False, where='OPB.Assign')
# ---------------------------------------------------------------- arrays of several dimensions, SYSTEM.VAL, calls that are no variables
def arrays(ctx, G):
    """actual parameters for open array parameters agree in every dimension and in the element type; LEN and NEW know the dimensions"""
    J = Judge(ctx, G); W = TW(G); st = W.st; T = W.tys
    E_ = {'i16': ('e', 'i16'), 'i32': ('e', 'i32'), 'p': ('e', 'p'), 'p1': ('e', 'p1'), 'px': ('e', 'px'), 'c': ('e', 'c'), 'by': ('e', 'by'), 'i8': ('e', 'i8'), 'rec': ('e', 'rec'), 'rec1': ('e', 'rec1')}
    ar = {}                                                         # name -> (dimensions outermost first: n or None, element)
    def mk(name, dims, el):
        v = T[el]
        for i, d in reversed(list(enumerate(dims))):
            if d is None: v = G.openarr(st, 'M_%s%d' % (name, i), v)
            else: v = G.array(st, 'M_%s%d' % (name, i), v, d, named=False); G.setf(st, v, G.S, 'size', C(8 * d))
            for f, z in (('extlev', C(0)), ('mno', C(0)), ('link', NIL), ('pvused', C(False))):
                if ('f', ('*', v), G.S[f]) not in st.env: G.setf(st, v, G.S, f, z)
        T['m' + name] = v; ar[name] = (dims, el)
    for el in ('i16', 'i32', 'p', 'p1', 'px', 'c', 'by', 'i8', 'rec', 'rec1'):
        mk('F' + el, (10,), el); mk('O' + el, (None,), el)
    for el in ('i16', 'i32', 'p', 'p1'):
        mk('FF' + el, (3, 4), el); mk('OF' + el, (None, 4), el); mk('OO' + el, (None, None), el)
    mk('FFFi16', (2, 3, 4), 'i16'); mk('OOOi16', (None, None, None), 'i16')
    for n, (dims, el) in ar.items():
        G.variable(st, 'w' + n, T['m' + n], 'VarPar' if dims[0] is None else 'Var')
        if None in dims: proc(G, st, 'V_' + n, [('VarPar', T['m' + n])]); proc(G, st, 'W_' + n, [('Var', T['m' + n])])
        G.setf(st, G.pointer(st, 'MP' + n, T['m' + n]), G.S, 'link', NIL); T['mp' + n] = G.types['MP' + n]; G.variable(st, 'q' + n, T['mp' + n])
    for k in ALL: G.variable(st, 'x' + k, T[k], 'Var')
    G.use(st)
    def fits(f, a, var):
        """actual array a for the formal open array f (dims, element)"""
        (fd, fe), (ad, ae) = f, a
        if fd[0] is not None: return fd == ad and fe == ae and False
        if var and len(fd) == 1 and fe == 'by': return True
        if not ad: return False
        fd, ad = fd[1:], ad[1:]
        if fd and fd[0] is None: return fits((fd, fe), (ad, ae), var)
        if fd or ad: return None if (fd == ad and fe == ae) else False        # the same array type only when it is the same type, not only the same shape
        if fe == ae: return True
        return not var and fe in PTRS and ae in PTRS and extends(PTRS[ae], PTRS[fe])
    for f, (fd, fe) in ar.items():
        if fd[0] is not None: continue
        for a, (ad, ae) in ar.items():
            for var, n in ((True, 'V_'), (False, 'W_')):
                for x in ('w' + a, 'q%s^' % a)[:2 if ae == fe and len(fd) == 1 else 1]:
                    w = fits((fd, fe), (ad, ae), var)
                    if w is None: w = False
                    J.accepts(W, 'open array parameter', '%s%s(%s)' % (n, f, x), '%s%s(%s)' % (n, f, x), True if a == f else w, where='OPB.DynArrParCheck')
        for k in ('i16', 'i32', 'p', 'rec', 'c', 'r'):
            J.accepts(W, 'open array parameter', 'W_%s(x%s)' % (f, k), 'W_%s(x%s)' % (f, k), False, where='OPB.DynArrParCheck'); J.accepts(W, 'open array parameter', 'V_%s(x%s)' % (f, k), 'V_%s(x%s)' % (f, k), f == 'Oby', where='OPB.DynArrParCheck')
        J.accepts(W, 'open array parameter', 'W_%s(q%s)' % (f, f), 'W_%s(q%s)' % (f, f), False, where='OPB.DynArrParCheck')
    for a, (ad, ae) in ar.items():
        x = 'w' + a; q = 'q%s^' % a
        for d in range(0, len(ad) + 2):
            ok = d < len(ad)
            for z in (x, q):
                w = ('i8' if ad[d] is not None else 'i32') if ok else None
                J.typed(W, 'LEN', 'LEN(%s, %d)' % (z, d), 'LEN(%s, %d)' % (z, d), w, 'OPB.StPar1')
        J.typed(W, 'LEN', 'LEN(%s, -1)' % x, 'LEN(%s, -1)' % x, None, 'OPB.StPar1'); J.typed(W, 'LEN', 'LEN(%s, xi8)' % x, 'LEN(%s, xi8)' % x, None, 'OPB.StPar1'); J.typed(W, 'LEN', "LEN(%s, 'a')" % x, "LEN(%s, 'a')" % x, None, 'OPB.StPar1'); J.typed(W, 'LEN', 'LEN(%s, 0, 0)' % x, 'LEN(%s, 0, 0)' % x, None, 'OPB.StParN')
        # indices: one dimension each
        for d in range(1, len(ad) + 2):
            ix = ', '.join(['1'] * d); t = None
            if d < len(ad): t = '*'
            elif d == len(ad): t = ae
            for z in (x, q, 'q' + a):
                for tx in ('%s[%s]' % (z, ix), z + '[1]' * d):
                    if t == '*':
                        for y, e, u in J.parse(W, tx, 'OPP.Expression', 'x'): ctx.check(not e, 'index', tx, ctx.where(ctx.proc('OPB.Index')), '%s is rejected' % tx, sample=tx)
                    else: J.typed(W, 'index', tx, tx, t, 'OPB.Index')
        # NEW: one length for each open dimension
        no = sum(d is None for d in ad)
        for d in range(0, len(ad) + 2):
            tx = 'NEW(q%s%s)' % (a, ', 5' * d); J.accepts(W, 'NEW', tx, tx, d == no, where='OPB.StFct')
            if d and d == no:
                for k in ('i8', 'i64', 'r', 'c', 'b', 's32', 'p', 's'):
                    for i in range(d):
                        tx = 'NEW(q%s, %s)' % (a, ', '.join('x' + k if j == i else '5' for j in range(d))); J.accepts(W, 'NEW', tx, tx, k in IN, where='OPB.StParN')
                for i in range(d):
                    for v in ('0', '-1', 'Ti32'):
                        tx = 'NEW(q%s, %s)' % (a, ', '.join(v if j == i else '5' for j in range(d))); J.accepts(W, 'NEW', tx, tx, False, where='OPB.StParN')
        J.accepts(W, 'assignment', 'w%s := its type' % a, 'w%s := w%s' % (a, a), None not in ad, where='OPB.CheckAssign')
        for b, (bd, be) in ar.items():
            if a != b: J.accepts(W, 'assignment', 'w%s := w%s' % (a, b), 'w%s := w%s' % (a, b), False, where='OPB.CheckAssign')
    fields(W)
    # SYSTEM.VAL
    for k in ALL + tuple('m' + a for a in ('Fi16', 'FFi32')):
        if k not in ALL: W.name(k)
        for x in ALL: J.typed(W, 'VAL', 'VAL(%s, %s)' % (k, x), 'SYSTEM.VAL(T%s, x%s)' % (k, x), k, 'OPB.StPar1')
        for x in ('5', "'a'", 'TRUE', 'NIL', '{1}'):
            if k in BASIC_: J.typed(W, 'VAL', 'VAL(%s, %s)' % (k, x), 'SYSTEM.VAL(T%s, %s)' % (k, x), k, 'OPB.StPar1')
        for x in ('Ti32', 'Trec', '"abc"', 'wOi16'): J.typed(W, 'VAL', 'VAL(%s, %s)' % (k, x), 'SYSTEM.VAL(T%s, %s)' % (k, x), None, 'OPB.StPar1')
        J.typed(W, 'VAL', 'VAL(variable %s)' % k, 'SYSTEM.VAL(%s, xi32)' % ('x' + k if k in ALL else 'w' + k[1:]), None); J.typed(W, 'VAL', 'VAL(%s)' % k, 'SYSTEM.VAL(T%s)' % k, None, 'OPB.StFct'); J.typed(W, 'VAL', 'VAL(%s, 3 operands)' % k, 'SYSTEM.VAL(T%s, xi32, xi32)' % k, None, 'OPB.StParN')
    W.name('mOi16'); J.typed(W, 'VAL', 'VAL(open array)', 'SYSTEM.VAL(TmOi16, xi32)', None)
    # what is no variable cannot be tested; RETURN of a module body
    for k in ('p', 'p1', 'pp'):
        for cls in ('Ncall', 'Ndop'): J.typed(W, 'type test', 'call %s IS p1' % k, '%s IS Tp1' % W.op(k, cls), None, 'OPB.TypTest')
    for x in ('NIL', '5', 'Tp', 'TRUE'): J.typed(W, 'type test', x + ' IS p1', x + ' IS Tp1', None, 'OPB.TypTest')
    J.typed(W, 'type test', 'p IS variable', 'xp IS xp1', None, 'OPP.Expression')
    J.accepts(W, 'WITH', 'a variable as guard', 'WITH xp: xp1 DO END', False); J.accepts(W, 'WITH', 'two guards', 'WITH xp: Tp1 DO xp.g := 1 | xp: Tp2 DO xp.g := 2 ELSE xp.f := 1 END', True); J.accepts(W, 'WITH', 'guard ends', 'WITH xp: Tp1 DO xp.g := 1 END; xp.g := 2', False); J.accepts(W, 'WITH', 'guard ends at |', 'WITH xp: Tp1 DO xp.g := 1 | xp: Tp DO xp.g := 2 END', False); J.accepts(W, 'WITH', 'guard ends at ELSE', 'WITH xp: Tp1 DO xp.g := 1 ELSE xp.g := 2 END', False)
    for k in ('p', 'p1'):
        G.variable(st, 'far', T[k], 'VarPar'); J.accepts(W, 'WITH', 'VAR parameter ' + k, 'WITH far: Tp2 DO END', False)
SECTIONS = (operators, arrays, unary, assignment, procedures, statements, designators)
FLOORS = {'~': 83, 'sign': 167, 'ABS': 83, 'CAP': 83, 'ODD': 83, 'ORD': 83, 'CHR': 83, 'ENTIER': 83, 'SHORT': 83, 'LONG': 83, 'LEN': 83, 'MIN': 109, 'MAX': 109, 'SIZE': 109, 'ASH': 167, 'LSH': 167, 'ROT': 167, 'BIT': 167, 'no operand': 715, 'number of parameters': 135, 'set element': 78, 'index': 82, 'dereference': 29, 'field': 57, 'type test': 626, 'type guard': 561, 'WITH': 561, 'read-only': 517, 'receiver': 16, 'procedure type': 1736, 'IF': 53, 'ELSIF': 53, 'WHILE': 53, 'REPEAT': 53, 'ASSERT': 81, 'CASE': 206, 'FOR': 463, 'HALT': 53, 'INC': 367, 'DEC': 367, 'INCL': 261, 'EXCL': 261, 'NEW': 362, 'COPY': 261, 'GET': 106, 'PUT': 106, 'MOVE': 159, 'SYSTEM.NEW': 207, 'function': 55, 'EXIT': 7, 'RETURN': 1096, 'assignment': 3451, 'parameter': 6900, 'no variable': 4, 'operator +': 2169, 'operator -': 2169, 'constant operator +': 176, 'constant operator -': 176, 'operator *': 2169, 'operator /': 2169, 'constant operator *': 176, 'constant operator /': 176, 'operator DIV': 2169, 'operator MOD': 2169, 'constant operator DIV': 176, 'constant operator MOD': 176, 'operator &': 2169, 'operator OR': 2169, 'constant operator &': 176, 'constant operator OR': 176, 'operator =': 2169, 'operator #': 2169, 'constant operator =': 176, 'constant operator #': 176, 'operator <': 2169, 'operator <=': 2169, 'constant operator <': 176, 'constant operator <=': 176, 'operator >': 2169, 'operator >=': 2169, 'constant operator >': 176, 'constant operator >=': 176, 'operator IN': 2169, 'constant operator IN': 176}
def run(ctx):
    jobs = []; ks = ALL + OPEN
    for f in (unary, designators, procedures, statements, arrays): jobs.append(lambda c, f=f: f(c, Comp(c)))
    for i in range(0, len(ks), 4): jobs.append(lambda c, i=i: assignment(c, Comp(c), ks[i:i + 4]))
    for i in range(0, len(OPS_), 2): jobs.append(lambda c, i=i: operators(c, Comp(c), OPS_[i:i + 2]))
    ctx.parallel(jobs)
    for r, n in FLOORS.items(): ctx.floor(r, n)

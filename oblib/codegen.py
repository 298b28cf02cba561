"""Syntax-tree nodes for the emission templates (emit.Emitter), their parsing as C and the
evaluation of the C expression to an operation on the operands, with C's types and conversions."""
import re
from .emit import *
from . import cexpr
from .cexpr import CErr

# Oberon basic types: name -> (form constant, size, C type name written by OPC.Ident)
BASIC = {'BYTE': ('Byte', 1, 'SYSTEM_BYTE'), 'BOOL': ('Bool', 1, 'BOOLEAN'), 'CHAR': ('Char', 1, 'CHAR'), 'INT8': ('Int', 1, 'INT8'), 'INT16': ('Int', 2, 'INT16'), 'INT32': ('Int', 4, 'INT32'), 'INT64': ('Int', 8, 'INT64'),
         'REAL': ('Real', 4, 'REAL'), 'LREAL': ('LReal', 8, 'LONGREAL'), 'SET32': ('Set', 4, 'UINT32'), 'SET64': ('Set', 8, 'UINT64'), 'STRING': ('String', 0, '?'), 'NIL': ('NilTyp', 8, '?'), 'NOTYP': ('NoTyp', 0, 'void')}
INTS = ('INT8', 'INT16', 'INT32', 'INT64'); REALS = ('REAL', 'LREAL'); SETS = ('SET32', 'SET64')
BITS = {'INT8': 8, 'INT16': 16, 'INT32': 32, 'INT64': 64, 'SET32': 32, 'SET64': 64, 'CHAR': 8, 'BOOL': 1, 'BYTE': 8, 'REAL': 32, 'LREAL': 64}
# C types in which an operand of the type may be written (other rules establish it for every template)
VAR = {'INT8': ('i8', 'i32', 'i64'), 'INT16': ('i16', 'i32', 'i64'), 'INT32': ('i32', 'i64'), 'INT64': ('i64',), 'CHAR': ('u8', 'i32'), 'BOOL': ('i8', 'i32'), 'BYTE': ('i8',), 'SET32': ('u32',), 'SET64': ('u64', 'i64'), 'REAL': ('f32', 'f64'), 'LREAL': ('f64',)}
CT = {'INT8': 'i8', 'INT16': 'i16', 'INT32': 'i32', 'INT64': 'i64', 'UINT8': 'u8', 'UINT16': 'u16', 'UINT32': 'u32', 'UINT64': 'u64', 'CHAR': 'u8', 'BOOLEAN': 'i8', 'SYSTEM_BYTE': 'i8', 'REAL': 'f32', 'LONGREAL': 'f64', 'int': 'i32', 'ADDRESS': 'i64', 'SYSTEM_PTR': 'p'}

class Gen(Emitter):
    def __init__(s, ctx, opts=()):
        super().__init__(ctx); s.opts = opts; s.rctx = ctx
        s.names = {}
    def op(s, n):
        return s.rctx.const(n if '.' in n else 'OPT.' + n)
    def policy(s, o):
        if o.mod == 'OPM' and o.name in ('SignedMaximum', 'SignedMinimum', 'Longint', 'Integer'): return 'inline'
        return super().policy(o)
    def engine(s, **kw):
        e = super().engine(**kw)
        def smax(E, n, a, st):
            k = E.norm(st, a[0])
            if not isc(k): raise Broken('size of an integer type unknown')
            return [(C((1 << (8 * k[1] - 1)) - 1), st)]
        e.handlers['OPM.SignedMaximum'] = smax
        return e
    def start(s, opts=(), level=0):
        st = s.state(); s.glob(st, 'OPM.Options', C(frozenset(s.rctx.const('OPM.' + o) for o in opts)))
        s.glob(st, 'OPM.level', C(level)); s.glob(st, 'OPM.AddressSize', C(8)); s.glob(st, 'OPM.noerr', C(True)); s.opaque = set()
        s.types = {}
        for g, k in (('realtyp', 'REAL'), ('lrltyp', 'LREAL'), ('niltyp', 'NIL'), ('stringtyp', 'STRING'), ('booltyp', 'BOOL'), ('chartyp', 'CHAR'), ('notyp', 'NOTYP'), ('int8typ', 'INT8'), ('int16typ', 'INT16'), ('int32typ', 'INT32'), ('int64typ', 'INT64'), ('set32typ', 'SET32'), ('set64typ', 'SET64')):
            s.glob(st, 'OPT.' + g, s.typ(st, k))
        s.glob(st, 'OPT.adrtyp', s.rec(st, 'T_adr', s.S, form=s.m('Int'), size=8, comp=1, strobj=('s', 'I:ADDRESS')))
        s.glob(st, 'OPT.sysptrtyp', s.rec(st, 'T_sysptr', s.S, form=s.m('Pointer'), size=8, comp=1, strobj=('s', 'I:SYSTEM_PTR')))
        return st
    def m(s, n):
        return s.rctx.const('OPT.' + n) if n not in ('ranchk', 'typchk', 'inxchk') else s.rctx.const('OPM.' + n)
    def typ(s, st, k, **kw):
        """the struct of a basic type"""
        if k in s.types: return s.types[k]
        f, size, cn = BASIC[k]
        v = s.rec(st, 'T_' + k, s.S, form=s.m(f), size=size, comp=s.m('Basic'), strobj=('s', 'I:' + cn)); st.facts[('s', 'I:' + cn)] = NONNIL
        s.types[k] = v; return v
    def ptyp(s, st, key, named=True, **kw):
        """a constructed type"""
        v = s.rec(st, 'T_' + key, s.S, **dict(dict(strobj=('s', 'I:%s' % key) if named else NIL, align=0, extlev=C(3), sysflag=0, size=('s', 'size_' + key)), **kw))
        if named: st.facts[('s', 'I:%s' % key)] = NONNIL
        s.types[key] = v
        return v
    def leaf(s, st, key, typ, **kw):
        """an opaque operand"""
        if 'cls' not in kw:
            kw['cls'] = c = ('s', ('cls', key)); st.facts[c] = (None, frozenset([s.c('Nconst')]), -INF, INF)
        v = s.rec(st, key, s.N, typ=typ, **kw); s.opaque = s.opaque | {v}
        return v
    def const_(s, st, key, typ, intval=None):
        k = s.rec(st, 'K' + key, s.K)
        if intval is not None: s.setf(st, k, s.K, 'intval', intval)
        v = s.leaf(st, key, typ, cls=s.c('Nconst'), conval=k)
        return v
    def node(s, st, cls, sub=None, **kw):
        d = {'cls': s.c(cls)}
        if sub is not None: d['subcl'] = s.op(sub)
        return s.rec(st, kw.pop('key', 'N'), s.N, **dict(d, **kw))
    def emit(s, st, n, prec=-1, proc=None, **kw):
        r, E = s.run(proc or s.expr, st, {'n': n, 'prec': C(prec)} if (proc or s.expr) in (s.expr, s.design) else n, **kw)
        return r
    # ---- text
    def text(s, toks, holes=None):
        """tokens -> C text; holes: identifier -> token"""
        out = []; H = holes if holes is not None else {}
        for t in toks:
            k = t[0]
            if k == 'T': out.append(t[1])
            elif k in ('E', 'D'): n = '$' + str(t[1][1]); H[n] = t; out.append(n)
            elif k in ('I', 'A', 'CI', 'TY', 'V'):
                v = t[1]
                if v[0] == 's' and isinstance(v[1], str): n = v[1]
                else: n = 'o%d' % (abs(hash(v)) % 10 ** 6)
                n = n[2:] if n.startswith('I:') else {'T_': ''}.get(n[:2], n[:2]) + n[2:]
                n = re.sub(r'\W', '_', n); H.setdefault('@' + n, t); out.append(n)
            elif k in ('N', 'X', 'R'):
                n = '$num%d' % len(H); H[n] = t; out.append(n)
            elif k == 'ERR': raise CErr('the code generator reports an error')
            else: raise CErr('token %s' % (t,))
        return ''.join(out)
    def istype(s, n): return n in cexpr.BASIC or n.startswith('Ty') or n in s.tnames
    tnames = frozenset()
    def grouping(s, toks, kind, p, typed=None):
        """None, or how the text written at precedence p regroups in C"""
        H = {}
        try: lv, at = cexpr.grouped(s.text(toks, H), s.istype)
        except CErr as e: return str(e)
        if lv < hyp(kind, p): return 'asked for at precedence %d, it is not put in parentheses' % p
        for a, need in at:
            k = H.get(a)
            if k is None: continue
            have = hyp(k[0], k[2]) if k[0] in ('E', 'D') else cexpr.UNARY if k[0] in ('N', 'X', 'R') else cexpr.PRIMARY
            ty = (typed or {}).get(a)
            # no operator of C's levels == to * yields a set, none at all a pointer (checked with the templates)
            if k[0] == 'E' and (ty in SETS and k[2] >= 4 or ty in ('PTR', 'PTR2', 'PROC', 'NIL')): have = max(have, cexpr.UNARY)
            if have is None: raise Broken('operand written at an unknown precedence')
            if have < need: return 'its operand %s, asked for at precedence %d, can be split by the operator before or after it' % (k[1][1], k[2])
        return None
    def parse(s, toks, holes=None): return cexpr.expr(s.text(toks, holes), s.istype)

# the C level guaranteed for a text asked for at a precedence of the code generator
LEV = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12]
def hyp(kind, p):
    """induction hypothesis: least C level of what OPV.expr ('E') or OPV.design ('D') writes at precedence p"""
    if not isinstance(p, int): return None
    if p > 10: return cexpr.PRIMARY
    if p >= 9: return LEV[p]
    if kind == 'D': return cexpr.UNARY
    return LEV[p + 1]
PRECS = tuple(range(-1, 13))

def bits(ct): return int(ct[1:]) if ct[0] in 'iuf' and ct[1:].isdigit() else 64
def promote(ct): return 'i32' if ct[0] in 'iu' and bits(ct) < 32 else ct
def usual(a, b):
    if 'f' in (a[0], b[0]):
        fs = [x for x in (a, b) if x[0] == 'f']; return max(fs, key=bits)
    if 'p' in (a[0], b[0]): return 'p'
    a, b = promote(a), promote(b)
    if bits(a) != bits(b): return a if bits(a) > bits(b) else b
    return 'u%d' % bits(a) if 'u' in (a[0], b[0]) else a
class SemErr(Exception): pass
# macros whose operand is written out more than once (rule R15 establishes the rest)
MULTI = {'__X': (0,), '__R': (0,), '__SHORT': (0,), '__CHR': (0,), '__ASH': (1,), '__DIV': (0, 1), '__MOD': (0, 1), '__ABS': (0,), '__XF': (), '__RF': ()}
UN = {'__ABS': 'abs', '__ABSF': 'abs', '__ABSFD': 'abs', '__CAP': 'cap', '__ODD': 'odd', '__ENTIER': 'entier', '__CHR': 'chr', '__CHRF': 'chr'}
class Sem:
    """env: hole -> (term, C type, bits of the Oberon value, kind); rb: bits of the Oberon result"""
    def __init__(s, env, rb, facts=None, se=None, numval=None):
        s.env, s.rb, s.se, s.numval = env, rb, se, numval
        s.k = facts
    def num(s, a):
        if a[0] == 'num': return int(a[1].rstrip('uUlL'), 0)
        if a[0] == 'un' and a[1] == '-' and a[2][0] == 'num': return -s.num(a[2])
        if a[0] == 'id' and a[1] in s.env: return s.env[a[1]][0]
        raise SemErr('number expected: %s' % cexpr.show(a))
    def ev(s, a):
        k = a[0]
        if k == 'id':
            if a[1] in s.env: return s.env[a[1]]
            raise SemErr('unknown name %s' % a[1])
        if k == 'num': return (('num', s.num(a)), 'i64' if 'L' in a[1].upper() else 'i32', 32, 'i')
        if k == 'cast': return s.cast(a[1], a[2])
        if k == 'un': return s.un(a[1], a[2])
        if k == 'bin': return s.bin(a[1], a[2], a[3])
        if k == 'call': return s.callx(a)
        raise SemErr('unexpected C construct %s' % cexpr.show(a))
    def cast(s, ty, x):
        if ty.endswith('*'): t, c, b, kd = s.ev(x); return (t, 'p', b, kd)
        ct = CT.get(ty)
        if ct is None:
            t, c, b, kd = s.ev(x); return (('tcast', ty, t), 'p', 64, 'p')
        if x[0] == 'un' and x[1] == '&': return (('addr', s.ev(x[2])[0]), ct, 64, 'i')
        t, c, b, kd = s.ev(x)
        if c[0] == 'f':
            if ct[0] == 'f': return (t if bits(ct) >= min(b, bits(c)) else ('round', bits(ct), t), ct, min(b, bits(ct)), kd)
            return (('valconv', ct, t), ct, bits(ct), 'i')
        if ct[0] == 'f': return (t, ct, bits(ct), 'r')                 # integer operand made real
        if c == 'p': return (t, ct, 64, kd)
        if bits(ct) < b: return (('trunc', bits(ct), t), ct, bits(ct), kd)
        if kd == 's' and c[0] == 'i' and bits(c) < bits(ct): return (('sext', bits(ct), t), ct, bits(ct), kd)
        if kd == 'i' and ct[0] == 'u' and ct != 'u64' and b == bits(ct): return (('unsigned', bits(ct), t), ct, b, kd)
        return (t, ct, b, kd)
    def un(s, op, x):
        if op == '&': return (('addr', s.ev(x)[0]), 'p', 64, 'p')
        t, c, b, kd = s.ev(x)
        if op == '!': return (('not', t), 'i32', 1, 'b')
        if op == '-':
            if isinstance(t, tuple) and t[0] == 'num': return (('num', -t[1]), c, b, kd)
            return (('neg', t), promote(c) if c[0] != 'f' else c, s.rb, kd)
        if op == '~': return (('compl', t), promote(c), s.rb, kd)
        raise SemErr('unexpected operator %s' % op)
    def bin(s, op, x, y):
        if op in ('&&', '||'): return (({'&&': 'and', '||': 'or'}[op], s.ev(x)[0], s.ev(y)[0]), 'i32', 1, 'b')
        if op == '&' and y[0] == 'un' and y[1] == '~':
            a, b = s.ev(x), s.ev(y[2]); ct = usual(a[1], b[1])
            if bits(promote(b[1])) < bits(promote(a[1])): raise SemErr('the complement is taken in %d bits, the set has %d' % (bits(promote(b[1])), bits(promote(a[1]))))
            return (('diff', a[0], b[0]), ct, max(a[2], b[2]), 's')
        a, b = s.ev(x), s.ev(y); ct = usual(a[1], b[1])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            n = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[op]
            if isinstance(a[0], tuple) and a[0][0] == 'strcmp' and b[0] == ('num', 0): return (('str' + n,) + a[0][1:], 'i32', 1, 'b')
            if ct[0] == 'u' and (a[3] == 'i' or b[3] == 'i'): raise SemErr('signed integers are compared unsigned')
            if a[3] == 's' and (bits(promote(a[1])) != bits(promote(b[1]))): raise SemErr('sets of %d and %d bits are compared' % (bits(a[1]), bits(b[1])))
            t = (n, a[0], b[0])
            if n in ('gt', 'ge'): t = ({'gt': 'lt', 'ge': 'le'}[n], b[0], a[0])
            if n in ('eq', 'ne'): t = (n,) + tuple(sorted(t[1:], key=repr))
            return (t, 'i32', 1, 'b')
        if op in ('&', '|', '^'):
            return (({'&': 'inter', '|': 'union', '^': 'symdiff'}[op],) + tuple(sorted((a[0], b[0]), key=repr)), ct, max(a[2], b[2]), 's')
        if op in ('+', '-', '*', '/'):
            if ct[0] == 'u': raise SemErr('the operation is done unsigned')
            if op == '/' and ct[0] != 'f': raise SemErr('real division is done on integers')
            n = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'rdiv'}[op]; l = (a[0], b[0])
            if op in '+*': l = tuple(sorted(l, key=repr))
            return ((n,) + l, ct, s.rb, 'r' if ct[0] == 'f' else 'i')
        raise SemErr('unexpected operator %s' % op)
    def callx(s, a):
        if a[1][0] != 'id': raise SemErr('call of %s' % cexpr.show(a[1]))
        f = a[1][1]; l = a[2]
        if s.se:
            for k in MULTI.get(f, ()):
                if k < len(l): s.se(f, l[k])
        def v(k): return s.ev(l[k])
        if f in ('__ABS', '__ABSF', '__ABSFD'):
            t, c, b, kd = v(0)
            if f == '__ABSF' and c[0] == 'f': raise SemErr('%s of a real' % f)
            return (('abs', t), 'f64' if f == '__ABSFD' or c[0] == 'f' else ('i64' if f == '__ABSF' else promote(c)), s.rb, 'r' if c[0] == 'f' or f == '__ABSFD' else kd)
        if f == '__CAP': return (('cap', v(0)[0]), 'u8', 8, 'c')
        if f == '__ODD': t = v(0); return (('odd', t[0]), promote(t[1]), 1, 'b')
        if f == '__ENTIER':
            t = v(0); return (('entier', t[0]), 'i64', 64, 'i')
        if f in ('__CHR', '__CHRF'): return (('chk', 0, 256, v(0)[0]), 'u8', 8, 'c')
        if f in ('__SHORT', '__SHORTF'):
            n = s.num(l[1]); t = v(0)
            if not isinstance(n, int): raise SemErr('bound of %s unknown' % f)
            return (('chk', -n, n, t[0]), 'i32', n.bit_length(), t[3])
        if f in ('__DIV', '__DIVF', '__MOD', '__MODF'):
            x, y = v(0), v(1); return (('div' if 'DIV' in f else 'mod', x[0], y[0]), 'i64' if f.endswith('F') else usual(x[1], y[1]), s.rb, 'i')
        if f in ('__ASHL', '__ASHR'): return (('ash' + f[-1].lower(), v(0)[0], v(1)[0]), 'i64', s.rb, 'i')
        if f in ('__ASH', '__ASHF'): return (('ash', v(0)[0], v(1)[0]), 'i64', s.rb, 'i')
        if f in ('__LSHL', '__LSHR', '__LSH', '__ROTL', '__ROTR', '__ROT'):
            x = v(0); n = s.num(l[2]); return (({'L': 'lsh', 'R': 'rot'}[f[2]] + f[5:].lower(), x[0], v(1)[0], n), 'i%s' % n, n, x[3])
        if f == '__MASK':
            x, y = v(0), v(1); return (('msk', x[0], y[0]), usual(x[1], y[1]), s.rb, 'i')
        if f == '__BIT': return (('bit', v(0)[0], v(1)[0]), 'u64', 1, 'b')
        if f == '__IN': return (('in', v(0)[0], v(1)[0], s.num(l[2])), 'i32', 1, 'b')
        if f == '__SETOF': n = s.num(l[1]); return (('setof', v(0)[0], n), 'u%s' % n, n, 's')
        if f == '__SETRNG': n = s.num(l[2]); return (('setrng', v(0)[0], v(1)[0], n), 'u%s' % n, n, 's')
        if f == '__STRCMP': return (('strcmp', v(0)[0], v(1)[0]), 'i32', 32, 'i')
        if f == '__VAL':
            if l[0][0] != 'type': raise SemErr('__VAL without a type')
            ct = CT.get(l[0][1], 'p'); return (('reint', l[0][1], v(1)[0]), ct, bits(ct), 'v')
        if f in ('__IS', '__ISP') or f in s.env.get('$macros', ()): return ((f,) + tuple(cexpr.show(x) for x in l), 'i32', 1, 'b')
        raise SemErr('unknown macro %s' % f)

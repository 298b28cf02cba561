"""Operands of the run-time primitives.  once: an operand the compiler may pass with side effects is evaluated exactly once on every path
(calls counted over all paths of the IR).  unit: an operand written as an operator expression keeps its own operator - in clang's syntax
tree every use of the left operand hangs under that operator together with the right one."""
import json, subprocess
from ._c import *
LEVEL = 'other'
ARITH = ('%s + %s', '%s - %s', '%s * %s', '-%s'); SETOP = ('%s | %s', '%s ^ %s', '~%s'); BOOL = ('%s || %s', '%s == %s', '!%s', '%s < %s'); PTR = ('*%s',); REALOP = ARITH + ('%s / %s',); DES = ('*%s', '%s[%s]')
# name, macro text with holes, kinds of the holes (i int, l int64, s set, b boolean, r real, p pointer to T, a address, v int variable, c char pointer), statement or expression
M = [('X', '__X(@0, 10)', 'i', 'u'), ('XF', '__XF(@0, 10)', 'i', 'ou'), ('Xl', '__X(i, @0)', 'l', 'u'), ('XFl', '__XF(@0, n->len[0])', 'l', 'o'), ('R', '__R(@0, 256)', 'i', 'u'), ('RF', '__RF(@0, 256)', 'i', 'ou'),
     ('SHORT', '__SHORT(@0, 128)', 'i', 'u'), ('SHORTF', '__SHORTF(@0, 128)', 'i', 'ou'), ('SHORTF64', '__SHORTF(@0, 2147483648)', 'l', 'ou'), ('CHR', '__CHR(@0)', 'i', 'u'), ('CHRF', '__CHRF(@0)', 'l', 'ou'),
     ('STRCMP', '__STRCMP(@0, @1)', 'cc', 'o'), ('VAL', '__VAL(UINT32, @0)', 'v', 'ou'),
     ('LSHL', '__LSHL(@0, 3, 32)', 'i', 'ou'), ('LSHR', '__LSHR(@0, 3, 32)', 'i', 'ou'), ('LSHL64', '__LSHL(@0, 3, 64)', 'l', 'ou'), ('LSHR64', '__LSHR(@0, 3, 64)', 'l', 'ou'), ('LSH', '__LSH(@0, @1, 32)', 'ii', 'ou'), ('LSH64', '__LSH(@0, @1, 64)', 'li', 'ou'),
     ('ROTL', '__ROTL(@0, 3, 32)', 'i', 'ou'), ('ROTR', '__ROTR(@0, 3, 32)', 'i', 'ou'), ('ROTL8', '__ROTL(@0, 3, 8)', 'i', 'ou'), ('ROT', '__ROT(@0, @1, 32)', 'ii', 'ou'), ('ROT64', '__ROT(@0, @1, 64)', 'li', 'ou'),
     ('ASHL', '__ASHL(@0, 3)', 'i', 'ou'), ('ASHR', '__ASHR(@0, 3)', 'i', 'ou'), ('ASH', '__ASH(@0, i)', 'i', 'o'), ('ASHu', '__ASH(@0, @1)', 'il', 'u'), ('ASHF', '__ASHF(@0, @1)', 'il', 'ou'),
     ('DIVF', '__DIVF(@0, @1)', 'il', 'ou'), ('DIV', '__DIV(@0, @1)', 'ii', 'u'), ('MODF', '__MODF(@0, @1)', 'li', 'ou'), ('MOD', '__MOD(@0, @1)', 'ii', 'u'), ('DIVl', '__DIV(@0, @1)', 'll', 'u'),
     ('ENTIER', '__ENTIER(@0)', 'r', 'ou'), ('ABS', '__ABS(@0)', 'i', 'u'), ('ABSr', '__ABS(@0)', 'r', 'u'), ('ABSF', '__ABSF(@0)', 'i', 'ou'), ('ABSF64', '__ABSF(@0)', 'l', 'ou'), ('ABSFD', '__ABSFD(@0)', 'r', 'ou'),
     ('CAP', '__CAP(@0)', 'i', 'o'), ('ODD', '__ODD(@0)', 'l', 'ou'), ('IN', '__IN(@0, @1, 32)', 'is', 'ou'), ('IN64', '__IN(@0, @1, 64)', 'lS', 'ou'), ('SETOF', '__SETOF(@0, 32)', 'i', 'ou'), ('SETOF64', '__SETOF(@0, 64)', 'l', 'ou'), ('SETRNG', '__SETRNG(@0, @1, 32)', 'ii', 'ou'), ('SETRNG64', '__SETRNG(@0, @1, 64)', 'il', 'ou'),
     ('MASK', '__MASK(@0, -8)', 'i', 'ou'), ('MASK64', '__MASK(@0, -8)', 'l', 'ou'), ('BIT', '__BIT(@0, @1)', 'ai', 'ou'),
     ('ASSERT', 'S__ASSERT(@0, 3)', 'b', 'ou'), ('HALT', 'S__HALT(@0)', 'i', 'ou'), ('GET', 'S__GET(@0, @1, INT32)', 'av', 'ou'), ('PUT', 'S__PUT(@0, @1, INT32)', 'ai', 'ou'), ('MOVE', 'S__MOVE(@0, @1, @2)', 'aai', 'ou'), ('SYSNEW', 'S__SYSNEW(q, @0)', 'i', 'ou'),
     ('COPY', 'S__COPY(@0, @1, @2)', 'ccl', 'o'), ('COPYn', 'S__COPY(q, q, @0)', 'l', 'u'),
     ('TYPEOF', 'P__TYPEOF(@0)', 'p', 'ou'), ('ISP', '__ISP(@0, T, 1)', 'p', 'ou'), ('GUARDP', 'P__GUARDP(@0, T, 1)', 'p', 'ou'), ('GUARDA', 'P__GUARDA(@0, T, 1)', 'p', 'ou'), ('GUARDEQP', 'S__GUARDEQP(@0, T) = *t', 'p', 'ou'), ('NEW', 'S__NEW(@0, T)', 'w', 'o'), ('SYSNEWd', 'S__SYSNEW(@0, 10)', 'w', 'o')]
CT_ = {'i': 'INT32', 'l': 'INT64', 's': 'UINT32', 'S': 'UINT64', 'b': 'int', 'r': 'double', 'p': 'T *', 'a': 'ADDRESS', 'v': 'INT32', 'c': 'CHAR *', 'w': 'T *'}
OPS = {'i': ARITH, 'l': ARITH, 's': SETOP, 'S': SETOP, 'b': BOOL, 'r': REALOP, 'p': PTR, 'a': ARITH[:2], 'v': DES}
DECL = 'typedef struct T {INT32 x;} T; extern ADDRESS *T__typ; struct N {ADDRESS len[1];}; extern T *t; extern void *q; extern INT32 i; extern struct N *n;\n'
def run(ctx):
    pr = [DECL]; once = []; unit = []
    def stmt(text): return text[1:] + ';' if text[0] == 'S' else 'return (ADDRESS)%s;' % text[1:] if text[0] == 'P' else 'return %s;' % text
    for name, text, kinds, what in M:
        ty = 'void' if text[0] == 'S' else 'ADDRESS' if text[0] == 'P' else 'double' if name in ('ABSr', 'ABSFD') else 'INT64'
        if 'o' in what:
            for k in range(len(kinds)): pr.append('extern %s%s f_%s_%d(void);' % (CT_[kinds[k]], ' *' if kinds[k] in 'vw' else '', name, k))
            body = stmt(text)
            for k in range(len(kinds)): body = body.replace('@%d' % k, ('*f_%s_%d()' if kinds[k] in 'vw' else 'f_%s_%d()') % (name, k))
            pr.append('%s p_o_%s(void) { %s }' % (ty, name, body)); once.append((name, text, kinds))
        if 'u' in what:
            for k in range(len(kinds)):
                for j, op in enumerate(OPS.get(kinds[k], ())):
                    fn = 'p_u_%s_%d_%d' % (name, k, j); body = stmt(text); t = CT_[kinds[k]]
                    two = op.count('%s') == 2; rep = op % (('L_', 'R_') if two else ('L_',))
                    for m in range(len(kinds)): body = body.replace('@%d' % m, rep if m == k else 'o%d' % m)
                    lt = t + ' *' if op in DES else t
                    pr.append('%s %s(%s L_%s, %s) { %s }' % (ty, fn, lt, ', %s R_' % ('int' if op == DES[1] else t) if two else '', ', '.join('%s o%d' % (CT_[kinds[m]], m) for m in range(len(kinds))), body)); unit.append((fn, name, k, op, text))
    res = []
    for name, text, kinds, what in M:
        if text[0] == 'S' or name in ('TYPEOF', 'COPYn'): continue
        call = text.lstrip('P')
        for k in range(len(kinds)): call = call.replace('@%d' % k, ('*' if kinds[k] == 'w' else '') + 'o%d' % k)
        par = ', '.join('%s%s o%d' % (CT_[kinds[m]], ' *' if kinds[m] == 'w' else '', m) for m in range(len(kinds)))
        used = ['o%d' % m for m in range(len(kinds))]
        for j, (cx, rt_) in enumerate([('%s->x', 'INT32'), ('(*%s).x', 'INT32')] if text[0] == 'P' else [('Z_ * %s', 'double'), ('%s * Z_', 'double'), ('-%s', 'double'), ('!%s', 'int')] if 'r' in kinds else [('Z_ %% %s', 'INT64'), ('%s %% Z_', 'INT64'), ('-%s', 'INT64'), ('!%s', 'INT64'), ('~%s', 'INT64')]):
            fn = 'p_u_r_%s_%d' % (name, j); pr.append('%s %s(%s Z_, %s) { return %s; }' % (rt_, fn, 'double' if 'r' in kinds else 'INT64', par, cx % call)); res.append((fn, name, cx, call, used))
    src = '\n'.join(pr)
    def ptrhandler(e, fn):
        return lambda eng, st, v, ins: (setattr(st, 'events', st.events + [('call', fn, (), ins)]), eng.psym(eng.fresh('o_' + fn)))[1]
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, src, label=lab, **cfg)
        for name, text, kinds in once:
            w = rt.where(re.search(r'__\w+', text).group(0))
            if name == 'STRCMP': handlers = {'__str_cmp': lambda eng, st, v, ins: eng.isym(eng.fresh('cmp'), 32)}
            else: handlers = {}
            e = rt.eng(); e.handlers.update(handlers)
            e.handlers['Modules_Halt'] = lambda eng, st, v, ins: ('end', 'halt', 0); e.handlers['Modules_AssertFail'] = lambda eng, st, v, ins: ('end', 'halt', 0)
            for k, kd in enumerate(kinds):
                if kd in 'pvcaw': e.handlers['f_%s_%d' % (name, k)] = ptrhandler(e, 'f_%s_%d' % (name, k))
                elif kd in 'ilbsS': e.handlers['f_%s_%d' % (name, k)] = lambda eng, st, v, ins, kd=kd, k=k: (setattr(st, 'events', st.events + [('call', 'f_%s_%d' % (name, k), (), ins)]), small(eng, st, kd, name, k))[1]
            for nm in ('SYSTEM_DIV', 'SYSTEM_MOD'):
                e.handlers[nm] = lambda eng, st, v, ins: eng.isym(eng.fresh('q'), 64)
            lo, hi = pathcount(rt.m.fns['p_o_' + name], len(kinds), name)
            if lo != hi or set(lo) != {1}:
                # some path of the graph evaluates an operand more or less than once: is it one that can be taken?
                try: outs = [(o.kind, [sum(1 for x in o.st.events if x[0] == 'call' and x[1] == 'f_%s_%d' % (name, k)) for k in range(len(kinds))]) for o in rt.call(e, 'p_o_' + name, [])]
                except CabsError: outs = [('some exit', lo), ('some exit', hi)]
            else: outs = [('every exit', lo)]
            for kind, ns in outs:
                for k, n in enumerate(ns):
                    ctx.check(n == 1, 'once', '%s/%d/%s' % (name, k, lab), w, '%s evaluates operand %d %s times (on a path that ends in %s)' % (text.lstrip('SP'), k + 1, n, kind), sample='%s: operand %d evaluated once' % (text.lstrip('SP').replace('@', 'f'), k + 1))
    # ---- unit
    rt = Rt(ctx, src)
    ast = astof(ctx, rt, src)
    for fn, name, k, op, text in unit:
        b = ast.get(fn)
        if b is None: raise Broken('no syntax tree for %s' % fn)
        uses, bad = units(b, op)
        w = rt.where(re.search(r'__\w+', text).group(0))
        ctx.check(uses > 0 and bad is None, 'unit', '%s/%d/%s' % (name, k, op.replace('%s', 'x')), w, '%s with the operand %s: %s' % (text.lstrip('SP').replace('@%d' % k, op % (('L', 'R') if op.count('%s') == 2 else ('L',))), op % (('L', 'R') if op.count('%s') == 2 else ('L',)), bad or 'the operand is not used'), sample='%s: %d uses, each keeps "%s" together' % (text.lstrip('SP'), uses, op))
    for fn, name, cx, call, used in res:
        b = ast.get(fn)
        if b is None: raise Broken('no syntax tree for %s' % fn)
        bad = result(b, cx, used)
        ctx.check(bad is None, 'result', '%s/%s' % (name, cx.replace('%s', 'M').replace('%%', '%')), rt.where(call.split('(')[0]), '%s: %s' % (cx % call, bad), sample='%s: the operator applies to the whole result' % (cx % call))
    ctx.floor('result', 150); ctx.floor('once', 3 * 65); ctx.floor('unit', 170)
def small(e, st, kd, name, k):
    w = {'i': 32, 'l': 64, 's': 32, 'S': 64, 'b': 32}[kd]
    v = e.isym(e.fresh('v'), w)
    s = str(v.p)
    e.bounds[s] = (1, 7) if re.match('LSH|ROT|ASH|SET|BIT|IN', name) else (0, 1 << 20)
    return v
def succs(fn, b):
    l = fn.blocks[b]; t = l[-1] if l else None
    if t is None: return []
    return [t.a[0]] if t.op == 'br' else [t.a[1], t.a[2]] if t.op == 'cbr' else [t.a[1]] + [x[1] for x in t.a[2]] if t.op == 'switch' else []
def pathcount(fn, n, name):
    """least and greatest number of calls of each operand function over all paths of the graph ('many' inside a loop)"""
    idx = {}; order = []; low = {}; on = []; comp = {}
    def dfs(v):                              # strongly connected components, callees first
        idx[v] = low[v] = len(idx); on.append(v)
        for w in succs(fn, v):
            if w not in idx: dfs(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = on.pop(); c.append(w); comp[w] = len(order)
                if w == v: break
            order.append(c)
    dfs(fn.order[0]); lo = {}; hi = {}
    for ci, c in enumerate(order):
        loop = len(c) > 1 or c[0] in succs(fn, c[0])
        cnt = [sum(1 for b in c for i in fn.blocks[b] if i.op == 'call' and re.search(r'\bf_%s_%d\b' % (name, k), str(i.a[0]))) for k in range(n)]
        nx = [comp[w] for b in c for w in succs(fn, b) if comp[w] != ci]
        own = [(0 if loop else x) for x in cnt], [(99 if loop and x else x) for x in cnt]
        lo[ci] = [own[0][k] + min([lo[m][k] for m in nx] or [0]) for k in range(n)]
        hi[ci] = [min(99, own[1][k] + max([hi[m][k] for m in nx] or [0])) for k in range(n)]
    return lo[comp[fn.order[0]]], hi[comp[fn.order[0]]]
def astof(ctx, rt, src):
    with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as f: f.write('#include "SYSTEM.c"\n#define SHORTINT INT8\n#define INTEGER INT16\n#define LONGINT INT32\n#define SET UINT32\n' + src)
    try:
        r = subprocess.run(['clang', '-fsyntax-only', '-w', '-Wno-error=int-conversion', '-Wno-error=implicit-function-declaration', '-Wno-error=incompatible-function-pointer-types', '-fno-builtin', '-std=gnu11', '-I' + rt.inc, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=p_u_', f.name], capture_output=True, text=True)
    finally: os.unlink(f.name)
    if r.returncode != 0: raise Broken('clang gives no syntax tree: ' + r.stderr[:400])
    d = json.JSONDecoder(); s = r.stdout; i = 0; out = {}
    while i < len(s):
        if s[i] in ' \n\r\t': i += 1; continue
        if s[i] != '{': i = s.find('\n', i) + 1 or len(s); continue
        v, i = d.raw_decode(s, i)
        if v.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in v.get('inner', ())): out[v['name']] = [x for x in v['inner'] if x['kind'] == 'CompoundStmt'][0]
    return out
SKIP = ('ImplicitCastExpr', 'ParenExpr')
def names(n):
    r = {n['referencedDecl']['name']} if n.get('kind') == 'DeclRefExpr' and 'referencedDecl' in n else set()
    for c in n.get('inner', []): r |= names(c)
    return r
def result(body, cx, used):
    ret = [x for x in body.get('inner', []) if x['kind'] == 'ReturnStmt']
    if not ret: raise Broken('no return statement in a probe')
    n = ret[0]['inner'][0]
    while n.get('kind') == 'ImplicitCastExpr': n = n['inner'][0]
    k = n.get('kind'); inn = n.get('inner', [])
    def strip(n):
        while n.get('kind') in SKIP and n.get('inner'): n = n['inner'][0]
        return n
    if cx.endswith('x'): ok = k == 'MemberExpr' and set(used) <= names(n)
    elif cx in ('-%s', '!%s', '~%s'): ok = k == 'UnaryOperator' and n.get('opcode') == cx[0]
    else:
        op = '*' if '*' in cx else '%'; z = 0 if cx.startswith('Z_') else 1
        ok = k == 'BinaryOperator' and n.get('opcode') == op and names(strip(inn[z])) == {'Z_'} and 'Z_' not in names(inn[1 - z]) and set(used) <= names(inn[1 - z])
    return None if ok else 'parsed as %s%s: the surrounding operator takes only a part of the result' % (k, ' ' + n['opcode'] if n.get('opcode') else '')
def units(body, op):
    two = op.count('%s') == 2; sub = op == DES[1]; tok = op.replace('%s', '').replace('[]', '').strip()
    uses = [0]; bad = [None]
    def refs(n, nm): return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == nm
    def strip(n):
        while n.get('kind') in SKIP and n.get('inner'): n = n['inner'][0]
        return n
    def good(n):
        k = n.get('kind'); inn = n.get('inner', [])
        if sub: return k == 'ArraySubscriptExpr' and refs(strip(inn[0]), 'L_') and refs(strip(inn[1]), 'R_')
        if two: return k == 'BinaryOperator' and n.get('opcode') == tok and refs(strip(inn[0]), 'L_') and refs(strip(inn[1]), 'R_')
        return k == 'UnaryOperator' and n.get('opcode') == tok and refs(strip(inn[0]), 'L_')
    def go(n, path):
        if good(n): uses[0] += 1; return
        if refs(n, 'L_') or refs(n, 'R_'):
            up = [p for p in path if p.get('kind') not in SKIP]
            p = up[-1] if up else n
            bad[0] = 'an operand of it is taken by %s%s' % (p.get('kind'), ' ' + p['opcode'] if p.get('opcode') else ' (%s)' % p.get('type', {}).get('qualType', '') if 'Cast' in p.get('kind', '') else '')
            return
        for c in n.get('inner', []): go(c, path + [n])
    go(body, [])
    return uses[0], bad[0]

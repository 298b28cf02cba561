"""Traps and raw memory: HALT, ASSERT and the implicit traps end in the documented code, once and only when due; SYSTEM.GET, PUT, VAL and
MOVE transfer exactly the bytes named."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    TY = [('INT8', 8, 'i'), ('INT16', 16, 'i'), ('INT32', 32, 'i'), ('INT64', 64, 'i'), ('CHAR', 8, 'i'), ('BOOLEAN', 8, 'i'), ('UINT32', 32, 'i'), ('UINT64', 64, 'i'), ('REAL', 32, 'f'), ('LONGREAL', 64, 'd'), ('SYSTEM_PTR', 0, 'p')]
    pr = ['extern int cond(void); extern void after(void); extern INT64 num(void); extern ADDRESS fadr(void);\n',
        'void p_halt(INT32 x) { __HALT(x + 1); } void p_haltc(void) { __HALT(-128); } void p_haltm(void) { if (cond()) __HALT(7); else after(); }',
        'void p_as(int a, int b) { __ASSERT(a || b, 3); after(); } void p_asn(int a) { __ASSERT(a, 0); after(); } void p_ascall(void) { __ASSERT(cond(), 5); after(); } void p_asn2(INT32 a, INT32 b) { __ASSERT(a == b, 255); after(); }',
        'INT32 p_ret(int a) { if (a) { return 5; } __RETCHK; } double p_retd(int a) { if (a) { return 0; } __RETCHK; } void *p_retp(void *a) { if (a != 0) { return a; } __RETCHK; }',
        'void p_case(INT32 a) { switch (a) { case 1: case 2: after(); break; case 7: after(); break; default: __CASECHK; } } void p_with(int a, int b) { if (a) { after(); } else if (b) { after(); } else __WITHCHK; }']
    for t, wd, k in TY:
        pr.append('@ p_get_@(ADDRESS a) { @ x; __GET(a, x, @); return x; } void p_getv_@(ADDRESS a, @ *r) { __GET(a + 8, *r, @); } void p_put_@(ADDRESS a, @ x) { __PUT(a, x, @); } void p_putx_@(ADDRESS a, ADDRESS b) { __PUT(a + 2 * b, (@)1, @); }'.replace('@', t))
        pr.append('void p_getf_@(@ *r) { __GET(fadr(), *r, @); }'.replace('@', t))
    pr.append('void p_gets(SYSTEM_PTR a, INT32 *r) { __GET((ADDRESS)a, *r, INT32); } INT32 p_getn(INT32 a) { INT32 x; __GET((ADDRESS)a + 4, x, INT32); return x; }')
    pr.append('INT64 p_vald(double d) { return __VAL(INT64, d); } double p_valr(INT64 d) { return __VAL(double, d); } UINT32 p_val32(INT32 x) { return __VAL(UINT32, x); } INT8 p_val8(INT32 x) { return __VAL(INT8, x); } INT32 p_valp(struct {INT32 a, b;} *p) { return __VAL(INT32, p->b); } INT32 p_vala(INT32 *p, INT64 i) { return __VAL(INT32, p[i]); }')
    pr.append('void p_move(ADDRESS s, ADDRESS d, INT32 n) { __MOVE(s, d, n); } void p_move2(ADDRESS s, ADDRESS d, INT32 n) { __MOVE(s + 1, d + 2, n + n); } void p_moveb(char *s, char *d) { __MOVE(s, d, 24); }')
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg); aw = rt.ptrw; A = aw // 8
        # ---- traps
        def outs(fn, args, bounds=()):
            e = rt.eng()
            for n, b in bounds: e.bounds[n] = b
            e.handlers['Modules_AssertFail'] = lambda eng, st, v, ins: ('end', 'assert', eng.norm(st, eng.topoly(st, v[0])).const())
            e.handlers['Modules_Halt'] = lambda eng, st, v, ins: ('end', 'halt', eng.norm(st, eng.topoly(st, v[0])))
            return e, guard(ctx, rt.call, e, fn, args)
        def hv(o): return o.val.const() if isinstance(o.val, Poly) else o.val
        e = rt.eng(); x = e.isym('x', 32)
        e2, os = outs('p_halt', [x], [('x', (-(1 << 31), (1 << 31) - 2))]); w = rt.where('__HALT')
        for o in os: ctx.check(o.kind == 'halt' and o.val - P('x') - 1 == 0, 'halt', 'var/' + lab, w, 'HALT(x + 1) stops with %s' % o, sample='HALT(x+1) -> Modules.Halt(x+1)')
        _, os = outs('p_haltc', [])
        for o in os: ctx.check(o.kind == 'halt' and hv(o) == -128, 'halt', 'const/' + lab, w, 'HALT(-128) stops with %s' % o, sample='HALT(-128)')
        _, os = outs('p_haltm', [])
        for o in os:
            n = [x[1] for x in o.st.events if x[0] == 'call']
            ctx.check((o.kind == 'halt' and hv(o) == 7 and n == ['cond']) or (o.kind == 'ret' and n == ['cond', 'after']), 'halt', 'branch/%s/%s' % (o.kind, lab), w, 'HALT in one branch of an IF: %s with calls %s' % (o, n), sample='HALT is one statement')
        w = rt.where('__ASSERT')
        for fn, sy, code in (('p_as', ('a', 'b'), 3), ('p_asn', ('a',), 0), ('p_asn2', ('a', 'b'), 255), ('p_ascall', (), 5)):
            e = rt.eng(); args = [e.isym(n, 32) for n in sy]
            e2, os = outs(fn, args, [(n, e.bounds[n]) for n in sy])
            for o in os:
                for c in cases(e2, o.st, [P(n) for n in sy] + [-P(n) for n in sy] + ([P('a') - P('b'), P('b') - P('a')] if fn == 'p_asn2' else [])):
                    n = [x[1] for x in c.events if x[0] == 'call']
                    z = lambda q: e2.entails(c, q) and e2.entails(c, -q)
                    if fn == 'p_as': true = not (z(P('a')) and z(P('b')))
                    elif fn == 'p_asn': true = not z(P('a'))
                    elif fn == 'p_asn2': true = z(P('a') - P('b'))
                    else: true = None
                    if true is None:
                        ok = n.count('cond') == 1 and ((o.kind == 'assert' and o.val == code and 'after' not in n and condval(e2, c) == 0) or (o.kind == 'ret' and n == ['cond', 'after'] and condval(e2, c) != 0))
                    elif true: ok = o.kind == 'ret' and n == ['after']
                    else: ok = o.kind == 'assert' and o.val == code and not n
                    ctx.check(ok, 'assert', '%s/%s/%s' % (fn[2:], true, lab), w, 'ASSERT with a condition that is %s: %s, calls %s (%s)' % (true, o, n, describe(e2, c, ())), sample='ASSERT(%s, %d) -> %s' % (true, code, 'goes on' if o.kind == 'ret' else 'AssertFail(%d)' % code))
        for fn, code, wn in (('p_ret', -3, '__RETCHK'), ('p_retd', -3, '__RETCHK'), ('p_retp', -3, '__RETCHK'), ('p_case', -4, '__CASECHK'), ('p_with', -7, '__WITHCHK')):
            e = rt.eng(); nm = ['a', 'b'][:len(rt.m.fns[fn].params)]; args = [e.isym(n, 32) if fn != 'p_retp' else V(aw, e.sym(n, 0, 1 << 30)) for n in nm]
            e2, os = outs(fn, args, [(n, e.bounds[n]) for n in nm])
            for o in os:
                pts = [P('a'), -P('a')] if fn.startswith('p_ret') else [P('a') - q for q in (1, 2, 7)] + [q - P('a') for q in (1, 2, 7)] if fn == 'p_case' else [P('a'), -P('a'), P('b'), -P('b')]
                for c in cases(e2, o.st, pts):
                    z = lambda q: e2.entails(c, q) and e2.entails(c, -q)
                    due = z(P('a')) if fn.startswith('p_ret') else not any(z(P('a') - q) for q in (1, 2, 7)) if fn == 'p_case' else z(P('a')) and z(P('b'))
                    n = [x[1] for x in c.events if x[0] == 'call']
                    if due: ok = o.kind == 'halt' and hv(o) == code and not n
                    else: ok = o.kind == 'ret' and len(n) == (0 if fn.startswith('p_ret') else 1)
                    ctx.check(ok, 'implicit', '%s/%s/%s' % (fn[2:], due, lab), rt.where(wn), '%s (%s): %s, calls %s (%s)' % (wn, 'due' if due else 'not due', o, n, describe(e2, c, ())), sample='%s: HALT(%d) exactly when reached' % (wn, code))
        # ---- GET / PUT
        for t, wd, k in TY:
            sz = (wd or aw) // 8; ty = ('ptr',) if k == 'p' else ('f',) if k == 'f' else ('d',) if k == 'd' else ('i', wd)
            w = rt.where('__GET')
            for fn in ('p_get_', 'p_getv_', 'p_getf_'):
                e = rt.eng(); a = e.psym('a'); r = e.psym('r'); st = State()
                if fn == 'p_getf_': e.handlers['fadr'] = lambda eng, s, v, ins: (setattr(s, 'events', s.events + [('call', 'fadr', (), ins)]), V(aw, P('a')))[1]
                off = 8 if fn == 'p_getv_' else 0
                want = e.loadmem(st, P('a') + off, ty, sz, st.mem)
                for o in guard(ctx, rt.call, e, fn + t, [a] if fn == 'p_get_' else [a, r] if fn == 'p_getv_' else [r], st):
                    got = o.val if fn == 'p_get_' else e.loadmem(o.st, P('r'), ty, sz, o.st.mem)
                    wr = [x for x in o.st.mem if not (x[1] or '').startswith('&')]
                    ok = o.kind == 'ret' and same(e, o.st, got, want, sz) and (not wr if fn == 'p_get_' else len(wr) == 1 and wr[0][1] == 'r' and wr[0][3] == sz and e.norm(o.st, wr[0][2]) == 0)
                    n = [x for x in o.st.events if x[0] == 'call']
                    if fn == 'p_getf_': ok = ok and len(n) == 1
                    ctx.check(ok, 'get', '%s%s/%s' % (fn[2:], t, lab), w, 'SYSTEM.GET of a %s: %s, writes %s, calls %s' % (t, got, wr, n), sample='GET(a, x): the %d bytes at a' % sz)
            w = rt.where('__PUT')
            e = rt.eng(); a = e.psym('a'); x = F(e.sym('v')) if k in 'fd' else e.psym('v') if k == 'p' else e.isym('v', wd); b = V(aw, e.sym('b', 0, 1 << 20))
            if k == 'f': x.single = True
            for fn in ('p_put_', 'p_putx_'):
                for o in guard(ctx, rt.call, e, fn + t, [a, x if fn == 'p_put_' else b]):
                    wr = [q for q in o.st.mem if not (q[1] or '').startswith('&')]
                    off = C(0) if fn == 'p_put_' else 2 * P('b')
                    ok = o.kind == 'ret' and len(wr) == 1 and wr[0][0] == 'w' and wr[0][1] == 'a' and wr[0][3] == sz and e.norm(o.st, wr[0][2] - off) == 0 and (fn == 'p_putx_' or same(e, o.st, wr[0][4], x, sz))
                    ctx.check(ok, 'put', '%s%s/%s' % (fn[2:], t, lab), w, 'SYSTEM.PUT of a %s writes %s' % (t, wr), sample='PUT(a, x): the %d bytes at a, nothing else' % sz)
        # ---- VAL
        w = rt.where('__VAL'); e = rt.eng()
        for fn, mk, chk in (('p_val32', lambda: [e.isym('x', 32)], lambda e, st, v, a: e.same(st, v, a[0])), ('p_val8', lambda: [e.isym('x', 32)], lambda e, st, v, a: e.bits(st, v) == e.bits(st, a[0])[:8])):
            a = mk()
            for o in guard(ctx, rt.call, e, fn, a):
                ctx.check(o.kind == 'ret' and chk(e, o.st, o.val, a), 'val', '%s/%s' % (fn[2:], lab), w, 'SYSTEM.VAL changes the bits: %s -> %s' % (a, o.val), sample='VAL keeps the bits')
        for fn, src in (('p_vald', 'F'), ('p_valr', 'I')):
            e = rt.eng(); a = F(e.sym('v')) if src == 'F' else e.isym('v', 64)
            for o in guard(ctx, rt.call, e, fn, [a]):
                ok = o.kind == 'ret' and (isinstance(o.val, V) and o.val.p is not None and str(o.val.p) == 'bitsof(%s,%s)' % a.key() if src == 'F' else isinstance(o.val, F) and str(o.val.k) == 'realof(v)' and not o.val.f)
                ctx.check(ok, 'val', '%s/%s' % (fn[2:], lab), w, 'SYSTEM.VAL between a LONGREAL and a 64 bit integer converts instead of keeping the bits: %s -> %s' % (a, o.val), sample='VAL keeps the bits of a LONGREAL')
        e = rt.eng(); p = e.psym('p'); i = e.isym('i', 64); e.bounds['i'] = (0, 1 << 20); st = State()
        for fn, args, off in (('p_valp', [p], C(4)), ('p_vala', [p, i], P('i') * 4)):
            want = e.loadmem(st, P('p') + off, ('i', 32), 4, st.mem)
            for o in guard(ctx, rt.call, e, fn, args, st.clone()):
                ctx.check(o.kind == 'ret' and e.same(o.st, o.val, want), 'val', '%s/%s' % (fn[2:], lab), w, 'SYSTEM.VAL of a component yields %s instead of %s' % (o.val, want), sample='VAL of a component')
        # ---- MOVE
        w = rt.where('__MOVE'); e = rt.eng(); s_, d = e.psym('s'), e.psym('d'); n = V(32, e.sym('n', 0, 1 << 20))
        for fn, args, so, do, nn in (('p_move', [s_, d, n], 0, 0, P('n')), ('p_move2', [s_, d, n], 1, 2, P('n') * 2), ('p_moveb', [s_, d], 0, 0, C(24))):
            for o in guard(ctx, rt.call, e, fn, args):
                st = o.st.clone(); bad = None
                j = e.sym('jj', 0, 1 << 22)
                wr = [x for x in st.mem if not (x[1] or '').startswith('&')]
                if any(x[1] != 'd' for x in wr): bad = 'writes %s' % (wr,)
                for inside in (True, False):
                    q = st.clone()
                    if bad or not e.add(q, nn - 1 - j if inside else j - nn): continue
                    for y, v in split(e, lambda z: e.loadmem(z, P('d') + do + j, ('i', 8), 1, z.mem), q):
                        if e.infeasible(y): continue
                        want = e.loadmem(y, P('s') + so + j, ('i', 8), 1, []) if inside else e.loadmem(y, P('d') + do + j, ('i', 8), 1, [])
                        if not e.same(y, v, want): bad = 'byte %s %s the block is %s, not %s' % (j, 'inside' if inside else 'behind', v, want)
                if not bad:
                    v = e.loadmem(st, P('d') + do - 1, ('i', 8), 1, st.mem)
                    if not e.same(st, v, e.loadmem(st, P('d') + do - 1, ('i', 8), 1, [])): bad = 'the byte before the block is changed'
                ctx.check(o.kind == 'ret' and bad is None, 'move', '%s/%s' % (fn[2:], lab), w, 'SYSTEM.MOVE: %s' % bad, sample='d[j] = s[j] for 0 <= j < n, nothing else')
    for r, n in (('halt', 9), ('assert', 20), ('implicit', 30), ('get', 90), ('put', 60), ('val', 18), ('move', 9)): ctx.floor(r, n)
def same(e, st, a, b, sz):
    if isinstance(a, F) or isinstance(b, F): return isinstance(a, F) and isinstance(b, F) and a.key() == b.key()
    return e.same(st, V(sz * 8, a.p, a.b), V(sz * 8, b.p, b.b))
def condval(e, st):
    ev = [x for x in st.events if x[0] == 'call' and x[1] == 'cond'][0]
    # value returned by the call: the symbol is constrained by the path
    r = [x for x in sorted({s for f in st.trail if isinstance(f, Poly) for s in f.syms()}) if x.startswith('cond')]
    if not r: return None
    p = P(r[0])
    return 0 if e.entails(st, p) and e.entails(st, -p) else 1

"""Type tests and type guards.  The descriptors are set up by __INITYP itself and the test is evaluated on the result, for every pair of
levels, so that the two sides are judged against each other and not against a layout: X is a base of T at level j exactly if X is the
type at level j of T's chain of bases.  Guards yield their operand on the types the test accepts and stop otherwise."""
from ._c import *
LEVEL = 'other'
DECL = '''
typedef struct T { INT64 a; void *p; } T; typedef struct B { INT64 a; } B; typedef struct X { INT64 a; void *p; } X;
ADDRESS *T__typ, *B__typ, *X__typ; __TDESC(T, 1, 1) = {__TDFLDS("T", sizeof(T)), {8, -2 * (ADDRESS)sizeof(ADDRESS)}};
'''
def setup(rt, init=True):
    e = rt.eng(mutable={'T__typ', 'B__typ', 'X__typ'}); st = State()
    for g in ('B__typ', 'X__typ'): st.mem = st.mem + [('w', '@' + g, C(0), rt.ptrw // 8, e.psym(g), None)]
    for h in ('Heap_REGTYP', 'SYSTEM_INHERIT'): e.handlers[h] = lambda eng, st, v, ins: None
    return e, st
def run(ctx):
    pr = [DECL]; ML = 16
    for k in range(ML):
        pr.append('int p_init_%d(void *m) { __INITYP(T, B, %d); return 0; }' % (k, k))
        for j in range(ML):
            n = '%d_%d' % (k, j)
            pr.append('int p_is_%s(void *m) { int r = __IS(B__typ, X, %d) ? 2 : 0; __INITYP(T, B, %d); return r | (__IS(T__typ, X, %d) ? 1 : 0); }' % (n, j, k, j))
            if (k + j) % 5 == 0 or abs(k - j) < 2:
                pr.append('#define SET(q) *(((ADDRESS**)(q))-1) = T__typ\n' if len(pr) < 6 else '')
                pr.append('void *p_gp_%s(void *m, X *p) { __INITYP(T, B, %d); *(((ADDRESS**)(p))-1) = T__typ; return __GUARDP(p, X, %d); }' % (n, k, j))
                pr.append('void *p_ga_%s(void *m, void *p) { __INITYP(T, B, %d); *(((ADDRESS**)(p))-1) = T__typ; return __GUARDA(p, X, %d); }' % (n, k, j))
                pr.append('void *p_gr_%s(void *m, X *r) { ADDRESS *r__typ; __INITYP(T, B, %d); r__typ = T__typ; return &(__GUARDR(r, X, %d)); }' % (n, k, j))
                pr.append('INT64 p_gpf_%s(void *m, X **p) { __INITYP(T, B, %d); *(((ADDRESS**)(*p))-1) = T__typ; return __GUARDP(*p, X, %d)->a; }' % (n, k, j))
                pr.append('int p_isp_%s(void *m, X **p) { int r = __IS(B__typ, X, %d) ? 2 : 0; __INITYP(T, B, %d); *(((ADDRESS**)(*p))-1) = T__typ; return r | (__ISP(*p, X, %d) && 1 ? 1 : 0); }' % (n, j, k, j))
                pr.append('int p_nis_%s(void *m, X *p) { int r = __IS(B__typ, X, %d) ? 2 : 0; ADDRESS *t__typ; __INITYP(T, B, %d); t__typ = T__typ; return r | (!__IS(t__typ, X, %d) ? 0 : 1); }' % (n, j, k, j))
    pr.append('void p_eqp(X *p, X *q) { __GUARDEQP(p, X) = *q; } void p_eqpp(X **p, X *q) { __GUARDEQP(*p, X) = *q; } void p_eqr(X *r, ADDRESS *r__typ, X *q) { __GUARDEQR(r, r__typ, X) = *q; } void *p_typeof(void *p) { return __TYPEOF(p); } void *p_typeof2(void *p) { return *(((ADDRESS**)p)-1); }')
    TX = {'is': '__IS', 'isp': '__ISP', 'nis': '__IS', 'gp': '__GUARDP', 'ga': '__GUARDA', 'gr': '__GUARDR', 'gpf': '__GUARDP'}
    def job(ctx, lab, cfg, part):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg); aw = rt.ptrw
        for k in part:
            for j in range(ML):
                n = '%d_%d' % (k, j)
                for t in ('is', 'isp', 'nis'):
                    fn = 'p_%s_%s' % (t, n)
                    if fn not in rt.m.fns: continue
                    e, st = setup(rt)
                    for o in guard(ctx, rt.call, e, fn, [e.psym('m')] + ([] if t == 'is' else [e.psym('p')]), st):
                        w = rt.where(TX[t], '__INITYP')
                        if o.kind != 'ret': ctx.check(False, 'type-test', '%s/%s' % (fn[2:], lab), w, 'the type test ends in HALT(%s)' % o.val); continue
                        v = e.norm(o.st, e.window(o.st, o.val, True)).const()
                        T = e.loadmem(o.st, P('@T__typ'), ('ptr',), aw // 8, o.st.mem).p; eq = P('X__typ') - T
                        for c in cases(e, o.st, [eq, -eq]):
                            same = e.known(c, eq) and e.known(c, -eq)
                            if e.infeasible(c): continue
                            if v is None: bad = 'yields %s' % o.val
                            elif j == k: bad = None if bool(v & 1) == bool(same) else 'yields %d for the type itself = %s' % (v & 1, bool(same))
                            elif j > k: bad = None if not v & 1 else 'yields TRUE above the level of the type'
                            else: bad = None if (v & 1) == v >> 1 else 'yields %d where its base type yields %d' % (v & 1, v >> 1)
                            ctx.check(bad is None, 'type-test', '%s/%s' % (fn[2:], lab), w, 'test of a type of level %d against level %d: %s (%s)' % (k, j, bad, describe(e, c, ())), sample='T (level %d) IS X (level %d) iff %s' % (k, j, 'T = X' if j == k else 'never' if j > k else 'base of T IS X'))
                for t in ('gp', 'ga', 'gr', 'gpf'):
                    fn = 'p_%s_%s' % (t, n)
                    if fn not in rt.m.fns: continue
                    # which outcomes does the plain test have?  the guard must return on the same condition
                    e, st = setup(rt); w = rt.where(TX[t], '__IS'); p = e.psym('p'); obj = P('p')
                    if t == 'gpf': e.psym('obj'); st.mem = st.mem + [('w', 'p', C(0), aw // 8, V(aw, P('obj')), None)]
                    for o in guard(ctx, rt.call, e, fn, [e.psym('m'), p], st):
                        # evaluate the accepted condition in the final memory: slot j of the descriptor
                        truth = testval(e, rt, 'p_is_%s' % n, o.st)
                        for c, ok in truth:
                            if ok and o.kind != 'ret': bad = 'stops with HALT(%s) although the dynamic type is an extension' % o.val
                            elif ok and t != 'gpf' and not e.same(c, o.val, V(aw, P('p'))): bad = 'yields %s instead of its operand' % o.val
                            elif ok and t == 'gpf' and not e.same(c, o.val, V(64, e.defsym('Mobj', (C(0),), -1 << 63, (1 << 63) - 1, ('w' if aw == 64 else 8,)))): bad = 'the field read is %s, not that of the operand' % o.val
                            elif not ok and o.kind == 'ret': bad = 'accepts an object of another type'
                            elif not ok and o.val != -5: bad = 'stops with HALT(%s) instead of HALT(-5)' % o.val
                            else: bad = None
                            ctx.check(bad is None, 'type-guard', '%s/%s' % (fn[2:], lab), w, 'guard of a type of level %d to level %d: %s (%s)' % (k, j, bad, describe(e, c, ())), sample='%s level %d -> %d' % (TX[t], k, j))
        if 0 in part:
            for fn in ('p_eqp', 'p_eqpp', 'p_eqr'):
                e = rt.eng(mutable={'X__typ'}); X = e.psym('X__typ'); st = State(); st.mem = [('w', '@X__typ', C(0), aw // 8, X, None)]; size = 16 if aw == 64 else 12
                p = e.psym('p'); q = e.psym('q'); tag = e.psym('tag')
                a = [p, q] if fn != 'p_eqr' else [p, tag, q]
                if fn == 'p_eqpp': e.psym('pp'); st.mem = st.mem + [('w', 'pp', C(0), aw // 8, p, None)]; a = [V(aw, P('pp')), q]
                if fn != 'p_eqr': st.mem = st.mem + [('w', 'p', C(-aw // 8), aw // 8, tag, None)]
                w = rt.where('__GUARDEQR' if fn == 'p_eqr' else '__GUARDEQP'); n0 = len(st.mem); seen = set()
                for o in guard(ctx, rt.call, e, fn, a, st):
                    eq = P('tag') - P('X__typ')
                    for c in cases(e, o.st, [eq, -eq]):
                        if e.infeasible(c): continue
                        ok = e.known(c, eq) and e.known(c, -eq); seen.add(bool(ok))
                        wr = [x for x in o.st.mem[n0:] if x[1] == 'p']
                        if ok:
                            bad = None if o.kind == 'ret' else 'stops although the types agree'
                            for i in range(0, size, 4):
                                try: v = e.loadmem(c, P('p') + i, ('i', 32), 4, o.st.mem)
                                except CabsError as x: v = None
                                if bad is None and (v is None or not e.same(c, v, V(32, e.defsym('Mq', (C(i),), -1 << 31, (1 << 31) - 1, (4,) if aw == 64 else ('w',))))): bad = 'bytes %d..%d of the record are not assigned' % (i, i + 3)
                        else: bad = 'assigns to a record of another type' if o.kind == 'ret' else 'HALT(%s) instead of HALT(-6)' % o.val if o.val != -6 else 'the record is written before the check' if wr else None
                        ctx.check(bad is None, 'assign-guard', '%s/%s' % (fn[2:], lab), w, 'assignment guard: %s' % bad, sample='%s: assigns iff the dynamic type is the static type, else HALT(-6)' % fn[2:])
                ctx.check(seen == {True, False}, 'assign-guard-cases', '%s/%s' % (fn[2:], lab), w, 'only %s reachable' % seen)
            e = rt.eng(); a = guard(ctx, rt.call, e, 'p_typeof', [e.psym('p')]); b = guard(ctx, rt.call, e, 'p_typeof2', [e.psym('p')])
            ctx.check(len(a) == len(b) == 1 and e.same(a[0].st, a[0].val, b[0].val), 'type-tag', 'typeof/%s' % lab, rt.where('__TYPEOF'), 'the dynamic type is %s, not the word in front of the object (Heap.NEWREC puts the tag there)' % a[0].val, sample='__TYPEOF(p) = word at p - SIZE(ADDRESS)')
    def testval(e, rt, fn, st):
        """states refining st by the truth of 'T IS X at level j' on st's final memory"""
        k, j = map(int, fn.split('_')[2:]); aw = rt.ptrw // 8
        T = e.loadmem(st, P('@T__typ'), ('ptr',), aw, st.mem).p
        if j > k: return [(st, False)]
        off = level_slot(e, rt, j)
        v = e.loadmem(st, T + off, ('ptr',), aw, st.mem).p
        eq = v - P('X__typ'); r = []
        for c in cases(e, st, [eq, -eq]):
            if not e.infeasible(c): r.append((c, bool(e.known(c, eq) and e.known(c, -eq))))
        return r
    SLOT = {}
    def level_slot(e, rt, j):
        """offset of the level-j base from the type pointer, as __INITYP(T, B, j) establishes it: the place it writes T's own type pointer to"""
        if (rt.label, j) not in SLOT:
            f, st = setup(rt); o = guard(rt.ctx, rt.call, f, 'p_init_%d' % j, [f.psym('m')], st)
            o = [x for x in o if x.kind == 'ret']
            if not o: raise Broken('__INITYP never completes at level %d' % j)
            o = o[0]; T = f.loadmem(o.st, P('@T__typ'), ('ptr',), rt.ptrw // 8, o.st.mem).p; tb, toff = f.base(T)
            c = [x[2] for x in o.st.mem if x[0] == 'w' and x[1] == tb and isinstance(x[4], V) and x[4].p is not None and x[4].p - T == 0]
            if len(c) != 1: raise Broken('__INITYP does not enter the type into its own list of bases at level %d' % j)
            SLOT[(rt.label, j)] = c[0] - toff
        return SLOT[(rt.label, j)]
    parallel(ctx, [lambda c, lab=lab, cfg=cfg, k=k: job(c, lab, cfg, range(k, ML, 4)) for lab, cfg in configs(ctx) for k in range(4)])
    ctx.floor('type-test', 3 * 256); ctx.floor('type-guard', 3 * 4 * 60); ctx.floor('assign-guard', 18); ctx.floor('type-tag', 3)
    ctx.assume('type pointers are distinct from the odd marks of the collector; levels reach 15 (__MAXEXT is 16)')

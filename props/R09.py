"""Type descriptors and method tables: what __TDESC/__INITYP/__INITBP/SYSTEM_INHERIT set up is what __SEND, NEW and the collector rely on.
Hierarchies of declared descriptors are initialised and every call is resolved in the resulting abstract memory; inheritance is also
decided for a symbolic number of methods; block sizes are decided for every size from 1 to 200 bytes by congruence and bounds."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    # ---- hierarchies: (methods of base, methods of extension, overridden set, level)
    H = []
    for nb in range(0, 6):
        for nt in sorted({nb, nb + 1, nb + 4}):
            for ov in ((), (0,), (nb - 1,), tuple(range(nb)), tuple(range(0, nb, 2))):
                if all(0 <= x < nb for x in ov) and (nb, nt, ov) not in H: H.append((nb, nt, ov))
    pr = ['typedef struct B { INT64 a; } B; typedef struct T { INT64 a; void *p; } T; typedef struct C { INT64 a; void *p; } C; ADDRESS *B__typ, *T__typ, *C__typ;\n']
    pr += ['extern void b%d(void), t%d(void), c%d(void);' % (i, i, i) for i in range(12)]
    for h, (nb, nt, ov) in enumerate(H):
        new = list(ov) + list(range(nb, nt))
        init = '__INITYP(B, B, 0); ' + ' '.join('__INITBP(B, b%d, %d);' % (i, i) for i in range(nb)) + ' __INITYP(T, B, 1); ' + ' '.join('__INITBP(T, t%d, %d);' % (i, i) for i in new)
        d = '__TDESC(B, %d, 0) = {__TDFLDS("B", sizeof(B)), {-(ADDRESS)sizeof(ADDRESS)}}; __TDESC(T, %d, 1) = {__TDFLDS("T", sizeof(T)), {8, -2 * (ADDRESS)sizeof(ADDRESS)}}; __TDESC(C, %d, 1) = {__TDFLDS("C", sizeof(C)), {8, -2 * (ADDRESS)sizeof(ADDRESS)}};' % (nb + 1, nt + 1, nt + 1)
        for i in range(nt):
            pr.append('void p_send_%d_%d(void *m, T *p) { %s %s __INITYP(C, T, 2); __SEND(T__typ, %d, void(*)(T*), (p)); __SEND(C__typ, %d, void(*)(T*), (p));%s }' % (h, i, d, init, i, i, ' __SEND(B__typ, %d, void(*)(T*), (p));' % i if i < nb else ''))
    pr.append('void p_inherit(ADDRESS *t, ADDRESS *t0) { SYSTEM_INHERIT(t, t0); } void p_slot(ADDRESS *t, ADDRESS num) { __SEND(t, num, void(*)(void), ()); } void p_bp(ADDRESS *x__typ, ADDRESS proc, ADDRESS num) { __INITBP(x, proc, num); }')
    pr.append('INT32 p_args(ADDRESS *t, INT32 a, INT64 b) { return __SEND(t, 3, INT32(*)(INT32, INT64), (a, b)); }')
    # ---- descriptors for every size
    SZ = list(range(1, 72)) + [100, 128, 200, 1000, 4096]
    for n in SZ:
        pr.append('typedef struct S%d { char c[%d]; } S%d; ADDRESS *S%d__typ; __TDESC(S%d, 3, 2) = {__TDFLDS("S", %d), {16, 32, -3 * (ADDRESS)sizeof(ADDRESS)}}; __TDESC(Q%d, 1, 0) = {__TDFLDS("Q", %d), {-(ADDRESS)sizeof(ADDRESS)}}; typedef struct Q%d { char c[%d]; } Q%d; ADDRESS *Q%d__typ;' % (n, n, n, n, n, n, n, n + (1 if n % 2 else -1), n, n, n, n))
        pr.append('void p_size_%d(void *m) { __INITYP(S%d, S%d, 0); } void p_bad_%d(void *m) { __INITYP(Q%d, Q%d, 0); }' % (n, n, n, n, n, n))
    pr.append('void *p_new(void) { void *p; __NEW(p, S8); return p; } void *p_sysnew(INT32 n) { void *p; __SYSNEW(p, n + n); return p; }')
    def targets(e, o):
        r = []
        for ev in o.st.events:
            if ev[0] == 'icall': r.append((e.norm(o.st, ev[1]), ev[2]))
            elif ev[0] == 'call' and re.match(r'[btc]\d+$', ev[1]): r.append((P('@' + ev[1]), ev[2]))
        return r
    def regs(e, rt, hit):
        """Heap_REGTYP(m, adr) links the descriptor into the module's list: the word at adr is overwritten"""
        def h(eng, st, v, ins):
            st.events = st.events + [('reg', v)]
            b, off = eng.base(eng.topoly(st, v[1]))
            st.mem = st.mem + [('w', b, off, rt.ptrw // 8, V(rt.ptrw, P(eng.fresh('link', 1 << 16, 1 << 30))), None)]
            return None
        e.handlers['Heap_REGTYP'] = h
    def sends(ctx, lab, cfg, part):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for h in part:
            nb, nt, ov = H[h]
            for i in range(nt):
                fn = 'p_send_%d_%d' % (h, i); e = rt.eng(mutable={'B__typ', 'T__typ', 'C__typ'}); regs(e, rt, None)
                want = 't%d' % i if i >= nb or i in ov else 'b%d' % i
                exp = [want, want] + (['b%d' % i] if i < nb else [])
                w = rt.where('__SEND', 'SYSTEM_INHERIT', '__INITBP')
                for o in guard(ctx, rt.call, e, fn, [e.psym('m'), e.psym('p')]):
                    if o.kind != 'ret': bad = 'the initialisation stops with HALT(%s)' % o.val
                    else:
                        got = [g[0] for g in targets(e, o)]
                        bad = None if len(got) == len(exp) and all(e.norm(o.st, g - P('@' + x)) == 0 for g, x in zip(got, exp)) else 'calls through the extension, its own extension%s reach %s, not %s' % (' and the base' if i < nb else '', got, exp)
                        if bad is None and any(len(a) != 1 or not e.same(o.st, a[0], V(rt.ptrw, P('p'))) for _, a in targets(e, o)): bad = 'the receiver is not passed on'
                    ctx.check(bad is None, 'dispatch', '%d,%d,%s/%d/%s' % (nb, nt, ov, i, lab), w, 'base with %d methods, extension with %d overriding %s, method %d: %s' % (nb, nt, list(ov), i, bad), sample='base %d methods, extension %d, overriding %s: method %d -> %s' % (nb, nt, list(ov), i, want))
    def rest(ctx, lab, cfg):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg); A = rt.ptrw // 8; aw = rt.ptrw
        # slot address is the same for __SEND and __INITBP, for every number
        e = rt.eng(); t = e.psym('t'); num = V(aw, e.sym('num', 0, 1000)); w = rt.where('__SEND', '__INITBP')
        o = guard(ctx, rt.call, e, 'p_slot', [t, num]); tg = targets(e, o[0]) if len(o) == 1 else []
        ok = len(o) == 1 and len(tg) == 1
        d = e.defs.get(str(tg[0][0])) if ok else None
        off = d[1][0] if d and d[0] == 'Mt' else None
        ctx.check(off is not None, 'slot', 'send/%s' % lab, w, '__SEND does not call through one word of the descriptor: %s' % (tg,), sample='__SEND(t, num) calls the word at t %s' % off)
        o2 = guard(ctx, rt.call, e, 'p_bp', [t, e.psym('proc'), num])
        wr = [x for x in o2[0].st.mem if x[1] == 't']
        ok = len(o2) == 1 and len(wr) == 1 and off is not None and wr[0][2] - off == 0 and e.same(o2[0].st, wr[0][4], V(aw, P('proc')))
        ctx.check(ok, 'slot', 'initbp/%s' % lab, w, '__INITBP writes %s, __SEND reads the word at %s' % (wr, off), sample='__INITBP(t, num) writes the word __SEND(t, num) reads')
        e = rt.eng(); a, b = e.isym('a', 32), e.isym('b', 64)
        for o in guard(ctx, rt.call, e, 'p_args', [e.psym('t'), a, b]):
            ev = [x for x in o.st.events if x[0] == 'icall']
            ok = o.kind == 'ret' and len(ev) == 1 and len(ev[0][2]) == 2 and e.same(o.st, ev[0][2][0], a) and e.same(o.st, ev[0][2][1], b)
            ctx.check(ok, 'slot', 'args/%s' % lab, rt.where('__SEND'), 'arguments of a type-bound procedure call arrive as %s' % (ev,), sample='arguments passed in order, once')
        # inheritance for a symbolic number of methods
        if off is not None:
            e = rt.eng(); e.psym('t'); e.psym('t0'); w = rt.where('SYSTEM_INHERIT')
            g = rt.eng(mutable={'S8__typ'}); regs(g, rt, None); q = guard(ctx, rt.call, g, 'p_size_8', [g.psym('m')])[0].st; T = g.loadmem(q, P('@S8__typ'), ('ptr',), A, q.mem).p
            eom = g.norm(q, g.loadmem(q, T + off.subst('num', C(2)), ('i', aw), A, []).p).const()          # S8 is declared with two methods: what follows them
            if eom is None: raise Broken('the end mark of a method table is not a constant')
            try: outs = rt.call(e, 'p_inherit', [V(aw, P('t')), V(aw, P('t0'))])
            except CabsError as x: outs = []; ctx.notes.append('inheritance of a symbolic number of methods is not decided (%s), only that of the enumerated hierarchies' % x)
            for o in outs:
                if o.kind != 'ret': ctx.check(False, 'inherit', 'end/%s' % lab, w, 'ends in %s' % o); continue
                fa = [x for x in o.st.trail if isinstance(x, tuple) and x[0] == 'forall']; K = fa[0][2] if fa else C(0)
                wr = [x for x in o.st.mem if x[1] == 't']; bad = None
                if len(fa) > 1: raise Broken('SYSTEM_INHERIT with several loops is outside the model')
                def slot(base, q, mem): return e.loadmem(o.st, P(base) + e.subst(off, 'num', q), ('i', aw), A, mem)
                j = e.sym('jj', 0, None); st = o.st.clone()
                tst = st.clone()
                if e.add(tst, K - 1 - P('jj')) and not e.infeasible(tst):
                    v = e.loadmem(tst, P('t') + e.subst(off, 'num', P('jj')), ('i', aw), A, tst.mem); u = e.loadmem(tst, P('t0') + e.subst(off, 'num', P('jj')), ('i', aw), A, tst.mem)
                    if not e.same(tst, v, u): bad = 'method j < n of the extension is %s, not that of the base (%s)' % (v, u)
                try:
                    u = slot('t0', K, o.st.mem)
                    if bad is None and not e.same(o.st, u, V(aw, C(eom))): bad = 'copying stops at a word that is not the end mark'
                    v = slot('t', K, o.st.mem); x = e.defsym('Mt', (e.subst(off, 'num', K),), -(1 << (aw - 1)), (1 << (aw - 1)) - 1, ('w',))
                    if bad is None and not e.same(o.st, v, V(aw, x)): bad = 'the word after the last inherited method is overwritten with %s' % v
                    v = slot('t', C(-1), o.st.mem)
                    if bad is None and not e.same(o.st, v, V(aw, e.defsym('Mt', (e.subst(off, 'num', C(-1)),), -(1 << (aw - 1)), (1 << (aw - 1)) - 1, ('w',)))): bad = 'the word before method 0 is overwritten'
                except CabsError as x: bad = bad or 'the copied range cannot be related to the table (%s)' % x
                for _, k, K2, alts in fa:
                    for g in alts:
                        n = o.st.clone(); feas = all(e.add(n, p) for p in g if isinstance(p, Poly))
                        if not feas or e.infeasible(n): continue
                        u = e.loadmem(n, P('t0') + e.subst(off, 'num', P(k)), ('i', aw), A, []).p
                        if bad is None and not (e.entails(n, u - eom - 1) or e.entails(n, C(eom - 1) - u)): bad = 'copying goes on past the end mark'
                ctx.check(bad is None, 'inherit', '%s/%s' % ('some' if fa else 'none', lab), w, 'SYSTEM_INHERIT: %s' % bad, sample='all n methods of the base are copied up to the end mark, nothing else (%s)' % ('n >= 1' if fa else 'n = 0'))
        # sizes
        for n in SZ:
            e = rt.eng(mutable={'S%d__typ' % n, 'Q%d__typ' % n}); regs(e, rt, None); w = rt.where('__INITYP'); m = e.psym('m')
            for o in guard(ctx, rt.call, e, 'p_size_%d' % n, [m]):
                bad = None
                if o.kind != 'ret': bad = 'stops with HALT(%s) although the size is right' % o.val
                else:
                    T = e.loadmem(o.st, P('@S%d__typ' % n), ('ptr',), A, o.st.mem).p; tb, to = e.base(T)
                    def word(i): return e.norm(o.st, e.topoly(o.st, e.loadmem(o.st, T + i * A, ('i', aw), A, o.st.mem))).const()
                    blk = word(0); U = 4 * A
                    if blk is None: bad = 'the block size is not a known number'
                    elif blk % U: bad = 'the block size %d is not a multiple of the heap unit %d' % (blk, U)
                    elif blk < n + A: bad = 'a block of %d bytes does not hold the tag and %d bytes' % (blk, n)
                    elif blk >= n + A + U: bad = 'the block of %d bytes is larger than needed' % blk
                    elif (word(1), word(2), word(3)) != (16, 32, -3 * A): bad = 'the pointer table behind the block size is %s' % ((word(1), word(2), word(3)),)
                    rg = [x for x in o.st.events if x[0] == 'reg']
                    if bad is None and len(rg) != 1: bad = 'the type is registered %d times' % len(rg)
                    if bad is None and not e.same(o.st, rg[0][1][0], V(aw, P('m'))): bad = 'the type is registered with %s, not with its module' % rg[0][1][0]
                    if bad is None and e.base(e.topoly(o.st, rg[0][1][1]))[0] != tb: bad = 'the link registered lies outside the descriptor'
                    if bad is None:
                        lk = e.base(e.topoly(o.st, rg[0][1][1]))[1]; later = [x for x in o.st.mem if x[1] == tb]
                        idx = max(i for i, x in enumerate(later) if x[2] == lk and x[4].p is not None and 'link' in str(x[4].p))
                        for x in later[idx + 1:]:
                            if x[0] == 'w' and x[2] == lk: bad = 'the module\'s type list is cut by a later write'
                ctx.check(bad is None, 'descriptor', 'S%d/%s' % (n, lab), w, 'record of %d bytes: %s' % (n, bad), sample='record of %d bytes: block size a multiple of the unit, smallest one holding tag and fields' % n)
            for o in guard(ctx, rt.call, e, 'p_bad_%d' % n, [m]):
                ctx.check(o.kind == 'halt' and o.val == -15, 'descriptor-size', 'Q%d/%s' % (n, lab), w, 'a descriptor whose size differs from the C compiler\'s is accepted (%s)' % o, sample='size %d declared, %d actual: HALT(-15)' % (n + (1 if n % 2 else -1), n))
        for fn, callee, want in (('p_new', 'Heap_NEWREC', None), ('p_sysnew', 'Heap_NEWBLK', 2)):
            e = rt.eng(mutable={'S8__typ'}); x = e.isym('n', 32); new = e.psym('fresh'); e.bounds['n'] = (0, 1 << 29)
            e.handlers[callee] = lambda eng, st, v, ins: (setattr(st, 'events', st.events + [('alloc', v)]), V(aw, P('fresh')))[1]
            T = e.loadmem(State(), P('@S8__typ'), ('ptr',), A, [])
            for o in guard(ctx, rt.call, e, fn, [] if fn == 'p_new' else [x]):
                ev = [t for t in o.st.events if t[0] == 'alloc']
                ok = o.kind == 'ret' and len(ev) == 1 and len(ev[0][1]) == 1 and e.same(o.st, ev[0][1][0], T if fn == 'p_new' else V(aw, P('n') * 2)) and e.same(o.st, o.val, V(aw, P('fresh')))
                ctx.check(ok, 'allocate', '%s/%s' % (fn[2:], lab), rt.where('__NEW' if fn == 'p_new' else '__SYSNEW'), 'NEW asks for %s' % (ev,), sample='%s(%s) once, result assigned' % (callee, 'type pointer' if fn == 'p_new' else 'length'))
    parallel(ctx, [lambda c, lab=lab, cfg=cfg: rest(c, lab, cfg) for lab, cfg in configs(ctx)] + [lambda c, lab=lab, cfg=cfg, k=k: sends(c, lab, cfg, range(k, len(H), 3)) for lab, cfg in configs(ctx) for k in range(3)])
    ctx.floor('dispatch', 3 * 100); ctx.floor('descriptor', 3 * 70); ctx.floor('descriptor-size', 200); ctx.floor('slot', 9); ctx.floor('allocate', 6)
    ctx.assume('no procedure has the address 1, the end mark of method tables; an extension has at least the methods of its base (the compiler numbers them so)')

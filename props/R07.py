"""Strings and value arrays: the comparison of two strings, the bounded copy and the copies of value parameters.  The loops are summarised
by recurrences; the specification is checked on every way out of the loop, with what the loop established about all earlier characters."""
from ._c import *
LEVEL = 'other'
def char(e, base, off): return e.defsym('M' + base, (off if isinstance(off, Poly) else C(off),), 0, 255, (1,))
def foralls(st): return [t for t in st.trail if isinstance(t, tuple) and t[0] == 'forall']
def under(e, st, guards):
    n = st.clone()
    for g in guards:
        if isinstance(g, Poly):
            if not e.add(n, g): return None
        elif isinstance(g, tuple) and g[0] == 'bit': n.bitf[(g[1], g[2])] = g[3]
    return None if e.infeasible(n) else n
def nonzero(e, st, p): return e.entails(st, p - 1) or e.entails(st, -p - 1)
def zero(e, st, p): return e.entails(st, p) and e.entails(st, -p)
def run(ctx):
    pr = '''
    typedef CHAR A10[10]; typedef INT32 A7[7]; typedef struct R { INT64 a; INT16 b; } R; typedef R AR[3];
    int p_cmp(CHAR *a, CHAR *b) { return __STRCMP(a, b); }
    int p_lt(CHAR *a, CHAR *b) { return __STRCMP(a, b) < 0; } int p_ge(CHAR *a, CHAR *b) { return __STRCMP(a, b) >= 0; }
    int p_eq(CHAR *a, CHAR *b) { return __STRCMP(a, b) == 0; } int p_ne(CHAR *a, CHAR *b) { return __STRCMP(a, b) != 0; }
    int p_gt(CHAR *a, CHAR *b) { return __STRCMP(a, b) > 0; } int p_le(CHAR *a, CHAR *b) { return __STRCMP(a, b) <= 0; }
    void p_copyv(CHAR *s, CHAR *d, ADDRESS n) { __COPY(s, d, n); }
    void p_copyl(CHAR *s, CHAR *d, ADDRESS n) { __COPY(s, d, ((LONGINT)(n))); }
    ''' + ''.join('void p_copyc%d(CHAR *s, CHAR *d) { __COPY(s, d, %d); } ' % (n, n) for n in (1, 2, 3, 10, 256)) + '''
    void *p_dup8(CHAR *x, ADDRESS n, CHAR **r) { __DUP(x, n, CHAR); *r = x; return x; }
    void *p_dup32(INT32 *x, ADDRESS n, INT32 **r) { __DUP(x, n, INT32); *r = x; return x; }
    void *p_dup64(INT64 *x, ADDRESS n, INT64 **r) { __DUP(x, n, INT64); *r = x; return x; }
    void *p_dupr(R *x, ADDRESS n, R **r) { __DUP(x, n, R); *r = x; return x; }
    void *p_dup2(INT16 *x, ADDRESS n, INT16 **r, ADDRESS m) { __DUP(x, n * m, INT16); *r = x; return x; }
    void *p_arr10(CHAR *v, CHAR **r) { A10 v__copy; __DUPARR(v, A10); *r = v; return v; }
    void *p_arr7(INT32 *v, INT32 **r) { A7 v__copy; __DUPARR(v, A7); *r = v; return v; }
    void *p_arrr(R *v, R **r) { AR v__copy; __DUPARR(v, AR); *r = v; return v; }
    '''
    REL = {'p_lt': lambda s: s < 0, 'p_ge': lambda s: s >= 0, 'p_eq': lambda s: s == 0, 'p_ne': lambda s: s != 0, 'p_gt': lambda s: s > 0, 'p_le': lambda s: s <= 0}
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, pr, label=lab, **cfg); aw = rt.ptrw
        # ---- comparison
        for fn in ['p_cmp'] + list(REL):
            e = rt.eng(unsigned={'a', 'b'}); w = rt.where('__str_cmp', '__STRCMP'); seen = set()
            for o in guard(ctx, rt.call, e, fn, [e.psym('a'), e.psym('b')]):
                if o.kind != 'ret': ctx.check(False, 'string-compare', '%s/%s/%s' % (fn[2:], lab, o.kind), w, 'the comparison ends in %s' % o); continue
                fa = foralls(o.st); st = o.st; K = C(0)
                if len(fa) > 1: raise Broken('string comparison with several loops is outside the model')
                if fa:
                    _, k, K, alts = fa[0]
                    for g in alts:
                        n = under(e, st, g)
                        if n is None: continue
                        a, b = char(e, 'a', P(k)), char(e, 'b', P(k))
                        ok = nonzero(e, n, a) and e.entails(n, a - b) and e.entails(n, b - a)
                        ctx.check(ok, 'compare-continues', '%s/%s' % (fn[2:], lab), w, 'the comparison goes past position k although the characters there %s' % ('may be 0X' if not nonzero(e, n, a) else 'may differ'), sample='comparison continues only past equal non-zero characters')
                a, b = char(e, 'a', K), char(e, 'b', K)
                for c in cases(e, st, [a - 1, a - b, b - a]):
                    an = e.known(c, a - 1); s = 0 if e.known(c, a - b) and e.known(c, b - a) else (1 if e.known(c, a - b) else -1)
                    if s == 0 and an: ctx.check(False, 'string-compare', '%s/%s/stops-early' % (fn[2:], lab), w, 'the comparison stops at equal non-zero characters (%s)' % describe(e, c, ())); continue
                    seen.add((bool(fa), s))
                    v = o.val
                    for q in ([0] if fn == 'p_cmp' else [1]):
                        if fn == 'p_cmp': ok = all(r for _, r in split(e, lambda t: (lambda x: e.entails(t, x - 1) if s > 0 else e.entails(t, -x - 1) if s < 0 else zero(e, t, x))(e.window(t, v, True)), c)); want = {1: '> 0', -1: '< 0', 0: '= 0'}[s]
                        else: ok = all(r for _, r in split(e, lambda t: e.same(t, v, V(v.w, C(int(REL[fn](s))))), c)); want = str(int(REL[fn](s)))
                        ctx.check(ok, 'string-compare', '%s/%s/%s' % (fn[2:], lab, {1: 'greater', -1: 'less', 0: 'equal'}[s]), w, 'strings whose first difference is a[n] %s b[n] (unsigned, 0X lowest) compare as %s, specified %s (%s)' % ({1: '>', -1: '<', 0: '='}[s], v, want, describe(e, c, ())), sample='%s: a[n] %s b[n] after %s equal characters gives %s' % (fn[2:], {1: '>', -1: '<', 0: '='}[s], K, want))
            ctx.check(len(seen) >= 5, 'compare-cases', '%s/%s' % (fn[2:], lab), w, 'only the outcomes %s are possible; less, equal and greater must each be reachable at the first and at later positions' % sorted(seen), sample='less / equal / greater all reachable')
        # ---- bounded copy
        for fn in ['p_copyv', 'p_copyl'] + ['p_copyc%d' % n for n in (1, 2, 3, 10, 256)]:
            e = rt.eng(unsigned={'s', 'd'}); w = rt.where('__COPY'); a = [e.psym('s'), e.psym('d')]
            if fn in ('p_copyv', 'p_copyl'): n = e.sym('n', 1, (1 << 31) - 1); a.append(V(aw, n))
            else: n = C(int(fn[7:]))
            outs = guard(ctx, rt.call, e, fn, a)
            for o in outs:
                if o.kind != 'ret': ctx.check(False, 'copy', '%s/%s/%s' % (fn[2:], lab, o.kind), w, 'the copy ends in %s' % o); continue
                fa = foralls(o.st)
                cand = [C(0)] + [x for t in fa for x in (t[2], t[2] + 1, t[2] - 1)] + [n - 1] + [C(i) for i in range(1, 4)]
                why = None
                for m in cand:
                    r = copyspec(e, o.st, m, n, fa, char, under, nonzero, zero)
                    if r is None: why = None; break
                    why = r if why is None else why + '; or m=%s: %s' % (m, r)
                ctx.check(why is None, 'copy', '%s/%s' % (fn[2:], lab), w, 'COPY into an array of %s characters: %s (%s)' % (n, why, describe(e, o.st, ())), sample='COPY into %s characters: d[0..m-1] = s[0..m-1], d[m] = 0X, nothing else written (%s)' % (n, describe(e, o.st, ())))
        # ---- value parameters
        for fn, es, dim in (('p_dup8', 1, 1), ('p_dup32', 4, 1), ('p_dup64', 8, 1), ('p_dupr', None, 1), ('p_dup2', 2, 2), ('p_arr10', 10, 0), ('p_arr7', 28, 0), ('p_arrr', None, 0)):
            e = rt.eng(); R = e.psym('src'); r = e.psym('r'); n = e.sym('n', 1, 1 << 20); m = e.sym('m', 1, 1 << 8); w = rt.where('__DUP' if dim else '__DUPARR')
            if es is None: es = (16 if lab != 'ILP32' else 12) * (1 if dim else 3)
            a = [R, r] if not dim else [R, V(aw, n), r] + ([V(aw, m)] if dim == 2 else [])
            size = C(es) if not dim else n * es if dim == 1 else n * m * es
            for o in guard(ctx, rt.call, e, fn, a):
                al = [x for x in o.st.events if x[0] == 'alloca']; bad = None
                if o.kind != 'ret': bad = 'ends in %s' % o
                else:
                    b, off = e.base(e.topoly(o.st, o.val))
                    if b == 'src': bad = 'the callee works on the caller\'s array'
                    elif off != 0: bad = 'the copy is not addressed at its start'
                    elif dim and not (len(al) == 1 and e.entails(o.st, al[0][1] - size)): bad = 'the room allocated is %s bytes, needed %s' % (al[0][1] if al else None, size)
                    else:
                        j = e.sym('j', 0, None); st = o.st.clone(); e.add(st, size - 1 - P('j'))
                        try: v = e.loadmem(st, P(b) + P('j'), ('i', 8), 1, st.mem)
                        except (Fork, CabsError) as f: v = None
                        if v is None or v.p != e.defsym('Msrc', (P('j'),), -128, 127, (1,)): bad = 'byte j of the copy is %s, not byte j of the argument' % v
                        else:
                            for x in o.st.mem:
                                if x[1] == 'src' and x[0] != 'z': bad = 'the argument itself is written'
                ctx.check(bad is None, 'value-copy', '%s/%s' % (fn[2:], lab), w, 'value parameter copy of %s bytes: %s' % (size, bad), sample='value copy of %s bytes' % size)
    ctx.floor('string-compare', 100); ctx.floor('compare-continues', 3 * 7); ctx.floor('copy', 3 * 14); ctx.floor('value-copy', 24)
    ctx.assume('source and destination of COPY do not overlap; array lengths are below 2^31; strings compared are terminated within their arrays')
def copyspec(e, st, m, n, fa, char, under, nonzero, zero):
    """None if the final memory is: d[0..m-1] = s[0..m-1] all non-zero, d[m] = 0, (s[m] = 0 or m = n-1), nothing written outside d[0..n-1]"""
    if not (e.entails(st, m) and e.entails(st, n - 1 - m)): return 'the terminator is not placed within the array'
    try:
        v = e.loadmem(st, P('d') + m, ('i', 8), 1, st.mem)
        if not e.same(st, v, V(8, C(0))): return 'd[m] is %s, not 0X' % v
        if not zero(e, st, char(e, 's', m)) and not zero(e, st, n - 1 - m): return 'copying stops before the source ends and before the array is full'
        t = st.clone(); e.bounds['jx'] = (0, None); j = P('jx')
        if e.add(t, m - 1 - j) and not e.infeasible(t):
            if e.entails(t, -j): j = C(0)
            v = e.loadmem(t, P('d') + j, ('i', 8), 1, t.mem)
            if not e.same(t, v, V(8, char(e, 's', j))): return 'd[j] is %s, not s[j], for some j < m' % v
        t = st.clone(); j = P('jx'); e.add(t, j - n)
        if not e.infeasible(t):
            v = e.loadmem(t, P('d') + j, ('i', 8), 1, t.mem)
            if not e.same(t, v, V(8, char(e, 'd', j))): return 'd[j] with j >= n is overwritten'
        v = e.loadmem(st, P('d') - 1, ('i', 8), 1, st.mem)
        if not e.same(st, v, V(8, char(e, 'd', C(-1)))): return 'd[-1] is overwritten'
    except (Fork, BitFork, CabsError) as f: return 'the written range cannot be related to the array (%s)' % (f,)
    for _, k, K, alts in fa:
        if e.entails(st, C(1) - K) and nonzero(e, st, char(e, 's', C(0))): continue       # one iteration: the path itself says it
        for g in alts:
            u = under(e, st, g)
            if u is not None and not nonzero(e, u, char(e, 's', P(k))): return 'copying goes on past a 0X'
    return None

"""Sets: membership, element and range constructors, INCL and EXCL.  Result bit vectors of __IN, __SETOF and __SETRNG are computed
symbolically in the set's bits for every element of the range and for all elements outside it."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    pr = []
    for s in (32, 64):
        for w in (8, 16, 32, 64):
            for c in (0, 1):
                x, st, h = ('z | x | z', 't | s | t', 'z | h | z') if c else ('x', 's', 'h')
                par = '%s x, %s h, %s s, %s z, %s t' % (I[w], I[w], U[s], I[w], U[s]); n = '%d_%d_%d' % (s, w, c)
                pr.append('BOOLEAN p_in_%s(%s) { return __IN(%s, %s, %d); }' % (n, par, x, st, s))
                pr.append('BOOLEAN p_notin_%s(%s) { return !__IN(%s, %s, %d); }' % (n, par, x, st, s))
                pr.append('%s p_of_%s(%s) { return __SETOF(%s, %d); }' % (U[s], n, par, x, s))
                pr.append('%s p_incl_%s(%s) { s |= __SETOF(%s, %d); return s; }' % (U[s], n, par, x, s))
                pr.append('%s p_excl_%s(%s) { s &= ~__SETOF(%s, %d); return s; }' % (U[s], n, par, x, s))
                pr.append('%s p_rng_%s(%s) { return __SETRNG(%s, %s, %d); }' % (U[s], n, par, x, h, s))
                pr.append('%s p_rngor_%s(%s) { return s & __SETRNG(%s, %s, %d); }' % (U[s], n, par, x, h, s))
    for w in (8, 16, 32):
        pr.append('BOOLEAN p_bit_%d(ADDRESS a, %s n, ADDRESS z) { return __BIT(a, n); } BOOLEAN p_bitc_%d(ADDRESS a, %s n, ADDRESS z) { return __BIT(a + z, n | n); }' % (w, I[w], w, I[w]))
    def bits(ctx, lab, cfg):
        """SYSTEM.BIT(a, n): bit n of the 64 bit word at a (the macro never looks further)"""
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for w in (8, 16, 32):
            for fn in ('p_bit_%d' % w, 'p_bitc_%d' % w):
                for n in range(64):
                    e = rt.eng(); A = e.psym('a')
                    st = State()
                    for o in guard(ctx, rt.call, e, fn, [A, V(w, C(n)), V(rt.ptrw, C(0))], st):
                        if o.kind != 'ret': got = None
                        else: got = e.bits(o.st, o.val)
                        at, k = membit(e, got[0]) if got and not isinstance(got[0], int) else (None, None)
                        ctx.check(got is not None and got[1:] == (0,) * (len(got) - 1) and at == 0 and k == n, 'bit', '%s/%s/%d' % (fn[2:], lab, n), rt.where('__BIT'), 'SYSTEM.BIT(a, %d): the result is %s, not bit %d of memory at a' % (n, o if got is None else got, n), sample='SYSTEM.BIT(a, %d: %s) = bit %d of the word at a' % (n, I[w], n))
    def membit(e, b):
        """(byte offset within a, bit number) of an initial-memory bit atom, offset folded to 0"""
        p, i, inv = b
        if inv or len(p.t) != 1: return None, None
        (m, k), = p.t.items()
        d = e.defs.get(m[0]) if len(m) == 1 and k == 1 else None
        if not d or d[0] != 'Ma': return None, None
        off = d[1][0].const()
        return (None, None) if off is None else (0, off * 8 + i)
    def job(ctx, lab, cfg, s, w):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for c in (0, 1):
            n = '%d_%d_%d' % (s, w, c)
            def go(fn, x, h, want, rule, cls, what, bounds=()):
                e = rt.eng(); S = e.isym('s', s, False)
                if x is None: x = P('x'); e.bounds['x'] = bounds
                for o in guard(ctx, rt.call, e, fn, [V(w, x), V(w, C(h)), S, V(w, C(0)), V(s, C(0))]):
                    if o.kind != 'ret': got = None; ww = 0
                    else:
                        got = e.bits(o.st, o.val); ww = want(e.bits(o.st, S)); ww = tuple(e.bitval(o.st, b) for b in ww) + (0,) * (len(got) - len(ww))
                    ctx.check(got == ww, rule, '%s/%s/%s' % (fn[2:], lab, cls), rt.where({'set-in': '__IN', 'set-notin': '__IN', 'set-rng': '__SETRNG'}.get(rule, '__SETOF'), 'SYSTEM_IN'), '%s: the result is %s' % (what, o if got is None else '%s, specified %s' % (got, ww)), sample=what)
            T = 'SET%d' % s
            for x in range(min(s, 1 << (w - 1))):
                go('p_in_' + n, C(x), 0, lambda b: (b[x],), 'set-in', '%d' % x, '%d (%s) IN s: %s' % (x, I[w], T))
                go('p_notin_' + n, C(x), 0, lambda b: (e_not(b[x]),), 'set-notin', '%d' % x, '~(%d (%s) IN s: %s)' % (x, I[w], T))
                go('p_of_' + n, C(x), 0, lambda b: tuple(int(i == x) for i in range(s)), 'set-of', '%d' % x, '{%d: %s}: %s' % (x, I[w], T))
                go('p_incl_' + n, C(x), 0, lambda b: tuple(1 if i == x else b[i] for i in range(s)), 'set-incl', '%d' % x, 'INCL(s: %s, %d: %s)' % (T, x, I[w]))
                go('p_excl_' + n, C(x), 0, lambda b: tuple(0 if i == x else b[i] for i in range(s)), 'set-excl', '%d' % x, 'EXCL(s: %s, %d: %s)' % (T, x, I[w]))
                if lab == 'LP64' and (w == 32 or ctx.tier != 'quick'):
                    for h in range(min(s, 1 << (w - 1))):
                        if s == 64 and ctx.tier == 'quick' and (x + h) % 3 and abs(x - h) > 1 and h != s - 1: continue
                        go('p_rng_' + n, C(x), h, lambda b: tuple(int(x <= i <= h) for i in range(s)), 'set-rng', '%d..%d' % (x, h), '{%d..%d: %s}: %s' % (x, h, I[w], T))
                else:
                    for h in sorted({x, x - 1, x + 1, s - 1, 0, 31, 32}):
                        if not 0 <= h < min(s, 1 << (w - 1)): continue
                        go('p_rng_' + n, C(x), h, lambda b: tuple(int(x <= i <= h) for i in range(s)), 'set-rng', '%d..%d' % (x, h), '{%d..%d: %s}: %s' % (x, h, I[w], T))
                        go('p_rngor_' + n, C(x), h, lambda b: tuple(b[i] if x <= i <= h else 0 for i in range(s)), 'set-rng', 'and%d..%d' % (x, h), 's * {%d..%d: %s}: %s' % (x, h, I[w], T))
            for lo, hi, cls in ((-(1 << (w - 1)), -1, 'negative'), (s, (1 << (w - 1)) - 1, 'too large')):
                if lo > hi: continue
                go('p_in_' + n, None, 0, lambda b: (0,), 'set-in', cls, 'x (%s) IN s: %s for every %s x' % (I[w], T, cls), (lo, hi))
                go('p_notin_' + n, None, 0, lambda b: (1,), 'set-notin', cls, '~(x (%s) IN s: %s) for every %s x' % (I[w], T, cls), (lo, hi))
    def e_not(b): return 1 - b if isinstance(b, int) else (b[0], b[1], 1 - b[2])
    parallel(ctx, [lambda c, lab=lab, cfg=cfg: bits(c, lab, cfg) for lab, cfg in configs(ctx)] + [lambda c, lab=lab, cfg=cfg, s=s, w=w: job(c, lab, cfg, s, w) for lab, cfg in configs(ctx) for s in (64, 32) for w in (32, 64, 16, 8)])
    for r, k in (('set-in', 2000), ('set-notin', 2000), ('set-of', 2000), ('set-incl', 2000), ('set-excl', 2000), ('set-rng', 5000), ('bit', 1000)): ctx.floor(r, k)
    ctx.assume('set constructors and INCL/EXCL are specified for elements inside the set range (the source marks checked versions as to do)')

"""Floored division: every operand is written |x| = q*b + r with 0 <= r < b and the C code of __DIV, __MOD, SYSTEM_DIV and SYSTEM_MOD
is interpreted over that parametrisation, per sign combination, per operand width, including both ends of the 64-bit range."""
from ._c import *
LEVEL = 'other'
FORMS = {'__DIV': 'div', '__DIVF': 'div', '__MOD': 'mod', '__MODF': 'mod'}
def floor(kind, sx, sy, q, r, b, zero):
    """x = sx*(q*b+r), y = sy*b, r = 0 iff zero: the floored quotient / remainder"""
    if sx == sy: return q if kind == 'div' else r * sx
    if zero: return -q if kind == 'div' else C(0)
    return -q - 1 if kind == 'div' else (b - r if sy > 0 else r - b)
def run(ctx):
    pr = []; L = []
    for m, kind in FORMS.items():
        for w in (8, 16, 32, 64):
            fn = 'p_%s_%d' % (m, w); pr.append('INT64 %s(%s x, %s y) { return %s(x, y); }' % (fn, I[w], I[w], m)); L.append((fn, m, kind, w, 'x', 64))
            if w <= 32:
                fn = 'p_%s_%d_i' % (m, w); pr.append('INT64 %s(%s x, %s y) { return (int)%s(x, y); }' % (fn, I[w], I[w], m)); L.append((fn, m, kind, w, 'x', 64))
        fn = 'p_%s_mix' % m; pr.append('INT64 %s(INT16 x, INT64 y) { return %s(x, y); }' % (fn, m)); L.append((fn, m, kind, (16, 64), 'x', 64))
        fn = 'p_%s_mix2' % m; pr.append('INT64 %s(INT64 x, INT8 y) { return %s(x, y); }' % (fn, m)); L.append((fn, m, kind, (64, 8), 'x', 64))
        fn = 'p_%s_sum' % m; pr.append('INT64 %s(INT32 a, INT32 x, INT32 y) { return %s(x - a, y + a); }' % (fn, m)); L.append((fn, m, kind, 32, 'x - a, y + a', 64))
    for w in (8, 16, 32, 64):
        for k in range(0, w - 1):
            lit = '-%d' % (1 << k)
            pr.append('INT64 p_mask_%d_%d(%s x, %s z) { return __MASK(x, %s); } INT64 p_maskc_%d_%d(%s x, %s z) { return __MASK(z | x | z, %s); }' % (w, k, I[w], I[w], lit, w, k, I[w], I[w], lit))
            pr.append('INT64 p_ashr_%d_%d(%s x, %s z) { return __ASHR(x, %d); } INT64 p_ashrc_%d_%d(%s x, %s z) { return __ASHR(z | x | z, %d); }' % (w, k, I[w], I[w], k, w, k, I[w], I[w], k))
    def pow2(ctx, lab, cfg):
        """x MOD 2^k and x DIV 2^k with a constant divisor: the low k bits, respectively the others with the sign extended"""
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for w in (8, 16, 32, 64):
            for k in range(0, w - 1):
                for m in ('mask', 'maskc', 'ashr', 'ashrc'):
                    e = rt.eng(); x = e.isym('x', w); st = State(); b = e.bits(st, x); b64 = b + (b[-1],) * (64 - w); fn = 'p_%s_%d_%d' % (m, w, k)
                    want = b[:k] + (0,) * (64 - k) if m[0] == 'm' else b64[k:] + (b64[-1],) * k
                    for o in guard(ctx, rt.call, e, fn, [x, V(w, C(0))], st):
                        got = e.bits(o.st, o.val) if o.kind == 'ret' else o
                        ww = tuple(e.bitval(o.st, t) for t in want)
                        ctx.check(got == ww, 'pow2-mod' if m[0] == 'm' else 'pow2-div', '%s/%s' % (fn[2:], lab), rt.where('__MASK' if m[0] == 'm' else '__ASHR'), 'x %s 2^%d for %s x: result bits %s' % ('MOD' if m[0] == 'm' else 'DIV', k, I[w], got), sample='x MOD 2^%d = the low %d bits of x (%s)' % (k, k, I[w]))
    def job(ctx, lab, cfg, part):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for fn, m, kind, w, form, rw in part:
            wx, wy = w if isinstance(w, tuple) else (w, w)
            for sx in (1, -1):
                for sy in (1, -1):
                    for ex in ('', 'minx', 'miny', 'min2'):
                        if ex in ('minx', 'min2') and sx > 0 or ex in ('miny', 'min2') and sy > 0 or ex and (lab != 'LP64' and w != 64 or form != 'x'): continue
                        for zero, qz in ((True, 0), (True, 1), (False, 0), (False, 1)):
                            e = rt.eng(); st = State(); W = max(wx, wy)
                            b = e.sym('b', 1, (1 << (wy - 1)) - 1); q = e.sym('q', 1, 1 << (wx - 1)) if qz else C(0); r = e.sym('r', 0, 0 if zero else (1 << (W - 1)))
                            e.qcands = (q,)
                            if ex in ('miny', 'min2'): b = C(1 << (wy - 1))
                            if ex == 'min2':
                                if not qz: continue
                                q, r = (C(x) for x in divmod(1 << (wx - 1), 1 << (wy - 1)))
                                if (r == 0) != zero: continue
                            elif ex == 'miny' and wx <= wy and qz: continue
                            X = q * b + r
                            fs = [b - 1 - r, X - 1 if not (zero and sx > 0) else X]
                            if not zero: fs.append(r - 1)
                            if ex == 'min2': pass
                            elif ex == 'minx': fs += [X - (1 << (wx - 1)), C(1 << (wx - 1)) - X]
                            else: fs.append(C((1 << (wx - 1)) - 1) - X)
                            if zero: r = C(0); X = q * b; r = C(0); fs = [f.subst('r', C(0)) for f in fs]
                            res = floor(kind, sx, sy, q, r, b, zero)
                            if kind == 'div': fs += [C((1 << (max(wx, 32 if fn.endswith('_i') else wx) - 1)) - 1) - res]      # quotient representable
                            if not all(e.add(st, f) for f in fs) or e.infeasible(st): continue
                            a = [V(wx, X * sx), V(wy, b * sy)]
                            if form != 'x':
                                if wx < 64 and ex: continue
                                s = e.sym('a', -1 << 29, 1 << 29); 
                                for f in (X * sx + s + (1 << 31), C((1 << 31) - 1) - X * sx - s, b * sy - s + (1 << 31), C((1 << 31) - 1) - b * sy + s): e.add(st, f)
                                a = [V(32, s), V(32, X * sx + s), V(32, b * sy - s)]
                            for o in guard(ctx, rt.call, e, fn, a, st):
                                good = o.kind == 'ret' and all(x for _, x in split(e, lambda c: e.same(c, o.val, V(rw, e.norm(c, res))), o.st))
                                if not good and e.infeasible(o.st): continue
                                cls = 'x%s0,y%s0,%s%s' % ('>' if sx > 0 else '<', '>' if sy > 0 else '<', 'exact' if zero else 'inexact', ',' + ex if ex else '')
                                ctx.check(good, 'floored-' + kind, '%s/%s/%s' % (fn[2:], lab, cls), rt.where(m, 'SYSTEM_DIV' if kind == 'div' else 'SYSTEM_MOD'),
                                          '%s of x = %s, y = %s yields %s, floored result is %s (%s)' % (m, X * sx, b * sy, o.val if o.kind == 'ret' else o.kind, res, describe(e, o.st, ())), sample='%s %s %s: result %s' % (m, I[wx], cls, res))
    parallel(ctx, [lambda c, lab=lab, cfg=cfg: pow2(c, lab, cfg) for lab, cfg in configs(ctx)] + [lambda c, lab=lab, cfg=cfg, k=k: job(c, lab, cfg, L[k::6]) for lab, cfg in configs(ctx) for k in range(6)])
    ctx.floor('floored-div', 200); ctx.floor('floored-mod', 200); ctx.floor('pow2-mod', 600); ctx.floor('pow2-div', 600)
    ctx.assume('signed overflow wraps, as in the build the project makes (gcc -O0); y = 0 and unrepresentable quotients are outside the property')

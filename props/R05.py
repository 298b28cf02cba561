"""ASH, LSH and ROT: the result bit vector of every shift primitive of SYSTEM.h is computed symbolically (bit i of the operand is an
atom) for each operand width and every count of the defined range, constant and run-time counts, simple and compound operands."""
from ._c import *
LEVEL = 'other'
def expect(op, b, n, s):
    """bits (low first) of the specified result; n > 0 shifts left"""
    if op == 'ROT': return tuple(b[(i - n) % s] for i in range(s))
    if op == 'LSH': return tuple(b[i - n] if 0 <= i - n < s else 0 for i in range(s))
    x = b + (b[-1],) * (64 - len(b))                                  # ASH: sign extension, 64 bit result
    return tuple((x[i - n] if i - n < 64 else x[-1]) if i - n >= 0 else 0 for i in range(64))
def run(ctx):
    pr = []; L = []
    def add(m, op, w, cw, compound, left, ty=I):
        fn = 'p_%s_%d_%s_%d_%s' % (m, w, ty[w], cw, 'c' if compound else 'v')
        x, n = ('z | x | z', 'y | n | y') if compound else ('x', 'n')
        call = '%s(%s, %s)' % (m, x, n) if op == 'ASH' else '%s(%s, %s, %d)' % (m, x, n, w)
        pr.append('%s %s(%s x, %s n, %s z, %s y) { return %s; }' % ('INT64' if op == 'ASH' else ty[w], fn, ty[w], I[cw], ty[w], I[cw], call)); L.append((fn, m, op, w, cw, left))
    for w in (8, 16, 32, 64):
        for c in (False, True):
            for m, d in (('__ASHL', 1), ('__ASHR', -1)): add(m, 'ASH', w, 32, c, d)
            for m in ('__ASH', '__ASHF'):
                for cw in (8, 16, 32, 64): add(m, 'ASH', w, cw, c, 0)
            for op in ('LSH', 'ROT'):
                for m, d in (('__%sL' % op, 1), ('__%sR' % op, -1)): add(m, op, w, 32, c, d)
                for cw in (8, 16, 32, 64): add('__' + op, op, w, cw, c, 0)
            if w >= 32:
                for op in ('LSH', 'ROT'): add('__' + op, op, w, 16, c, 0, U)
    def job(ctx, lab, cfg, part):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for fn, m, op, w, cw, left in part:
            W = 64 if op == 'ASH' else w; lim = min(W - 1, (1 << (cw - 1)) - 1)
            counts = range(1 if op == 'ROT' else 0, lim + 1) if left else range(-lim, lim + 1)
            if ctx.tier == 'quick' and lab != 'LP64' and cw not in (32,): continue
            for n in counts:
                e = rt.eng(); x = e.isym('x', w, '_INT' in fn and 'UINT' not in fn)
                k = n if not left else left * n
                b = e.bits(State(), x); want = expect(op, b, k, W)
                for o in guard(ctx, rt.call, e, fn, [x, V(cw, C(n)), V(w, C(0)), V(cw, C(0))]):
                    if o.kind != 'ret': ok = False; got = o
                    else:
                        got = e.bits(o.st, o.val); ww = tuple(e.bitval(o.st, t) for t in want); ok = got == ww
                    ctx.check(ok, 'shift-' + op, '%s/%s' % (fn[2:], lab), rt.where(m, 'SYSTEM_' + op), '%s(x: %s, n = %d): result bits are not those of %s(x, %d)%s' % (m, I[w], n, op, k, '' if o.kind != 'ret' else '; first wrong bit %d' % next((i for i in range(len(ww)) if got[i] != ww[i]), -1)), sample='%s(x: %s, %d): bit i = %s' % (m, I[w], n, 'x[(i-n) mod w]' if op == 'ROT' else 'x[i-n]'))
    parallel(ctx, [lambda c, lab=lab, cfg=cfg, k=k: job(c, lab, cfg, L[k::8]) for lab, cfg in configs(ctx) for k in range(8)])
    ctx.floor('shift-ASH', 4000); ctx.floor('shift-LSH', 2000); ctx.floor('shift-ROT', 2000)
    ctx.assume('a count whose magnitude is at least the width is outside the property; rotation by a literal 0 (shift by the full width in C) is left out')

"""Range checks: trace-partitioned abstract interpretation of __SHORT, __SHORTF, __CHR and __CHRF for every source and target size."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    pr = []; L = []
    for m in ('__SHORT', '__SHORTF'):
        for w in (16, 32, 64):
            for to in (8, 16, 32):
                if to >= w: continue
                for form in ('x', 'a - b'):
                    fn = 'p_%s_%d_%d_%s' % (m, w, to, 'v' if form == 'x' else 'd')
                    par = '%s x' % I[w] if form == 'x' else '%s a, %s b' % (I[w], I[w])
                    pr.append('%s %s(%s) { return %s(%s, %d); }' % (I[to], fn, par, m, form, 1 << (to - 1)))
                    L.append((fn, m, w, to, form, True))
    for m in ('__CHR', '__CHRF'):
        for w in (8, 16, 32, 64):
            for form in ('x', 'a - b'):
                fn = 'p_%s_%d_%s' % (m, w, 'v' if form == 'x' else 'd')
                par = '%s x' % I[w] if form == 'x' else '%s a, %s b' % (I[w], I[w])
                pr.append('CHAR %s(%s) { return %s(%s); }' % (fn, par, m, form)); L.append((fn, m, w, 8, form, False))
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for fn, m, w, to, form, sg in L:
            B = {}
            if form == 'x': B['x'] = (-(1 << (w - 1)), (1 << (w - 1)) - 1); a = [V(w, P('x'))]; x = P('x')
            else: h = 1 << (w - 2); B['a'] = B['b'] = (-h, h - 1); a = [V(w, P('a')), V(w, P('b'))]; x = P('a') - P('b')
            lo, hi = (-(1 << (to - 1)), (1 << (to - 1)) - 1) if sg else (0, 255)
            trapcheck(ctx, rt, 'range-check', fn, (a, B), [x - lo, C(hi) - x], lambda ww: V(ww, x), -8, ('x',), rt.where(m), '%s(%s: %s) to %s' % (m, form, I[w], I[to] if sg else 'CHAR'))
    ctx.floor('range-check', 3 * 36)
    ctx.assume('compound operands do not overflow their own C type; Modules_Halt does not return')

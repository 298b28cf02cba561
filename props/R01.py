"""Array index checks: trace-partitioned abstract interpretation of __X and __XF (SYSTEM.h) for every index type the compiler can
pass, constant and run-time bounds, simple and compound index expressions, on LP64, ILP32 and LLP64."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    pr = []; L = []
    for w in (8, 16, 32, 64):
        for m in ('__X', '__XF'):
            for ubk, ubt in (('len', 'ADDRESS'), ('lit', 'int')):
                for form in ('x', 'a - b', 'a + b'):
                    if form != 'x' and w in (8,): continue
                    fn = 'p_%s_%d_%s_%s' % (m, w, ubk, {'x': 'v', 'a - b': 'd', 'a + b': 's'}[form])
                    par = '%s x' % I[w] if form == 'x' else '%s a, %s b' % (I[w], I[w])
                    pr.append('INT64 %s(%s, %s ub) { return %s(%s, ub); }' % (fn, par, ubt, m, form))
                    L.append((fn, m, w, ubk, form))
    # index used inside a Horner expression, as OPV emits for open arrays of several dimensions
    pr.append('INT64 p_horner(INT16 i, INT16 j, ADDRESS l0, ADDRESS l1) { return __X(j, l1) + l1 * (__X(i, l0)); }')
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        aw = rt.ptrw if lab != 'ILP32' else 32
        for fn, m, w, ubk, form in L:
            B = {}; ubmax = (1 << (aw - 1)) - 1 if ubk == 'len' else (1 << 31) - 1
            B['ub'] = (0, ubmax); ub = V(aw if ubk == 'len' else 32, P('ub'))
            if form == 'x':
                B['x'] = (-(1 << (w - 1)), (1 << (w - 1)) - 1); a = [V(w, P('x'))]; x = P('x')
            else:
                h = 1 << (w - 2); B['a'] = B['b'] = (-h, h - 1); a = [V(w, P('a')), V(w, P('b'))]; x = P('a') - P('b') if '-' in form else P('a') + P('b')
            trapcheck(ctx, rt, 'index-check', fn, (a + [ub], B), [x, P('ub') - 1 - x], lambda ww: V(ww, x), -2, ('x', 'ub'), rt.where(m), '%s(%s: %s, %s bound)' % (m, form, I[w], 'run-time' if ubk == 'len' else 'constant'))
        # two dimensions
        e = rt.eng(); B = {'l0': (0, 1 << 20), 'l1': (0, 1 << 10)}; e.bounds.update(B)
        a = [e.isym('i', 16), e.isym('j', 16), V(aw, P('l0')), V(aw, P('l1'))]
        inr = [P('i'), P('l0') - 1 - P('i'), P('j'), P('l1') - 1 - P('j')]
        for o in guard(ctx, rt.call, e, 'p_horner', a):
            for c in cases(e, o.st, inr):
                ok = all(e.entails(c, p) for p in inr)
                good = (o.kind == 'ret' and all(r for _, r in split(e, lambda s: e.same(s, o.val, V(64, P('j') + P('l1') * P('i'))), c))) if ok else (o.kind == 'halt' and o.val == -2)
                ctx.check(good, 'multi-dimensional-index', 'horner/%s/%s' % (lab, 'in' if ok else 'out'), rt.where('__X'), 'element address of a two-dimensional open array: %s when %s' % (o, describe(e, c, ())), sample='b[i, j] on %s' % describe(e, c, ()))
    ctx.floor('index-check', 3 * 40)
    ctx.assume('an array length is never negative; compound index expressions themselves do not overflow their C type')
    ctx.assume('Modules_Halt does not return (Modules.Halt ends in Platform.Exit)')

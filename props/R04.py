"""ABS, ODD, CAP and ENTIER: trace-partitioned abstract interpretation of __ABS, __ABSF, __ABSFD, __ODD, __CAP and SYSTEM_ENTIER
for every operand type; reals are modelled as integer part plus a fraction strictly between 0 and 1."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    pr = []; L = []
    for m in ('__ABS', '__ABSF'):
        for w in (8, 16, 32, 64):
            for form, par in (('x', '%s x' % I[w]), ('a - x', '%s a, %s x' % (I[w], I[w])), ('f()', '')):
                if form == 'f()':
                    pr.append('extern %s f%d();' % (I[w], w)); fn = 'p_%s_%d_call' % (m, w); pr.append('%s %s() { return %s%s(f%d()); }' % (I[w], fn, '(int)' if w <= 32 and m == '__ABSF' else '', m, w))
                    if m == '__ABSF': L.append((fn, m, w, form))
                    continue
                fn = 'p_%s_%d_%s' % (m, w, 'v' if form == 'x' else 'd')
                pr.append('%s %s(%s) { return %s(%s); }' % (I[w], fn, par, m, form)); L.append((fn, m, w, form))
                if m == '__ABSF' and w <= 32:
                    pr.append('%s %s_i(%s) { return (int)%s(%s); }' % (I[w], fn, par, m, form)); L.append((fn + '_i', m, w, form))
    for w in (8, 16, 32, 64):
        pr.append('BOOLEAN p_odd_%d(%s x, %s z) { return __ODD(x); }' % (w, I[w], I[w])); pr.append('BOOLEAN p_oddc_%d(%s x, %s z) { return __ODD(z | x | z); }' % (w, I[w], I[w]))
    pr.append('CHAR p_cap(CHAR c, CHAR z) { return __CAP(c); } CHAR p_capc(CHAR c, CHAR z) { return __CAP(z | c | z); }')
    pr.append('INT64 p_entier(double x) { return __ENTIER(x); } INT32 p_entier32(double x) { return (INT32)__ENTIER(x); } INT64 p_entierf(float x) { return __ENTIER(x); } INT64 p_entiers(double x) { return __ENTIER(-x); }')
    for m in ('__ABS', '__ABSFD'):
        for t in ('double', 'float'):
            pr.append('%s p_%s_%s(%s x) { return %s(x); }' % (t, m, t, t, m)); pr.append('%s p_%s_%s_n(%s x) { return %s(-x); }' % (t, m, t, t, m))
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg)
        for fn, m, w, form in L:
            for sg in (1, -1):
                e = rt.eng(); st = State(); a = []; x = P('x')
                e.bounds['x'] = (0, (1 << (w - 1)) - 1) if sg > 0 else (1 - (1 << (w - 1)), -1)
                if form == 'x': a = [V(w, x)]
                elif form == 'f()': e.handlers['f%d' % w] = lambda eng, st, v, ins, w=w, x=x: (st.__setattr__('events', st.events + [('f',)]), V(w, x))[1]
                else:
                    h = 1 << (w - 2); e.bounds['a'] = (-h, h - 1); e.bounds['x'] = (0, h - 1) if sg > 0 else (-h, -1); a = [V(w, P('a')), V(w, P('a') - x)]
                    for f in (P('a') - x + (1 << (w - 1)), C((1 << (w - 1)) - 1) - P('a') + x): e.add(st, f)
                for o in guard(ctx, rt.call, e, fn, a, st):
                    want = V(w, x * sg)
                    ok = o.kind == 'ret' and all(r for _, r in split(e, lambda c: e.same(c, o.val, want), o.st))
                    calls = sum(1 for ev in o.st.events if ev[0] == 'f')
                    ctx.check(ok, 'abs', '%s/%s/%s' % (fn[2:], lab, 'pos' if sg > 0 else 'neg'), rt.where(m, 'SYSTEM_ABS32', 'SYSTEM_ABS64'), '%s of %s operand %s is %s, not %s' % (m, I[w], 'x >= 0' if sg > 0 else 'x < 0', o.val, want.p), sample='%s(%s %s) = %s' % (m, I[w], 'x' if sg > 0 else '-x', want.p))
                    if form == 'f()': ctx.check(calls == 1, 'abs-once', '%s/%s' % (fn[2:], lab), rt.where(m), 'the operand of %s is evaluated %d times' % (m, calls))
        for w in (8, 16, 32, 64):
            for fn in ('p_odd_%d' % w, 'p_oddc_%d' % w):
                for bit in (0, 1):
                    e = rt.eng(); x = e.sym('k', -1 << (w - 2), (1 << (w - 2)) - 1) * 2 + bit
                    for o in guard(ctx, rt.call, e, fn, [V(w, x), V(w, C(0))]):
                        ok = o.kind == 'ret' and all(r for _, r in split(e, lambda c: e.same(c, o.val, V(o.val.w, C(bit))), o.st))
                        ctx.check(ok, 'odd', '%s/%s/%d' % (fn[2:], lab, bit), rt.where('__ODD'), 'ODD of 2k+%d (%s) is %s' % (bit, I[w], o.val), sample='ODD(2k+%d : %s) = %d' % (bit, I[w], bit))
        for fn in ('p_cap', 'p_capc'):
            for c in range(26):
                for base in (65, 97):
                    e = rt.eng()
                    for o in guard(ctx, rt.call, e, fn, [V(8, C(base + c)), V(8, C(0))]):
                        ctx.check(o.kind == 'ret' and e.same(o.st, o.val, V(8, C(65 + c))), 'cap', '%s/%s/%s' % (fn[2:], lab, chr(base + c)), rt.where('__CAP'), 'CAP("%s") is %s' % (chr(base + c), o.val), sample='CAP(%s) = %s' % (chr(base + c), chr(65 + c)))
        for fn in ('p_entier', 'p_entier32', 'p_entierf', 'p_entiers'):
            W = 32 if '32' in fn else 64
            for lo, hi in ((0, (1 << (W - 1)) - 1), (-1 << (W - 1), -1)):
                for f in ('', 'f'):
                    e = rt.eng(); k = e.sym('k', lo, hi); st = State(); x = F(k, f, fn == 'p_entierf'); res = k
                    if fn == 'p_entiers': x = F(-k - (1 if f else 0), '-f' if f else '')
                    if fn == 'p_entiers' and lo < 0: e.add(st, k + (1 << (W - 1)) - 1)
                    for o in guard(ctx, rt.call, e, fn, [x], st):
                        ok = o.kind == 'ret' and all(r for _, r in split(e, lambda c: e.same(c, o.val, V(W, res)), o.st))
                        ctx.check(ok, 'entier', '%s/%s/%s%s' % (fn[2:], lab, '>=0' if lo == 0 else '<0', ',fractional' if f else ',whole'), rt.where('SYSTEM_ENTIER', '__ENTIER'), 'ENTIER of k%s with k %s is %s, not k (%s)' % (' + f, 0 < f < 1' if f else '', '>= 0' if lo == 0 else '< 0', o.val, describe(e, o.st, ())), sample='ENTIER(k%s) = k for k %s' % ('+f' if f else '', '>= 0' if lo == 0 else '< 0'))
        for m in ('__ABS', '__ABSFD'):
            for t in ('double', 'float'):
                for n in ('', '_n'):
                    for lo, hi in ((0, 1 << 40), (-1 << 40, -1)):
                        for f in ('', 'f'):
                            e = rt.eng(); k = e.sym('k', lo, hi); x = F(k, f, t == 'float'); fn = 'p_%s_%s%s' % (m, t, n); st = State()
                            want = x if lo == 0 else e.fneg(x)
                            for o in guard(ctx, rt.call, e, fn, [x], st):
                                ok = o.kind == 'ret' and isinstance(o.val, F) and o.val.f == want.f and e.norm(o.st, o.val.k - want.k) == 0 
                                ctx.check(ok, 'abs-real', '%s/%s/%s%s' % (fn[2:], lab, '>=0' if lo == 0 else '<0', ',f' if f else ''), rt.where(m, 'SYSTEM_ABSD'), '%s of the real %s is %s, not %s' % (m, x, o.val, want), sample='%s(%s) = %s' % (m, x, want))
    ctx.floor('abs', 60); ctx.floor('odd', 24); ctx.floor('cap', 156); ctx.floor('entier', 24); ctx.floor('abs-real', 30)
    ctx.assume('the most negative integer has no absolute value and is excluded; ENTIER arguments are within the INT64 range; CAP is specified for letters')

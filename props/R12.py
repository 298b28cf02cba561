"""Module initialisation: the sequence of run-time calls made by a module body built from the macros the compiler emits, on the first and
on every later activation, and by a main program."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    pr = '''
    extern void body(void); extern void cmd1(void); extern void cmd2(void); extern void enumA(void); extern void mark(void); extern void use(void *); extern void *B__init(void); extern void *C__init(void);
    export void *A__init(void) { __DEFMOD; __MODULE_IMPORT(B); __MODULE_IMPORT(C); __REGMOD("Amod", enumA); __REGCMD("Do", cmd1); __REGCMD("Undo", cmd2); body(); __ENDMOD; }
    export void *L__init(void) { __DEFMOD; __REGMOD("Leaf", 0); body(); __ENDMOD; }
    export void *D__init(void) { __DEFMOD; __MODULE_IMPORT(A); __MODULE_IMPORT(L); __REGMOD("D", 0); mark(); __ENDMOD; }
    void p_one(void) { use(A__init()); mark(); use(A__init()); mark(); use(A__init()); }
    void p_leaf(void) { use(L__init()); mark(); use(L__init()); }
    void p_diamond(void) { use(A__init()); use(D__init()); }
    int p_main(int argc, char **argv) { __INIT(argc, argv); __MODULE_IMPORT(B); __REGMAIN("Main", enumA); __REGCMD("Do", cmd1); body(); __FINI; }
    int p_main0(int argc, char **argv) { __INIT(argc, argv); __REGMAIN("Main", 0); body(); __FINI; }
    int p_mainret(int argc, char **argv) { __INIT(argc, argv); __REGMAIN("Main", 0); if (argc > 1) { __FINI; } body(); __FINI; }
    '''
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, pr, label=lab, **cfg); aw = rt.ptrw; A = aw // 8
        w = rt.where('__DEFMOD', '__REGMOD', '__MODULE_IMPORT', '__ENDMOD'); wm = rt.where('__INIT', '__REGMAIN', '__FINI')
        def run1(fn, args=()):
            e = rt.eng(); tok = {}
            def regmod(eng, st, v, ins):
                r = eng.psym(eng.fresh('mod')); st.events = st.events + [('regmod', text(eng, st, v[0]), arg(eng, st, v[1]), str(r.p))]; return r
            def init(name):
                def h(eng, st, v, ins):
                    r = eng.psym('&mod' + name) if False else V(aw, P(tok.setdefault(name, str(eng.psym('M_' + name).p)))); st.events = st.events + [('init', name)]; return r
                return h
            def rec(tag, *how):
                def h(eng, st, v, ins): st.events = st.events + [(tag,) + tuple(f(eng, st, x) for f, x in zip(how, v))]
                return h
            e.handlers.update({'Heap_REGMOD': regmod, 'B__init': init('B'), 'C__init': init('C'), 'Heap_REGCMD': rec('regcmd', arg, text, arg), 'Heap_INCREF': rec('incref', arg),
                'body': rec('body'), 'mark': rec('mark'), 'use': rec('use', arg), 'Modules_Init': rec('modinit', arg, arg), 'Heap_FINALL': rec('finall'), 'setupAutomaticSegfaultHandler': rec('trap')})
            return e, guard(ctx, rt.call, e, fn, list(args))
        def arg(e, st, v): return str(e.norm(st, e.topoly(st, v)))
        def text(e, st, v):
            p = e.topoly(st, v); r = ''
            for i in range(64):
                c = e.topoly(st, e.loadmem(st, p + i, ('i', 8), 1, st.mem)).const()
                if c is None: return '?'
                if c == 0: return r
                r += chr(c & 255)
            return r
        def seqcheck(rule, fn, got, want, what, wh):
            ctx.check(got == want, rule, '%s/%s' % (fn, lab), wh, '%s: %s; expected %s' % (what, show(got), show(want)), sample='%s [%s]: %s' % (what, lab, show(want)))
        def show(l): return ', '.join('%s(%s)' % (x[0], ', '.join(x[1:])) for x in l)
        def amod(m): return [('init', 'B'), ('incref', 'M_B'), ('init', 'C'), ('incref', 'M_C'), ('regmod', 'Amod', '@enumA', m), ('regcmd', m, 'Do', '@cmd1'), ('regcmd', m, 'Undo', '@cmd2'), ('body',)]
        def mods(o): return [x[3] for x in o.st.events if x[0] == 'regmod']
        e, outs = run1('p_one')
        for o in outs:
            m = (mods(o) + ['?'])[0]
            ev = order(o.st.events)
            seqcheck('once', 'body', ev, amod(m) + [('use', m), ('mark',), ('use', m), ('mark',), ('use', m)] if o.kind == 'ret' else None, 'three activations of a module with imports and commands', w)
        e, outs = run1('p_leaf')
        for o in outs:
            m = (mods(o) + ['?'])[0]
            seqcheck('once', 'leaf', order(o.st.events), [('regmod', 'Leaf', '0', m), ('body',), ('use', m), ('mark',), ('use', m)] if o.kind == 'ret' else None, 'two activations of a module without imports', w)
        e, outs = run1('p_diamond')
        for o in outs:
            ms = mods(o) + ['?'] * 3
            a, l, d = ms[0], ms[1], ms[2]
            seqcheck('imports', 'diamond', order(o.st.events), amod(a) + [('use', a), ('incref', a), ('regmod', 'Leaf', '0', l), ('body',), ('incref', l), ('regmod', 'D', '0', d), ('mark',), ('use', d)] if o.kind == 'ret' else None, 'import of one initialised and one new module', w)
        for fn, body in (('p_main', lambda m: [('init', 'B'), ('incref', 'M_B'), ('regmod', 'Main', '@enumA', m), ('regcmd', m, 'Do', '@cmd1'), ('body',), ('finall',)]), ('p_main0', lambda m: [('regmod', 'Main', '0', m), ('body',), ('finall',)]), ('p_mainret', None)):
            e = rt.eng(); e0 = e
            argc = e.isym('argc', 32); argv = e.psym('argv')
            x, outs = run1(fn, [argc, argv]); x.bounds['argc'] = e.bounds['argc']; n = 0
            for o in outs:
                m = (mods(o) + ['?'])[0]; ev = list(o.st.events); n += 1
                mi = [y for y in ev if y[0] == 'modinit']; adr = mi[0][2] if len(mi) == 1 and len(mi[0]) == 3 else None
                # argument: argc and the address of a variable that holds argv
                ok = adr is not None and mi[0][1] == 'argc'
                if ok:
                    try: ok = x.same(o.st, x.loadmem(o.st, memaddr(x, adr), ('ptr',), A, o.st.mem), V(aw, P('argv')))
                    except CabsError: ok = False
                ctx.check(ok, 'arguments', '%s/%s' % (fn, lab), wm, 'the main program does not hand argc and the address of argv to Modules.Init: %s' % (mi,), sample='Modules.Init(argc, ADR(argv))')
                ev = [(y[0],) if y[0] == 'modinit' else y for y in ev if not isinstance(y[0], str) or y[0] in KNOWN]
                if body: want = [('trap',), ('modinit',)] + body(m)
                else: want = [('trap',), ('modinit',), ('regmod', 'Main', '0', m), ('finall',)] if ('body',) not in ev else [('trap',), ('modinit',), ('regmod', 'Main', '0', m), ('body',), ('finall',)]
                seqcheck('main', '%s%s' % (fn, n if not body else ''), order(ev), order(want) if o.kind == 'ret' else None, 'main program', wm)
                ctx.check(o.kind == 'ret' and x.same(o.st, o.val, V(32, C(0))), 'exit-status', '%s%d/%s' % (fn, n, lab), wm, 'a main program that runs to its end exits with %s' % o, sample='exit status 0')
    for r, n in (('once', 6), ('imports', 3), ('main', 12), ('arguments', 12), ('exit-status', 12)): ctx.floor(r, n)
KNOWN = {'regmod', 'init', 'regcmd', 'incref', 'body', 'mark', 'use', 'modinit', 'finall', 'trap', 'call', 'icall', 'for'}
def order(ev):
    """the trap handler and the module system may be set up in either order: both precede everything else"""
    ev = [x for x in ev if x[0] in KNOWN]
    if len(ev) > 1 and {ev[0][0], ev[1][0]} == {'trap', 'modinit'}: ev = sorted(ev[:2], key=lambda x: x[0] == 'modinit') + ev[2:]
    return ev
def memaddr(e, s):
    import re
    p = C(0)
    for t in re.findall(r'[+-]?[^+-]+', s):
        sg = -1 if t[0] == '-' else 1; t = t.lstrip('+-')
        p = p + (C(sg * int(t)) if t.isdigit() else P(t) * sg)
    return p

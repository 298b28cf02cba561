"""Signals.  Delivery is decided symbolically: after any sequence of at most three installations the function registered with the
operating system for a signal is entered with that signal, and the calls it makes are compared with the handler installed last."""
from ._c import *
LEVEL = 'other'
SIGS = (2, 3, 4, 11)
def run(ctx):
    jobs = [lambda c, lab=lab, cfg=cfg: (windows if lab == 'LLP64' else unix)(c, lab, cfg) for lab, cfg in configs(ctx)]
    parallel(ctx, jobs)
    for r, n in (('delivery', 8), ('replace', 24), ('independent', 50), ('nilaccess', 2), ('console', 30)): ctx.floor(r, n)
    ctx.assume('the operating system keeps a registered handler installed (BSD semantics of signal) and delivers a signal to the function registered last')
def unix(ctx, lab, cfg):
    rt = Rt(ctx, 'void p_set(int s, ADDRESS h) { SystemSetHandler(s, h); } void p_auto(void) { setupAutomaticSegfaultHandler(); }', label=lab, **cfg); aw = rt.ptrw
    w = rt.where('SystemSetHandler', 'signalHandler'); wa = rt.where('setupAutomaticSegfaultHandler', 'segfaultHandler')
    def fresh():
        e = rt.eng()
        e.handlers['signal'] = lambda eng, st, v, ins: (setattr(st, 'events', st.events + [('signal', eng.norm(st, eng.topoly(st, v[0])), eng.norm(st, eng.topoly(st, v[1])))]), V(aw, C(0)))[1]
        return e
    def install(e, sts, s, h):
        r = []
        for st in sts:
            for o in guard(ctx, rt.call, e, 'p_set', [V(32, C(s)) if isinstance(s, int) else s, h], st.clone()):
                if o.kind != 'ret': raise Broken('installing a handler ends in %s' % o)
                for x in o.st.mem:
                    if x[0] == 'w' and x[1] and x[1].startswith('@') and not intable(rt, e, o.st, x): ctx.check(False, 'delivery', 'table/%s' % lab, w, 'installing a handler for signal %s writes outside %s' % (s, x[1]))
                r.append(o.st)
        return r
    def registered(st, s):
        r = [x for x in st.events if x[0] == 'signal' and x[1].const() == s]
        return r[-1][2] if r else None
    def deliver(e, st, s):
        """[(outcome kind, val, calls)] of delivering s"""
        f = registered(st, s)
        if f is None: return None
        q = st.clone(); q.events = []
        n = [m[0] for m, k in f.t.items() if len(m) == 1]
        name = e.fn_syms.get(n[0]) if len(f.t) == 1 and len(n) == 1 else None
        if name is None:                      # registered directly
            return [('ret', None, [(f, (V(32, C(s)),))], q)]
        return [(o.kind, o.val, [(e.norm(o.st, x[1]), x[2]) for x in o.st.events if x[0] == 'icall'], o.st) for o in guard(ctx, rt.call, e, name, [V(32, C(s))], q)]
    def ptr(e, n, null=False):
        v = e.psym(n)
        return v
    def expect(e, res, h, s):
        if res is None: return 'the signal is not registered with the system'
        for kind, val, calls, st in res:
            if kind != 'ret': return 'delivery ends in %s %s' % (kind, val)
            if len(calls) != 1: return 'delivery makes %d calls: %s' % (len(calls), calls)
            f, a = calls[0]
            if e.norm(st, f - h.p) != 0: return 'delivery calls %s instead of %s' % (f, h.p)
            if len(a) != 1 or not e.same(st, a[0], V(32, C(s))): return 'the handler gets %s instead of the signal number' % (a,)
        return None
    for s in SIGS:
        e = fresh(); h = ptr(e, 'h1'); h2 = ptr(e, 'h2')
        for st in install(e, [State()], s, h):
            bad = expect(e, deliver(e, st, s), h, s)
            ctx.check(bad is None, 'delivery', '%d/%s' % (s, lab), w, 'signal %d with a handler installed: %s' % (s, bad), sample='signal %d: handler(%d), once' % (s, s))
            for st2 in install(e, [st], s, h2):
                bad = expect(e, deliver(e, st2, s), h2, s)
                ctx.check(bad is None, 'replace', '%d/%s' % (s, lab), w, 'signal %d after replacing its handler: %s' % (s, bad), sample='signal %d: the handler installed last' % s)
            z = V(aw, C(0))
            for st2 in install(e, [st], s, z):
                bad = next(('delivery ends in %s %s with calls %s' % r[:3] for r in deliver(e, st2, s) or [] if r[0] != 'ret' or r[2]), None)
                ctx.check(bad is None, 'replace', '%d,none/%s' % (s, lab), w, 'signal %d after removing its handler: %s' % (s, bad), sample='signal %d: ignored' % s)
                for st3 in install(e, [st2], s, h2):
                    bad = expect(e, deliver(e, st3, s), h2, s)
                    ctx.check(bad is None, 'replace', '%d,again/%s' % (s, lab), w, 'signal %d after removing and installing a handler: %s' % (s, bad), sample='signal %d: installed again' % s)
            for t in SIGS:
                if t == s: continue
                for st2 in install(e, [st], t, h2):
                    bad = expect(e, deliver(e, st2, s), h, s); bad2 = expect(e, deliver(e, st2, t), h2, t)
                    ctx.check(bad is None, 'independent', '%d,%d/%s' % (s, t, lab), w, 'signal %d after installing a handler for %d: %s' % (s, t, bad), sample='handlers of %d and %d do not interfere' % (s, t))
                    ctx.check(bad2 is None, 'independent', '%d,%d,second/%s' % (s, t, lab), w, 'signal %d with a handler for %d installed before: %s' % (t, s, bad2), sample='handlers of %d and %d do not interfere' % (s, t))
        # any other signal number: no write outside the table, no effect on s
        e = fresh(); h = ptr(e, 'h1'); h2 = ptr(e, 'h2')
        for st in install(e, [State()], s, h):
            x = e.isym('s', 32)
            for o in guard(ctx, rt.call, e, 'p_set', [x, h2], st.clone()):
                for c in cases(e, o.st, [P('s') - q for q in SIGS] + [q - P('s') for q in SIGS]):
                    if any(e.entails(c, P('s') - q) and e.entails(c, q - P('s')) for q in SIGS): continue
                    nw = [x for x in c.mem[len(st.mem):] if x[1] and x[1].startswith('@')]; sg = [x for x in c.events[len(st.events):] if x[0] == 'signal']
                    bad = None
                    if any(x[0] == 'w' and not intable(rt, e, c, x) for x in nw): bad = 'memory outside the table of handlers is written'
                    else:
                        for y, r in split(e, lambda z: expect(e, deliver(e, z, s), h, s), c):
                            if e.infeasible(y): continue
                            bad = bad or r
                    ctx.check(bad is None, 'independent', '%d,other/%s/%s' % (s, lab, len(nw)), w, 'signal %d after an attempt to handle another signal number: %s (%s)' % (s, bad, describe(e, c, ())), sample='other signal numbers leave signal %d alone' % s)
    e = fresh()
    for o in guard(ctx, rt.call, e, 'p_auto', [], State()):
        r = deliver(e, o.st, 11)
        # follow one more level: the handler called is the run-time's own
        bad = 'SIGSEGV is not registered' if r is None else None
        for kind, val, calls, st in r or []:
            if kind == 'halt' and val == -10: continue
            if kind != 'ret' or len(calls) != 1: bad = 'delivery of SIGSEGV ends in %s %s with calls %s' % (kind, val, calls); break
            n = [m[0] for m in calls[0][0].t if m]; f = e.fn_syms.get(n[0]) if len(n) == 1 else None
            for q in guard(ctx, rt.call, e, f, [V(32, C(11))], State()) if f else []:
                if (q.kind, q.val) != ('halt', -10): bad = 'SIGSEGV ends in %s %s instead of HALT(-10)' % (q.kind, q.val)
            if not f: bad = 'SIGSEGV calls %s' % calls[0][0]
        ctx.check(bad is None, 'nilaccess', lab, wa, 'access through NIL: %s' % bad, sample='SIGSEGV -> HALT(-10)')
def intable(rt, e, st, x):
    g = rt.m.globals.get(x[1][1:])
    if g is None: return True
    size = rt.m.size(rt.m.resolve(g[0]))
    return e.entails(st, x[2]) and e.entails(st, C(size) - x[3] - x[2])
def windows(ctx, lab, cfg):
    rt = Rt(ctx, 'void p_int(ADDRESS h) { SystemSetInterruptHandler(h); } void p_quit(ADDRESS h) { SystemSetQuitHandler(h); }', label=lab, **cfg); aw = rt.ptrw
    w = rt.where('SystemConsoleCtrlHandler', 'EnsureConsoleCtrlHandler', 'SystemSetInterruptHandler', 'SystemSetQuitHandler')
    for seq in (('p_int',), ('p_quit',), ('p_int', 'p_quit'), ('p_quit', 'p_int'), ('p_int', 'p_int'), ('p_quit', 'p_quit'), ('p_int', 'p_quit', 'p_int')):
        e = rt.eng(); reg = []; sts = [State()]; last = {}
        def setc(eng, st, v, ins):
            st.events = st.events + [('console', eng.norm(st, eng.topoly(st, v[0])), v[1])]; return V(32, C(1))
        e.handlers['SetConsoleCtrlHandler'] = setc
        for i, f in enumerate(seq):
            h = e.psym('h%d' % i); last[f] = h
            nx = []
            for st in sts:
                for o in guard(ctx, rt.call, e, f, [h], st.clone()): nx.append(o.st)
            sts = nx
        for st in sts:
            ev = [x for x in st.events if x[0] == 'console']
            n = [m[0] for m in ev[0][1].t] if ev else []; name = e.fn_syms.get(n[0]) if n else None
            ctx.check(len(ev) == 1 and name is not None, 'console', '%s/register' % ','.join(seq), w, 'the console handler is registered %d times' % len(ev), sample='console handler registered once')
            if not name: continue
            for ct in (0, 1, 2, 5, 6):
                q = st.clone(); q.events = []
                want = last.get('p_int') if ct in (0, 1) else last.get('p_quit'); num = 2 if ct in (0, 1) else 3
                for o in guard(ctx, rt.call, e, name, [V(32, C(ct))], q):
                    calls = [x for x in o.st.events if x[0] == 'icall']
                    if want is None: ok = o.kind == 'ret' and not calls and e.same(o.st, o.val, V(32, C(0)))
                    else: ok = o.kind == 'ret' and len(calls) == 1 and e.norm(o.st, calls[0][1] - want.p) == 0 and len(calls[0][2]) == 1 and e.same(o.st, calls[0][2][0], V(32, C(num))) and e.same(o.st, o.val, V(32, C(1)))
                    ctx.check(ok, 'console', '%s/%d' % (','.join(seq), ct), w, 'console event %d with handlers set by %s: calls %s, yields %s' % (ct, seq, calls, o.val), sample='event %d: %s' % (ct, 'handler(%d)' % num if want is not None else 'not handled'))

"""Enumeration of pointers for the collector: the events of SYSTEM_ENUMP and SYSTEM_ENUMR are summarised as families of calls over loop
counters, and the families must partition the words (respectively elements x table entries) exactly."""
from ._c import *
LEVEL = 'other'
def leaf(e, st, ev):
    """('call'|'icall', target, args) -> the value passed"""
    return ev[2]
def segments(e, st, events, idx):
    """[(lo, len, payload)]: idx(event) gives (index polynomial, payload); nested loops are the payload's business"""
    r = []
    for ev in events:
        if ev[0] == 'for':
            _, k, N, alts = ev
            for body in alts:
                if len(body) != 1 and idx is None: return None
            r.append(('loop', k, N, alts))
        else: r.append(('one', ev))
    return r
def partition(e, st, segs, n):
    """do the segments (lo, len) cover [0, n) without overlap?"""
    segs = list(segs); p = C(0)
    for _ in range(len(segs) + 1):
        if e.entails(st, p - n) and e.entails(st, n - p): return None if not segs else 'some words are visited twice'
        x = next((s for s in segs if e.norm(st, s[0] - p) == 0 or (e.entails(st, s[0] - p) and e.entails(st, p - s[0]))), None)
        if x is None: return 'word %s is not visited' % p
        segs.remove(x); p = p + x[1]
    return 'the visits do not add up to n'
def linear(e, st, off, k, N, step):
    """offset a + step*k (or downwards) over k in [0,N) -> first index and count, indices in units of step"""
    c = e.coef(off, k)
    if c is None: return None
    base = off.subst(k, C(0))
    if e.norm(st, c - step) == 0: lo = base
    elif e.norm(st, c + step) == 0: lo = base + c * (N - 1)
    else: return None
    q = e.pdiv(e.norm(st, lo), step if isinstance(step, Poly) else C(step))
    return None if q is None else (q, N)
def run(ctx):
    pr = '''
    extern void cb();
    void p_ep(void *a, INT32 n, void (*P)()) { __ENUMP(a, n, P); } void p_ep16(void *a, INT16 n, void (*P)()) { __ENUMP(a, n, P); } void p_epf(void *a, ADDRESS n, void (*P)()) { SYSTEM_ENUMP(a, n, P); }
    void p_er(void *a, ADDRESS *t, INT32 s, INT32 n, void (*P)()) { __ENUMR(a, t, s, n, P); } void p_erf(void *a, ADDRESS *t, ADDRESS s, ADDRESS n, void (*P)()) { SYSTEM_ENUMR(a, t, s, n, P); }
    ''' + ''.join('void p_ec%d(void *a, void (*P)()) { __ENUMP(a, %d, P); } void p_rc%d(void *a, ADDRESS *t, void (*P)()) { __ENUMR(a, t, 24, %d, P); } ' % (n, n, n, n) for n in (1, 2, 3, 10))
    for lab, cfg in configs(ctx):
        rt = Rt(ctx, pr, label=lab, **cfg); A = rt.ptrw // 8; aw = rt.ptrw
        def target(ev): return ev[0] == 'icall' and ev[1] == P('P')
        def pasv(e, st, ev, reg):
            """offset of the word of region reg whose value the call passes"""
            if len(ev[2]) != 1: return None
            p = e.norm(st, e.topoly(st, ev[2][0])); d = e.defs.get(str(p))
            return d[1][0] if d and d[0] == 'M' + reg else None
        for fn, w in (('p_ep', 32), ('p_ep16', 16), ('p_epf', aw)) + tuple(('p_ec%d' % n, n) for n in (1, 2, 3, 10)):
            e = rt.eng(); a = e.psym('a'); f = e.psym('P'); wh = rt.where('SYSTEM_ENUMP', '__ENUMP')
            if fn.startswith('p_ec'): n = C(w); args = [a, f]
            else: n = e.sym('n', 0, min((1 << (w - 1)) - 1, 1 << (40 if aw == 64 else 26))); args = [a, V(w, n), f]
            for o in guard(ctx, rt.call, e, fn, args):
                st = o.st; segs = []; bad = None
                if o.kind != 'ret': bad = 'ends in %s' % o
                for ev in st.events if not bad else []:
                    if ev[0] == 'for':
                        _, k, N, alts = ev; alts = nilskips(e, st, k, alts, target)
                        if any(len(b) != 1 or not target(b[0]) for b in alts): bad = 'calls %s per element' % (alts,); break
                        sgs = []
                        for b in alts:
                            off = pasv(e, st, b[0], 'a'); sgs.append(None if off is None else linear(e, st, off, k, N, C(A)))
                        if any(x is None or x != sgs[0] for x in sgs): bad = 'passes %s, not the pointers of the array one by one' % (alts[0][0][2],); break
                        segs.append(sgs[0])
                    elif target(ev):
                        off = pasv(e, st, ev, 'a'); q = None if off is None else e.pdiv(off, C(A))
                        if q is None: bad = 'passes %s, not a pointer of the array' % (ev[2],); break
                        segs.append((q, C(1)))
                    else: bad = 'calls %s' % (ev[1],); break
                for c in cases(e, st, [n - 1]):
                    if bad is None: bad = partition(e, c, segs, n if e.known(c, n - 1) else C(0))
                if bad is None and any(x[1] in ('a',) for x in st.mem): bad = 'the array is written'
                ctx.check(bad is None, 'enum-pointers', '%s/%s/%s' % (fn[2:], lab, 'some' if segs else 'none'), wh, 'enumeration of n pointers: %s (%s)' % (bad, describe(e, st, ())), sample='P(a[i]) exactly once for 0 <= i < n (%s)' % (segs or 'n <= 0: no call',))
        for fn, w in (('p_er', 32), ('p_erf', aw)) + tuple(('p_rc%d' % n, n) for n in (1, 2, 3, 10)):
            e = rt.eng(); a = e.psym('a'); t = e.psym('t'); f = e.psym('P'); wh = rt.where('SYSTEM_ENUMR', '__ENUMR')
            if fn.startswith('p_rc'): n = C(w); s = C(24); args = [a, t, f]
            else:
                s = e.sym('s', 1, 1 << 20); n = e.sym('n', 0, min((1 << (w - 1)) - 1, 1 << (40 if aw == 64 else 26))); args = [a, t, V(w, s), V(w, n), f]
            for o in guard(ctx, rt.call, e, fn, args):
                st = o.st; bad = None; outer = []
                def inner(evs, st, elem):
                    """the events of one element: every table entry up to the sentinel exactly once; returns complaint"""
                    segs = []
                    for ev in evs:
                        if ev[0] == 'for':
                            _, j, J, alts = ev
                            alts = nilskips(e, st, j, alts, target)
                            if any(len(b) != 1 or not target(b[0]) for b in alts): return 'calls %s per entry' % (alts,)
                            sgs = [entry(b[0], st, elem) for b in alts]; sg = sgs[0]
                            if any(x is None or x != sg for x in sgs): return 'passes %s, not the pointer field of the element' % (alts[0][0][2],)
                            l = linear(e, st, sg - A, j, J, C(A))
                            if l is None: return 'visits table entries at %s' % sg
                            segs.append(l)
                        elif target(ev):
                            sg = entry(ev, st, elem)
                            if sg is None: return 'passes %s, not the pointer field of the element' % (ev[2],)
                            q = e.pdiv(sg - A, C(A))
                            if q is None: return 'visits the table entry at %s' % sg
                            segs.append((q, C(1)))
                        else: return 'calls %s' % (ev[1],)
                    J = sum((x[1] for x in segs), C(0))
                    m = partition(e, st, segs, J)
                    if m: return 'table entries: ' + m
                    x = e.defsym('Mt', (e.norm(st, J * A + A),), -(1 << (aw - 1)), (1 << (aw - 1)) - 1, ('w',))
                    if not e.entails(st, -x - 1): return 'stops before the sentinel'
                    return None
                def entry(ev, st, elem):
                    off = pasv(e, st, ev, 'a')
                    if off is None: return None
                    d = e.norm(st, off - elem); q = e.defs.get(str(d))
                    return q[1][0] if q and q[0] == 'Mt' else None
                for ev in st.events:
                    if o.kind != 'ret': break
                    if ev[0] == 'for' and ev[3] and ev[3][0] and ev[3][0][0][0] == 'for' or ev[0] == 'for' and nmentions(e, st, ev, s, pasv):
                        _, k, N, alts = ev
                        for cand in (P(k) * s, (N - 1 - P(k)) * s, (P(k) + 1) * s):
                            m = next((y for y in (inner(b, st, cand) for b in alts) if y), None)
                            if m is None: outer.append((C(1) if cand == (P(k) + 1) * s else C(0), N)); bad = None; break
                            bad = bad or m
                        if bad: break
                    else: outer.append(ev)
                # ground elements: group the remaining events by element
                ground = [x for x in outer if not (isinstance(x, tuple) and isinstance(x[0], Poly))]; outer = [x for x in outer if isinstance(x, tuple) and isinstance(x[0], Poly)]
                i = 0; bases = [C(0)] + [lo + N for lo, N in outer] + [n - 1]
                while ground and bad is None and i < 24:
                    # the longest run of events that belongs to the next element
                    for bi, b0 in enumerate(bases):
                        mine = [x for x in ground if belongs(e, st, x, b0 * s, entry)]
                        if mine: break
                    if not mine: bad = 'an element is not visited, or something else is'; break
                    bad = inner(mine, st, b0 * s); ground = [x for x in ground if x not in mine]; outer.append((b0, C(1))); bases[bi] = b0 + 1; i += 1
                if o.kind != 'ret': bad = 'ends in %s' % o
                nptr0 = e.entails(st, -e.defsym('Mt', (C(A),), -(1 << (aw - 1)), (1 << (aw - 1)) - 1, ('w',)) - 1)
                for c in cases(e, st, [n - 1]):
                    if bad is not None: break
                    if not st.events: bad = None if nptr0 or not e.known(c, n - 1) else 'no pointer is visited'
                    else: bad = partition(e, c, outer, n if e.known(c, n - 1) else C(0))
                if bad is None and any(x[1] in ('a', 't') for x in st.mem): bad = 'the records or the table are written'
                ctx.check(bad is None, 'enum-records', '%s/%s/%s' % (fn[2:], lab, 'some' if st.events else 'none'), wh, 'enumeration of the pointers in n records: %s (%s)' % (bad, describe(e, st, ())), sample='P(word at a + i*size + t[j+1]) exactly once for 0 <= i < n, 0 <= j < #pointers')
    ctx.floor('enum-pointers', 3 * 10); ctx.floor('enum-records', 3 * 12)
def nmentions(e, st, ev, s, pasv):
    """a loop over elements whose table has a single, unrolled entry: the offset moves by s per iteration"""
    _, k, N, alts = ev
    for b in alts:
        for x in b:
            if x[0] in ('call', 'icall'):
                off = pasv(e, st, x, 'a')
                if off is not None:
                    c = e.coef(off, k)
                    if c is not None and (e.norm(st, c - s) == 0 or e.norm(st, c + s) == 0): return True
    return False
def nilskips(e, st, k, alts, target):
    """the ways round the loop that make no call are those on which the pointer is NIL -> the alternatives that remain"""
    if all(alts) or not any(alts): return alts
    gs = findforall(st.trail, k)
    vals = [e.norm(st, e.topoly(st, b[0][2][0])) for b in alts if b and b[0][0] == 'icall' and len(b[0][2]) == 1]
    if gs is None or len(gs) != len(alts): return alts
    keep = []
    for b, g in zip(alts, gs):
        if not b and vals:
            n = st.clone()
            if not all(e.add(n, f) for f in g if isinstance(f, Poly)): continue
            if any(e.entails(n, v) and e.entails(n, -v) for v in vals): continue
        keep.append(b)
    return keep
def findforall(t, k):
    for x in t:
        if isinstance(x, tuple) and x and x[0] == 'forall' and x[1] == k: return x[3]
        if isinstance(x, tuple) and x and x[0] == 'forall':
            for g in x[3]:
                r = findforall(g, k)
                if r is not None: return r
    return None
def belongs(e, st, ev, elem, entry):
    x = ev
    while x[0] == 'for': x = next(b for b in x[3] if b)[0]
    return entry(x, st, elem) is not None

"""NEW of dynamic arrays.  SYSTEM_NEWARR is evaluated for symbolic lengths against a model of Heap.NEWBLK (a block with at least the
bytes asked for, followed by a tag area); the memory it leaves is read back at symbolic positions: length vector, place of the data,
and - for elements with pointers - a private pointer table naming exactly the pointers of every element."""
from ._c import *
LEVEL = 'other'
def run(ctx):
    RECS = [('D1', (0,), 2), ('D2', (1, 3), 4), ('D3', (0, 1, 5), 6), ('D5', (1, 2, 3, 6, 7), 9)]
    CASES = []                                      # (kind, elemsize words or bytes, align, nofdim, nofdyn)
    for nd, ny in ((1, 1), (2, 2), (3, 3), (1, 0), (2, 1), (2, 0), (3, 1), (3, 2)):
        for sz, al in ((1, 1), (2, 2), (4, 4), (8, 8), (24, 8), (32, 16), (7, 1), (20, 4)): CASES.append(('NIL', sz, al, nd, ny))
        CASES.append(('PTR', None, None, nd, ny))
        for r in RECS: CASES.append((r, None, None, nd, ny))
    def job(ctx, lab, cfg, part, sgn):
        pr = []
        for n, offs, w in RECS:
            pr.append('typedef struct %s { ADDRESS f[%d]; } %s; ADDRESS *%s__typ; __TDESC(%s, 1, %d) = {__TDFLDS("%s", sizeof(%s)), {%s, -%d * (ADDRESS)sizeof(ADDRESS)}};' % (n, w, n, n, n, len(offs), n, n, ', '.join('%d * sizeof(ADDRESS)' % o for o in offs), len(offs) + 1))
        for n, _, _ in RECS: pr.append('void p_init_%s(void) { void *m = 0; __INITYP(%s, %s, 0); }' % (n, n, n))
        for c in part:
            i = CASES.index(c); k, sz, al, nd, ny = c
            typ = {'NIL': 'NIL', 'PTR': 'POINTER__typ'}.get(k) or '%s__typ' % k[0]
            es = str(sz) if k == 'NIL' else ('sizeof(ADDRESS)' if k == 'PTR' else 'sizeof(%s)' % k[0]); ea = str(al) if k == 'NIL' else 'sizeof(ADDRESS)'
            ls = ['(ADDRESS)(l%d)' % j for j in range(nd)]
            pr.append('void *p_na_%d(%s) { return __NEWARR(%s, %s, %s, %d, %d, %s); }' % (i, ', '.join('ADDRESS l%d' % j for j in range(nd)), typ, es, ea, nd, ny, ', '.join(ls)))
        rt = Rt(ctx, '\n'.join(pr), label=lab, **cfg); A = rt.ptrw // 8; aw = rt.ptrw; wh = rt.where('SYSTEM_NEWARR')
        for c in part:
            i = CASES.index(c); k, sz, al, nd, ny = c
            es = sz if k == 'NIL' else A if k == 'PTR' else k[2] * A; ea = al if k == 'NIL' else A
            offs = () if k == 'NIL' else (0,) if k == 'PTR' else tuple(o * A for o in k[1])
            kn = k if isinstance(k, str) else k[0]; name = '%s%s,%d,%d/%d' % (kn, '' if k != 'NIL' else ',%d,%d' % (sz, al), nd, ny, aw)
            do = -(-ny * A // ea) * ea if ea > A else ny * A
            for neg in [None] + [{j} for j in range(nd)] + [{0, j} for j in range(1, nd)]:
                e = rt.eng(mutable={g + '__typ' for g, _, _ in RECS}); st = State()
                for g, _, _ in RECS:
                    e.psym('@%s__desc' % g)
                    x = rt_blksz(rt, e, g)
                    st.mem = st.mem + [('w', '@%s__typ' % g, C(0), A, V(aw, P('@%s__desc' % g) + x), None)]
                X = e.psym('X'); G = e.psym('G'); bs = e.isym('blksz', aw)
                def lk(n): return lambda eng, s, v, ins: setattr(s, 'events', s.events + [(n, v)])
                e.handlers['Heap_Lock'] = lk('lock'); e.handlers['Heap_Unlock'] = lk('unlock')
                def nb(eng, s, v, ins):
                    s.events = s.events + [('newblk', v)]
                    s.mem = s.mem + [('w', 'X', C(-A), A, V(aw, P('G')), None), ('w', 'G', C(0), A, bs, None), ('w', 'G', C(A), A, V(aw, C(-A)), None)]
                    return V(aw, P('X'))
                e.handlers['Heap_NEWBLK'] = nb
                hi = 1 << (14 if aw == 64 else 6)
                ls = [e.sym('l%d' % j, 1 if neg is None or j not in neg else -hi, hi if neg is None or j not in neg else 0) for j in range(nd)]
                for o in guard(ctx, rt.call, e, 'p_na_%d' % i, [V(aw, l) for l in ls], st):
                    s = o.st
                    if e.infeasible(s): continue
                    if neg is not None:
                        ctx.check(o.kind == 'halt' and o.val == -20, 'length', '%s/%s' % (name, sorted(neg)), wh, 'NEW with a length <= 0 in dimensions %s (of %d, counted from 0) does not trap with -20: %s' % (sorted(neg), nd, o), sample='dimensions %s of %d <= 0: HALT(-20)' % (sorted(neg), nd)); continue
                    if o.kind != 'ret': ctx.check(False, 'length', '%s/pos' % name, wh, 'NEW with lengths >= 1 stops: %s (%s)' % (o, describe(e, s, ()))); continue
                    ctx.ob('length', 'all lengths positive: an array')
                    n = C(1)
                    for l in ls: n = n * l
                    np = n * len(offs); size = n * es + do
                    ev = [x for x in s.events if x[0] == 'newblk']; bad = None
                    if len(ev) != 1: bad = 'the block is requested %d times' % len(ev)
                    elif not e.same(s, o.val, X): bad = 'yields %s, not the new block' % (o.val,)
                    ctx.check(bad is None, 'block', name, wh, 'NEW of an array (%s): %s' % (name, bad), sample='one block requested and returned')
                    if bad: continue
                    req = e.topoly(s, ev[0][1][0])
                    ok = e.entails(s, req - size - np * A) or e.norm(s, req - size - np * A) == 0
                    ctx.check(ok, 'size', name, wh, 'NEW of an array (%s): %s bytes requested where %s of data and %s of pointer table are needed' % (name, e.norm(s, req), e.norm(s, size), e.norm(s, np * A)), sample='%s: %s bytes' % (name, e.norm(s, req)))
                    if ok and not (e.entails(s, size + np * A + 4 * A + 64 - req)): ctx.notes.append('%s: more memory than needed is requested' % name)
                    # lock pairing
                    depth = 0; lb = None
                    for x in s.events:
                        if x[0] == 'lock': depth += 1
                        elif x[0] == 'unlock': depth -= 1
                        elif x[0] == 'newblk' and depth < 1: lb = 'the block is requested without the heap lock'
                        if depth < 0: lb = 'the heap is unlocked more often than locked'
                    if depth: lb = 'returns with the heap lock held %d times' % depth
                    ctx.check(lb is None, 'lock', name, wh, 'NEW of an array (%s): %s' % (name, lb), sample='lock, request, unlock')
                    # length vector
                    for j in range(ny):
                        v = e.loadmem(s, P('X') + j * A, ('i', aw), A, s.mem)
                        ctx.check(e.same(s, v, V(aw, ls[j])), 'lengths', '%s/%d' % (name, j), wh, 'NEW of an array (%s): length %d in the block is %s instead of %s' % (name, j, v, ls[j]), sample='length vector word %d = argument %d' % (j, j))
                    # nothing is written into the data or outside the block
                    tag = e.topoly(s, e.loadmem(s, P('X') - A, ('ptr',), A, s.mem)); bad = None
                    for x in s.mem:
                        if x[0] == 'w' and x[1] == 'X':
                            w = e.norm(s, x[2])
                            if w.const() is None or not (w.const() == -A or 0 <= w.const() < ny * A): bad = 'the word at %s of the block is written' % w
                        elif x[1] == 'X': bad = 'words of the data are written (%s)' % (x[2],)
                    ctx.check(bad is None, 'data', name, wh, 'NEW of an array (%s): %s' % (name, bad), sample='elements are left as cleared')
                    if not offs:
                        ctx.check(e.norm(s, tag - P('G')) == 0, 'table', name, wh, 'NEW of an array without pointers (%s) changes the tag to %s' % (name, tag), sample='tag unchanged'); continue
                    b, t0 = e.base(e.norm(s, tag)); bad = None
                    if b != 'G': bad = 'the tag points to %s' % tag
                    def word(q, x=s): return e.loadmem(x, tag + q, ('i', aw), A, x.mem)
                    if bad is None and not e.same(s, word(C(0)), bs): bad = 'the tag does not lead to the block size but to %s' % (word(C(0)),)
                    if bad is None and not (e.entails(s, P('G') - tag - np * A) and e.entails(s, tag + np * A - P('G'))): bad = 'the table does not end at the tag area (tag at %s, %s entries)' % (tag, np)
                    for y, v in split(e, lambda z: word(A + np * A, z), s) if bad is None else ():
                        if e.infeasible(y): continue
                        if not e.same(y, v, V(aw, -(np + 1) * A)): bad = 'the end mark (%s) is %s instead of %s' % (describe(e, y, ()), v, -(np + 1) * A)
                    ix = e.sym('ix', 0, None)
                    for j, off in enumerate(offs):
                        if bad: break
                        for x in range(1):
                            q = s.clone()
                            if not e.add(q, n - 1 - ix) or e.infeasible(q): continue
                            want = ix * es + do + off
                            for y, v in split(e, lambda z: word((ix * len(offs) + j) * A + A, z), q):
                                if e.infeasible(y): continue
                                if not e.same(y, v, V(aw, want)): bad = 'entry %d of element i is %s instead of %s' % (j, v, want); break
                    ctx.check(bad is None, 'table', name, wh, 'NEW of an array of %s (%s): %s' % ('pointers' if k == 'PTR' else 'records', name, bad), sample='%s: entry i*%d+j = %d + i*%d + offset j, end mark -(n+1) words, block size in front' % (name, len(offs), do, es))
    jobs = []
    for lab, cfg in configs(ctx):
        for k in range(4): jobs.append(lambda c, lab=lab, cfg=cfg, k=k: job(c, lab, cfg, CASES[k::4], None))
    parallel(ctx, jobs)
    for r, n in (('length', 300), ('block', 100), ('size', 100), ('lock', 100), ('lengths', 100), ('table', 100), ('data', 100)): ctx.floor(r, n)
    ctx.assume('Heap.NEWBLK yields a cleared block of at least the requested size whose tag area lies behind those bytes; the number of elements does not overflow an address')
def rt_blksz(rt, e, g):
    """offset of the word X__typ points to (the block size) within the descriptor, from the compiled initialisation"""
    x = rt.eng(mutable={'%s__typ' % g}); st = State()
    for h in ('Heap_REGTYP', 'SYSTEM_INHERIT'): x.handlers[h] = lambda eng, s, v, ins: None
    o = [q for q in x.call('p_init_%s' % g, [], st) if q.kind == 'ret'][0].st
    return x.base(x.loadmem(o, P('@%s__typ' % g), ('ptr',), rt.ptrw // 8, o.mem).p)[1]

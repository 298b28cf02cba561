"""Shared machinery of the C run-time properties: probe generation, case splitting, reporting."""
import os, re, tempfile
from cblib import llir, cabs
from cblib.cabs import Engine, State, V, F, P, C, Fork, BitFork, CabsError, MemError
from cblib.poly import Poly
from oblib.harness import Broken

I = {8: 'INT8', 16: 'INT16', 32: 'INT32', 64: 'INT64'}
U = {8: 'UINT8', 16: 'UINT16', 32: 'UINT32', 64: 'UINT64'}
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cblib', 'stubs')

class Rt:
    """one compiled configuration of the run-time together with generated probes"""
    def __init__(s, ctx, probes='', target=None, defs=(), extra=(), label='LP64', pre=''):
        s.ctx = ctx; s.label = label
        s.inc = os.path.join(ctx.root, 'src', 'runtime')
        for f in ('SYSTEM.h', 'SYSTEM.c'):
            if not os.path.exists(os.path.join(s.inc, f)): raise Broken('src/runtime/%s not found' % f)
        with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as f:
            f.write('%s\n#include "SYSTEM.c"\n#define SHORTINT INT8\n#define INTEGER INT16\n#define LONGINT INT32\n#define SET UINT32\n%s\n' % (pre, probes))
        try: s.m = llir.compile_ir(f.name, [s.inc], defs, target, extra)
        except llir.IRError as e: raise Broken('the run-time does not compile with the probes of this property: %s' % e)
        finally: os.unlink(f.name)
        s.hdr = open(os.path.join(s.inc, 'SYSTEM.h')).read().split('\n')
        s.src = open(os.path.join(s.inc, 'SYSTEM.c')).read().split('\n')
        s.ptrw = s.m.ptrsize * 8
    def eng(s, unsigned=(), mutable=()):
        e = Engine(s.m); e.unsigned_regions = set(unsigned); e.mutable = set(mutable); return e
    def where(s, *names):
        r = []
        for n in names:
            for fn, ls in (('SYSTEM.h', s.hdr), ('SYSTEM.c', s.src)):
                for i, l in enumerate(ls):
                    if re.search(r'^\s*#\s*define\s+%s\b' % re.escape(n), l) or (re.search(r'\b%s\s*\(' % re.escape(n), l) and '{' in l + (ls[i + 1] if i + 1 < len(ls) else '') and not l.strip().startswith('#') and not l.startswith('extern') and re.match(r'^\s*(static|inline|[A-Za-z_]\w*\s+\*?%s)' % re.escape(n), l)):
                        r.append('src/runtime/%s:%d' % (fn, i + 1)); break
                else: continue
                break
        return ' '.join(r) or 'src/runtime/SYSTEM.h'
    def call(s, e, fn, args, st=None):
        s.ctx.funcs.update()
        o = e.call(fn, args, st or State())
        for f in e.visited:
            if not f.startswith('p_'): s.ctx.funcs.add('SYSTEM.' + f)
        return o

def cases(e, st, polys=(), bits=()):
    """the feasible sub-cases of st in which every poly has a decided sign and every bit a value"""
    out = [st]
    for p in polys:
        nx = []
        for x in out:
            k = e.known(x, p)
            if k is not None: nx.append(x); continue
            for q in (p, -p - 1):
                n = x.clone()
                if e.add(n, q) and not e.infeasible(n): nx.append(n)
        out = nx
    return out
def yes(e, st, p): return e.entails(st, p)
def describe(e, st, names):
    """the region of inputs a path stands for, for a report"""
    f = [t for t in st.trail if isinstance(t, Poly)]
    b = ['bit %d of %s = %d' % (x[2], x[1], x[3]) for x in st.trail if isinstance(x, tuple) and x[0] == 'bit']
    return ' and '.join(['%s >= 0' % p for p in f[:5]] + b[:3]) or 'all inputs'

def split(e, fn, st):
    """run fn(state); on a Fork split the state; returns [(state, result)]"""
    work = [st]; r = []
    n = 0
    while work:
        x = work.pop(); n += 1
        if n > 400: raise CabsError('too many cases')
        try: r.append((x, fn(x)))
        except Fork as f:
            for q in (f.p, -f.p - 1):
                y = x.clone()
                if e.add(y, q): work.append(y)
        except BitFork as f:
            for bv in (0, 1):
                y = x.clone(); y.bitf[(f.b[0], f.b[1])] = bv ^ f.b[2]; work.append(y)
    return r

def guard(ctx, f, *a):
    """an abstraction failure is an analysis error, not a verdict"""
    try: return f(*a)
    except MemError as e:
        ctx.check(False, 'memory', str(e), 'src/runtime/SYSTEM.c', str(e)); return []
    except CabsError as e: raise Broken('cannot analyse: %s' % e)

CONFIGS = {'LP64': dict(), 'ILP32': dict(target='i386-linux-gnu', extra=('-nostdlibinc', '-isystem', STUBS)),
           'LLP64': dict(target='x86_64-w64-mingw32', defs=('_WIN64', '_WIN32'), extra=('-nostdlibinc', '-isystem', STUBS))}
def configs(ctx): return CONFIGS.items()

def trapcheck(ctx, rt, rule, fn, args, inrange, value, code, names, where, what, assume=()):
    """rule: the probe returns value on inrange (list of polys, all >=0) and halts with code otherwise"""
    e = rt.eng(); e.bounds.update(args[1])
    st = State()
    for f in assume: e.add(st, f)
    n = 0
    for o in guard(ctx, rt.call, e, fn, args[0], st):
        for c in cases(e, o.st, inrange):
            ok = all(e.entails(c, p) for p in inrange); n += 1
            if ok and o.kind != 'ret': bad = 'traps although the operand is in range'
            elif ok and not all(r for _, r in split(e, lambda x: e.same(x, o.val, value(o.val.w)), c)): bad = 'yields %s instead of the operand' % (o.val,)
            elif not ok and o.kind == 'ret': bad = 'does not trap although the operand is out of range'
            elif not ok and o.val != code: bad = 'halts with code %s instead of %d' % (o.val, code)
            else: bad = None
            ctx.check(bad is None, rule, '%s/%s/%s' % (fn[2:], rt.label, bad or 'ok'), where, '%s: %s when %s' % (what, bad, describe(e, c, names)), sample='%s [%s]: %s on %s' % (what, rt.label, 'value' if ok else 'HALT(%d)' % code, describe(e, c, names)))
    return n

def parallel(ctx, jobs, n=8):
    """run job(ctx) for every job in forked workers and merge what they found"""
    import multiprocessing as mp, copy
    mpx = mp.get_context('fork'); global _JOBS, _CTX
    _JOBS = jobs; _CTX = ctx
    with mpx.Pool(min(n, len(jobs))) as pool: res = pool.map(_run, range(len(jobs)), 1)
    for r in res:
        if r[0] == 'broken': continue
        _, rules, samples, viol, funcs, notes, assum = r
        for k, v in rules.items(): ctx.rules[k] = ctx.rules.get(k, 0) + v
        for k, v in samples.items(): ctx.samples.setdefault(k, []).extend(v[:max(0, 6 - len(ctx.samples.get(k, [])))])
        for v in viol: ctx.viol(v['rule'], v['instance'], v['where'], v['what'])
        ctx.funcs |= funcs; ctx.notes += [x for x in notes if x not in ctx.notes]
        for a in assum: ctx.assume(a)
    for r in res:
        if r[0] == 'broken': raise Broken(r[1])
def _run(i):
    from oblib.harness import Ctx
    import traceback
    c = Ctx(_CTX.pid, _CTX.tier); c.root = _CTX.root
    try: _JOBS[i](c)
    except Broken as e:
        if not c.violations: return ('broken', str(e))
        c.notes.append('part of the analysis was cut short: %s' % e)
    except CabsError as e:
        if not c.violations: return ('broken', 'cannot analyse: %s' % e)
    except Exception as e:
        if not c.violations: return ('broken', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))
        c.notes.append('part of the analysis was cut short: %s: %s' % (type(e).__name__, e))
    return ('ok', c.rules, c.samples, c.violations, c.funcs, c.notes, c.assumptions)

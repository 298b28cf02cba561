"""Runs one property's rules, applies the known-findings list, writes evidence."""
import sys, os, json, time, traceback, importlib
from . import front

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VOC_REPO', '/repo')

class Broken(Exception):
    """the analysis lost its anchors: neither a pass nor a violation"""

class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.root = REPO
        s.violations = []; s.rules = {}; s.samples = {}; s.notes = []; s.assumptions = []
        s.funcs = set(); s.extra = {}
        s._w = {}
        s.t0 = time.time()
    # -- source access
    def world(s, platform='unix'):
        if platform not in s._w: s._w[platform] = front.World(s.root, platform)
        return s._w[platform]
    def module(s, name, platform='unix'):
        w = s.world(platform)
        try: m = w.load(name)
        except front.FrontError as e: raise Broken('cannot analyse module %s: %s' % (name, e))
        if m is None: raise Broken('module %s not found' % name)
        return m
    def proc(s, qn, platform='unix', optional=False):
        mn, pn = qn.split('.', 1)
        p = s.module(mn, platform).proc(pn)
        if p is None or (p.body is None and p.kind != 'cproc'):
            if optional: return None
            raise Broken('anchor procedure %s not found' % qn)
        s.funcs.add(qn)
        return p
    def const(s, qn):
        mn, n = qn.split('.', 1)
        o = s.module(mn).scope.names.get(n)
        if o is None or o.kind != 'const' or o.val is None: raise Broken('anchor constant %s not found' % qn)
        return o.val
    def obj(s, qn):
        mn, n = qn.split('.', 1)
        o = s.module(mn).scope.names.get(n)
        if o is None: raise Broken('anchor %s not found' % qn)
        return o
    def field(s, tn, fn):
        o = s.obj(tn)
        f = front.find_field(o.typ, fn)
        if f is None: raise Broken('anchor field %s.%s not found' % (tn, fn))
        return f
    def where(s, p, line=None):
        """file:line of a procedure / node"""
        if isinstance(p, front.Obj): 
            m = s.module(p.mod) if p.mod else None
            return '%s:%d' % (m.relpath if m else '?', line or p.line)
        return '%s:%s' % (p, line)
    # -- results
    def ob(s, rule, sample=None, n=1):
        """count an obligation of `rule` that was decided"""
        s.rules[rule] = s.rules.get(rule, 0) + n
        if sample is not None:
            l = s.samples.setdefault(rule, [])
            if len(l) < 4: l.append(str(sample)[:200])
    def viol(s, rule, instance, where, msg):
        """instance: stable key without line numbers"""
        for v in s.violations:
            if v['rule'] == rule and v['instance'] == instance: return
        s.violations.append({'rule': rule, 'instance': instance, 'where': where, 'what': msg})
    def check(s, cond, rule, instance, where, msg, sample=None):
        s.ob(rule, sample or instance)
        if not cond: s.viol(rule, instance, where, msg)
        return cond
    def floor(s, rule, minimum):
        if s.rules.get(rule, 0) < minimum:
            raise Broken('rule %s decided only %d instances (expected at least %d): anchors lost?' % (rule, s.rules.get(rule, 0), minimum))
    def assume(s, t):
        if t not in s.assumptions: s.assumptions.append(t)
    def broken(s, m): raise Broken(m)
    def parallel(s, jobs, procs=8):
        """run the jobs (functions of a Ctx) in processes of their own and collect what they decided"""
        import pickle
        todo = list(enumerate(jobs)); running = {}; done = {}
        sys.stdout.flush(); sys.stderr.flush()
        while todo or running:
            while todo and len(running) < procs:
                i, f = todo.pop(0); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r); c = Ctx(s.pid, s.tier); c._w = s._w; err = None
                        try: f(c)
                        except (Broken, front.FrontError) as e: err = str(e)
                        except Exception as e: traceback.print_exc(limit=-6); err = '%s: %s' % (type(e).__name__, e)
                        with os.fdopen(w, 'wb') as o: pickle.dump((c.rules, c.samples, c.violations, c.notes, c.assumptions, c.funcs, c.extra, err), o)
                    except BaseException: traceback.print_exc(limit=-6); code = 1
                    finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
                os.close(w); running[r] = (i, pid, [])
            import select
            for r in select.select(list(running), [], [])[0]:
                b = os.read(r, 1 << 20)
                if b: running[r][2].append(b); continue
                i, pid, bs = running.pop(r); os.close(r); os.waitpid(pid, 0)
                done[i] = pickle.loads(b''.join(bs)) if bs else None
        errs = []
        for i in sorted(done):
            d = done[i]
            if d is None: errs.append('job %d died' % i); continue
            for k, n in d[0].items(): s.rules[k] = s.rules.get(k, 0) + n
            for k, l in d[1].items(): s.samples[k] = (s.samples.get(k, []) + l)[:4]
            for v in d[2]:
                if not any(v['rule'] == u['rule'] and v['instance'] == u['instance'] for u in s.violations): s.violations.append(v)
            s.notes += [n for n in d[3] if n not in s.notes]
            for a in d[4]: s.assume(a)
            s.funcs |= d[5]; s.extra.update(d[6])
            if d[7]: errs.append(d[7])
        if errs: raise Broken('; '.join(errs))

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            d = json.loads(l)
            if d.get('property') == pid: r.append(d)
    return r

def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier)
    evdir = os.environ.get('VOC_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    sys.setrecursionlimit(20000)
    rc = 0
    try:
        mod = importlib.import_module('props.' + pid)
        mod.run(ctx)
    except (Broken, front.FrontError) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); rc = 2
    except Exception as e:
        traceback.print_exc(limit=-6)
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(e).__name__, e)); rc = 2
    known = load_known(pid)
    new = []; hit = []
    for v in ctx.violations:
        k = next((d for d in known if d['rule'] == v['rule'] and d['instance'] == v['instance']), None)
        if k is not None: hit.append((k, v))
        else: new.append(v)
    for k, v in hit: print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, v['rule'], v['where'], k['what']))
    total = sum(ctx.rules.values())
    nv = len(ctx.violations)
    replay = os.path.join(evdir, pid + '.violations.json')
    with open(replay, 'w') as f: json.dump(ctx.violations, f, indent=1)
    if new:
        # a definite violation outranks a broken remainder of the analysis
        for v in new: print('  %s %s: %s -- %s' % (v['rule'], v['where'], v['instance'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        rc = 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(sys.modules.get('props.' + pid), 'LEVEL', 'other'),
          'coverage': dict({'explanation': getattr(sys.modules.get('props.' + pid), '__doc__', '') or '',
                            'obligations': total, 'discharged': max(0, total - nv), 'rules': ctx.rules,
                            'functions_analysed': sorted(ctx.funcs), 'samples': [{'rule': r, 'instances': l} for r, l in ctx.samples.items()],
                            'known_findings_seen': len(hit), 'status': {0: 'held', 1: 'violated', 2: 'analysis-broken'}[rc],
                            'notes': ctx.notes}, **ctx.extra),
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations over %d rules, %d violations (%d known), %.1fs' % (pid, total, len(ctx.rules), nv, len(hit), time.time() - ctx.t0))
    return rc

"""mkseed.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (text), files={name:text}
Writes /verif/seeded/<id>/ from edits against /repo HEAD (done in a temporary index, /repo untouched)."""
import sys, os, json, subprocess, tempfile, runpy
g = runpy.run_path(sys.argv[1])
for sp in (g['seeds'] if 'seeds' in g else [g]):
    d = '/verif/seeded/' + sp['id']; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='/tmp/mks')
    out = ''
    byf = {}
    for f, o, n in sp['edits']: byf.setdefault(f, []).append((o, n))
    for f, es in byf.items():
        raw = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, check=True).stdout
        src = raw.decode('latin-1', 'strict'); new = src
        crlf = '\r\n' in src
        for o, n in es:
            if crlf: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            assert new.count(o) == 1, (sp['id'], f, new.count(o), o)
            new = new.replace(o, n)
        a, b = os.path.join(t, 'a', f), os.path.join(t, 'b', f)
        for p, c in ((a, src), (b, new)):
            os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'wb').write(c.encode('latin-1')); os.chmod(p, os.stat('/repo/' + f).st_mode & 0o777)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True)
    open(d + '/patch.diff', 'wb').write(r.stdout)
    subprocess.run(['/bin/rm', '-rf', t])
    open(d + '/demo.sh', 'w').write(sp['demo'])
    for n, c in sp.get('files', {}).items(): open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': sp['property'], 'needs': sp['needs'], 'what_it_breaks': sp['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(sp['id'], len(r.stdout))

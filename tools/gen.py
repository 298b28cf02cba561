import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"', 'checks': [], 'not_applicable': []}
for p in props.P:
    if p['technique'] is None: continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
m['not_applicable'] = [{'property': i, 'reason': r} for i, r in props.NA]
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')

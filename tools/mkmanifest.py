"""Writes MANIFEST.json from the checks present in /verif/checks."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'N01': 'statistical: the recovered parameters differ from the configured ones by the random draws of a run; no static '
        'argument over the source bounds that difference',
 'N02': 'floating-point error of numpy/scipy reductions, FFT and an iterative least-squares solver on unbounded data; '
        'no sound static error bound for those library routines is in reach',
 'N03': 'needs a TeX run and a human reader; the source of the package does not contain what decides it',
}
checks = []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.isfile(f):
        if i not in NA:
            NA[i] = 'no check built yet'
        continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append({
        'property': i,
        'quick_cmd': '%s -m vf %s --tier quick' % (PY, i),
        'thorough_cmd': '%s -m vf %s --tier thorough' % (PY, i),
        'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the source to symbolic value terms, '
                             'compared with a reference definition by algebraic normal form'),
        'level': getattr(m, 'LEVEL', 'other'),
        'level_note': getattr(m, 'LEVEL_NOTE', m.NOTE)[:1500],
    })
man = {'version': 1, 'setup_cmd': '%s -m compileall -q vf checks specs' % PY, 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props
                          if p['id'] in NA and not any(c['property'] == p['id'] for c in checks)]}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

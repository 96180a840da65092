"""Builds and tries planted bugs (a development aid, no check uses it).

tools/seeds/*.py hold S = [dict(id, property, edits=[(file, old, new)...], demo=python text, needs, breaks)].
usage: mkseed.py [-n] [ids...]   writes seeded/<id>/ and tries each: patch applies, stable tests pass, demo 0 / nonzero,
and runs the property's check on it.  -n skips the tests."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', []) or [])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig')
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this input, nonzero otherwise
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd, env=ENV, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def one(a):
    s, tests = a
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = d + '/r'
        sh(['git', 'clone', '-q', '/repo', r], '/')
        for f in ('_version.py',):
            shutil.copy('/repo/src/emva1288/' + f, r + '/src/emva1288/' + f)
        env = dict(ENV, PYTHONPATH=r + '/src')
        orig = set(sh(['git', 'blame', '-s', '--root', '00ac19f', '--', 'x'], r).stdout)
        for f, old, new in s['edits']:
            p = r + '/src/emva1288/' + f
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            if t.count(old) != 1:
                return s['id'], 'STALE %d %r' % (t.count(old), old[:60])
            # the changed lines must be original ones
            n0 = t[:t.index(old)].count('\n')
            ol, nl = old.splitlines(), new.splitlines()
            bl = sh(['git', 'blame', '-s', '--', 'src/emva1288/' + f], r).stdout.splitlines()
            import difflib
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl).get_opcodes():
                if tag in ('replace', 'delete'):
                    for i in range(i1, i2):
                        if not bl[n0 + i].startswith('^00ac'):
                            return s['id'], 'NOT ORIGINAL: ' + bl[n0 + i]
            t = t.replace(old, new, 1)
            open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
        out = V + '/seeded/' + s['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        msg = []
        dd = d + '/demo'
        shutil.copytree(out, dd)
        b = sh(['bash', dd + '/demo.sh'], r, env)
        sh(['git', 'stash', '-q'], r)
        g = sh(['bash', dd + '/demo.sh'], r, env)
        st = sh(['git', 'status', '--short'], r).stdout.strip()
        sh(['git', 'stash', 'pop', '-q'], r)
        if g.returncode:
            msg.append('DEMO FAILS ON CLEAN: ' + g.stderr[-300:])
        if st:
            msg.append('DEMO LEAVES ' + st)
        if not b.returncode:
            msg.append('DEMO MISSES')
        if tests:
            t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], r, env, 900)
            if t.returncode:
                msg.append('TESTS FAIL: ' + t.stdout[-500:])
            w = d + '/ex'
            os.makedirs(w)
            t = sh([PY, r + '/.circleci/test_doc_examples/ci_test_sample_report.py'], w,
                   dict(env, PYTHONPATH=r + '/src:' + r + '/doc/examples', TMPDIR=w), 900)
            if t.returncode or not os.path.exists(w + '/myreport/report.tex'):
                msg.append('EXAMPLE FAILS ' + t.stderr[-300:])
        c = sh([PY, '-m', 'vf', s['property'], '--tier', 'quick'], V, dict(ENV, VF_REPO=r, VF_EVIDENCE=d + '/e'), 900)
        if c.returncode != 1:
            msg.append('MISSED by check rc=%d und=%d' % (c.returncode, c.stdout.count('UNDECIDED')))
        return s['id'], '; '.join(msg) or 'ok'
    finally:
        shutil.rmtree(d)


def main():
    ids = [a for a in sys.argv[1:] if a != '-n']
    S = []
    for fn in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sp = importlib.util.spec_from_file_location('m', fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        S += m.S
    S = [s for s in S if not ids or s['id'] in ids or s['property'] in ids]
    with ThreadPoolExecutor(7) as ex:
        for i, m in ex.map(one, [(s, '-n' not in sys.argv) for s in S]):
            print(i, m, flush=True)


main()

"""Runs checks against textual edits of the code base (a development aid, no check uses it).

corpus/<id>.py holds   M = [(kind, file, old, new[, ids]), ...]   kind 'bug' (must be reported) or 'same' (must be quiet).
usage: mut.py [ids...]"""
import importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(job):
    pid, k, (kind, f, old, new, *rest) = job
    d = tempfile.mkdtemp(prefix='mut')
    try:
        os.makedirs(d + '/r')
        shutil.copytree('/repo/src', d + '/r/src')
        shutil.copytree('/repo/doc', d + '/r/doc')
        edits = [(f, old, new)] if isinstance(old, str) else [(f, o, n) for o, n in zip(old, new)]
        for ff, o, n in edits:
            p = d + '/r/' + (ff if ff.startswith('doc/') else 'src/emva1288/' + ff)
            s = open(p).read()
            if o not in s:
                # blank lines do not matter
                ls = [l for l in o.split('\n')]
                m = re.search(r'\n(?:[ ]*\n)*'.join(re.escape(l) for l in ls if l.strip()) + (r'\n' if not ls[-1] else ''), s)
                if m is None:
                    return pid, k, kind, 'STALE', o[:70]
                o = m.group(0)
            s = s.replace(o, n, 1)
            if p.endswith('.py'):
                compile(s, p, 'exec')
            open(p, 'w').write(s)
        out = []
        for c in (rest[0] if rest else [pid]):
            e = dict(os.environ, VF_REPO=d + '/r', VF_EVIDENCE=d + '/e')
            r = subprocess.run([PY, '-m', 'vf', c, '--tier', 'quick'], cwd=V, env=e, capture_output=True, text=True)
            und = sum(1 for l in r.stdout.splitlines() if l.startswith('UNDECIDED'))
            out.append((c, r.returncode, und, r.stdout))
        return pid, k, kind, out, (old if isinstance(old, str) else old[0])[:60]
    finally:
        shutil.rmtree(d)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    sel = None
    if '-k' in sys.argv:
        sel = sys.argv[sys.argv.index('-k') + 1]
        ids.remove(sel)
        sel = [int(x) for x in sel.split(',')]
    jobs = []
    for fn in sorted(os.listdir(V + '/corpus')):
        if not fn.endswith('.py') or ids and fn[:-3].upper() not in [i.upper() for i in ids]:
            continue
        sp = importlib.util.spec_from_file_location('m', V + '/corpus/' + fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        jobs += [(fn[:-3].upper(), k, x) for k, x in enumerate(m.M) if sel is None or k in sel]
    import time; t0 = time.time()
    good = bad = soft = 0
    with ThreadPoolExecutor(8) as ex:
        for pid, k, kind, out, old in ex.map(one, jobs):
            if out == 'STALE':
                print('STALE', pid, k, repr(old))
                bad += 1
                continue
            rcs = [rc for _, rc, _, _ in out]
            und = sum(u for _, _, u, _ in out)
            caught = any(rc == 1 for rc in rcs)
            ok = caught if kind == 'bug' else all(rc == 0 for rc in rcs)
            if ok:
                good += 1
                if und and kind == 'same':
                    soft += 1
            else:
                bad += 1
            if not ok or verbose or (und and kind == 'same'):
                print('%s %s#%d %s rc=%s undecided=%d  %r' % ('ok  ' if ok else 'MISS' if kind == 'bug' else 'ALARM', pid, k, kind,
                                                            rcs, und, old.strip()[:60]))
                if verbose or not ok and kind == 'same' or '-d' in sys.argv:
                    print('\n'.join(o[3][-1500:] for o in out))
    print('good %d bad %d undecided-but-quiet %d' % (good, bad, soft))


main()

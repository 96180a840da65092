"""Runs the check of one property: collects obligations, decides them, writes evidence."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.setrecursionlimit(20000)

from .check import *       # noqa
from .state import World   # noqa


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.repo = REPO
        self.world = World(REPO)
        self.world.add_source('specs', os.path.join(VERIF, 'specs', 'spec.py'))
        self.obl = []
        self.controls = []
        self.known = load_known(prop)
        self.samples = []
        self.limit = 120
        # the whole check, in seconds: what is not decided by then is undecided
        self.deadline = time.time() + (600 if tier == 'quick' else 840)

    # ---- locations
    def where(self, qual):
        """'file:line qualified name' of a dotted name of the code base"""
        r = self.world.get(qual) if isinstance(qual, str) else qual
        return locate(self.world, r, qual)

    def spec(self, name):
        m = self.world.mods['specs']
        return self.world.lookup(m, name)

    # ---- obligations
    def add(self, name, verdict, where='', detail='', rule=''):
        self.obl.append({'name': name, 'verdict': verdict, 'where': where, 'detail': detail, 'rule': rule})
        return verdict

    def rule(self, name, ok, where='', detail='', rule=''):
        return self.add(name, PROVED if ok else (UNDECIDED if ok is None else VIOLATED), where, detail, rule)

    def equal(self, name, got, want, where='', rule='value equality'):
        v, why = verdict(got, want)
        d = ''
        if v != PROVED:
            v, d = self.unroll(got, want, v, why)
        elif len(self.samples) < 4:
            self.samples.append('%s: %s' % (name, show(got, 5)[:300]))
        self.add(name, v, where, d, rule)
        if v == VIOLATED:
            self.obl[-1]['like'] = same_vocabulary(got, want)
        return v

    SIZES = ({'ph': 2, 'pw': 2, 'L': 2, 'L_dark': 3, 'n': 3, 'height': 2, 'width': 3}, {'ph': 2, 'pw': 3, 'L': 4, 'L_dark': 3, 'n': 4, 'height': 3, 'width': 2})

    def pending(self, start, upto, why):
        """differences between unlike normal forms of the same ingredients, where the written out cases are equal"""
        for o in self.obl[start:upto]:
            if o['verdict'] == VIOLATED and o.get('like'):
                o['verdict'] = UNDECIDED
                o['detail'] = why + o['detail']

    def unroll(self, got, want, v, why):
        """no unbounded proof: compare the terms written out element by element"""
        from .inst import expand, NoInst
        d = describe(got, want, why)
        same = 0
        sizes = [dict(z, wavelengths=2) for z in self.SIZES]
        extra = thresholds((got, want), set().union(*sizes))
        if extra is None:
            return v, d        # a size test beyond the sizes that can be written out
        sizes += [dict(sizes[0], **{k: x}) for k, x in extra]
        for sz in sizes:
            env = {intsym(k): num(x) for k, x in sz.items()}
            try:
                a, b = expand(got, env), expand(want, env)
            except (NoInst, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                if os.environ.get('VF_DEBUG'):
                    traceback.print_exc()
                continue
            if a is got and b is want or vacant(a) or vacant(b):
                continue
            v2, why2 = verdict(a, b)
            if v2 == VIOLATED:
                return VIOLATED, d + '\n      written out for %s: ' % sz + describe(a, b, why2)
            if v2 == PROVED:
                same += 1
        if same == len(sizes):
            return BOUNDED, 'equal element by element for %s; ' % sizes + d
        if same:
            return UNDECIDED, d
        return v, d

    def guard(self, name, fn, where='', rule=''):
        """run an obligation producer; analysis failures make the obligation undecided"""
        left = self.deadline - time.time()
        if left <= 0:
            self.add(name, UNDECIDED, where, 'analysis budget exhausted', rule)
            return
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, min(self.limit, left), 5)
        try:
            return fn()
        except Unsupported as e:
            self.add(name, UNDECIDED, where, 'construct outside the analysed language: %s (line %s)'
                     % (e, getattr(e.node, 'lineno', '?')), rule)
        except Vanished as e:
            self.add(name, VIOLATED, where or str(e), 'the public name %s no longer exists' % e, rule)
        except Timeout:
            self.add(name, UNDECIDED, where, 'analysis budget exhausted', rule)
        except RecursionError:
            self.add(name, UNDECIDED, where, 'analysis recursion limit', rule)
        except Exception as e:
            if os.environ.get('VF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(name, UNDECIDED, where, 'analysis error %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), rule)
        finally:
            signal.setitimer(signal.ITIMER_REAL, max(1, self.deadline - time.time()), 5)

    def control(self, name, fired):
        """positive control: a deliberately wrong specification must be refuted"""
        self.controls.append((name, bool(fired)))

    def ctl_equal(self, name, got, wrong):
        try:
            self.control(name, verdict(got, wrong)[0] != PROVED)
        except (Exception, Timeout):
            self.control(name, True)


def thresholds(ts, names, top=40):
    """sizes around which a condition over one size symbol changes; None when one lies beyond reach"""
    out, seen, stack = set(), set(), list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(t.kids)
        if t.op in ('lt0', 'eq0'):
            p = t.args[0]
            d = dict(p.args[0]) if p.op == 'poly' else {((p, 1),): 1}
            c0 = d.pop((), 0)
            if len(d) != 1:
                continue
            (m, a), = d.items()
            if len(m) != 1 or m[0][1] != 1:
                continue
            s = m[0][0]
            if s.op == 'sym' and s.args[0] in names:
                b = int(-c0 / a)
                if b > top:
                    return None
                out |= {(s.args[0], x) for x in (b - 1, b, b + 1) if x >= 1}
    return sorted(out)


def vacant(t):
    """an array without elements says nothing"""
    return t.op == 'arr' and (t.args[0] is mk('lit') or t.args[0].op == 'lit' and all(vacant(x) for x in t.args[0].args))


PLAIN = {'ite', 'FlatMap', 'Map', 'slseq', 'sorted', 'keys', 'idx', 'lit', 'range', 'cat', 'len', 'lt0', 'eq0', 'tup', 'in',
         'poly', 'num', 'and', 'or', 'not', 'bv', 'arr', 'get', 'rev', 'bool', 'none', 'per', 'tile', 'ones', 'repeat', 'DMap', 'dlit'}


def vocabulary(t):
    """the numbers, texts, names and operations a term is made of"""
    nums, names, ops, seen, stack = set(), set(), set(), set(), [t]
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        stack.extend(n.kids)
        if n.op == 'num':
            nums.add(n.args[0])
        elif n.op == 'poly':
            nums.update(dict(n.args[0]).values())
        elif n.op in ('str', 'sym'):
            names.add(n)
        ops.add(n.op)
    return nums, names, ops


def same_vocabulary(a, b):
    """a uses no number, name or operation that b does not use, apart from plain sequence handling"""
    (n1, s1, o1), (n2, s2, o2) = vocabulary(a), vocabulary(b)
    return n1 <= n2 | {0, 1, 2, -1} and s1 <= s2 and o1 <= o2 | PLAIN


def describe(got, want, why):
    x, y = why if why else (got, want)
    return ('code denotes    %s\n      required        %s\n      first difference: code %s  /  required %s'
            % (show(got, 7)[:900], show(want, 7)[:900], show(x, 5)[:400], show(y, 5)[:400]))


def locate(world, r, qual):
    node = getattr(r, 'node', None)
    mod = getattr(r, 'module', None)
    if node is not None and mod is not None:
        return '%s:%s %s' % (mod.rel, getattr(node, 'lineno', '?'), qual if isinstance(qual, str) else '')
    return str(qual)


def member_where(world, cls_qual, name):
    c = world.get(cls_qual)
    if not isinstance(c, Cls):
        return cls_qual
    try:
        m = c.find(name)
    except Exception:
        m = None
    node = None
    mod = c.module
    if m is not None:
        node, mod = m[2], m[1].module
    return '%s:%s %s.%s' % (mod.rel, getattr(node, 'lineno', '?'), cls_qual.split('.')[-1], name)


KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_known(prop):
    """'known: property=<id> obligation=<name> | text'; 'fixed:' lines are informative only"""
    out = {}
    if os.path.isfile(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                body = l.split('obligation=', 1)[1]
                nm, _, txt = body.partition('|')
                out[nm.strip()] = txt.strip()
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    ck = Check(prop, a.tier, seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, ck.deadline - time.time(), 5)
    try:
        mod.run(ck)
    except Timeout:
        ck.add('rest of the analysis', UNDECIDED, '', 'analysis budget exhausted')
    except Exception as e:
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.add('rest of the analysis', UNDECIDED, '', 'analysis error %s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    signal.setitimer(signal.ITIMER_REAL, 0)
    wall = time.time() - t0
    return report(ck, mod, wall, a.v)


def report(ck, mod, wall, verbose=False):
    prop = ck.prop
    viol, known, und = [], [], []
    for o in ck.obl:
        if o['verdict'] == VIOLATED:
            (known if o['name'] in ck.known else viol).append(o)
        elif o['verdict'] == UNDECIDED:
            und.append(o)
    bounded = [o for o in ck.obl if o['verdict'] == BOUNDED]
    proved = [o for o in ck.obl if o['verdict'] == PROVED]
    bad_controls = [n for n, f in ck.controls if not f]
    os.makedirs(EVID, exist_ok=True)
    for o in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o['name'], ck.known[o['name']]))
    for o in und:
        print('UNDECIDED %s [%s]: %s' % (o['name'], o['where'], o['detail'].replace('\n', ' ')[:500]))
    for o in bounded:
        print('BOUNDED %s [%s]: %s' % (o['name'], o['where'], o['detail'].replace('\n', ' ')[:300]))
    if verbose:
        for o in proved:
            print('ok %s [%s]' % (o['name'], o['where']))
    replay = os.path.join(EVID, '%s.violation.txt' % prop)
    if viol:
        lines = []
        for o in viol:
            lines.append('%s: obligation %s\n   at   %s\n   rule %s\n      %s\n' % (
                prop, o['name'], o['where'], o['rule'], o['detail']))
        txt = '\n'.join(lines)
        with open(replay, 'w') as f:
            f.write('replay: cd /verif && /opt/venv/bin/python -m vf %s --tier %s\n\n' % (prop, ck.tier) + txt)
        print(txt[:6000])
    elif os.path.exists(replay):
        os.remove(replay)
    minimum = getattr(mod, 'MIN', 1)
    ev = {
        'property': prop, 'tier': ck.tier, 'seed': ck.seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.NOTE,
            'obligations': len(ck.obl), 'discharged': len(proved),
            'equal_at_enumerated_sizes_only': [o['name'] for o in bounded],
            'undecided': [{k: o[k] for k in ('name', 'where', 'detail')} for o in und],
            'rules': sorted({o['rule'] for o in ck.obl if o['rule']}),
            'analysed': sorted({o['where'] for o in ck.obl if o['where']}),
            'modules_parsed': sorted(m.rel for n, m in ck.world.mods.items() if n != 'specs'),
            'positive_controls': {'run': len(ck.controls), 'refuted': sum(f for _, f in ck.controls),
                                  'names': [n for n, f in ck.controls]},
            'known_findings': [o['name'] for o in known],
            'samples': ck.samples or [o['name'] for o in proved[:5]],
            'checker_cmd': '/opt/venv/bin/python -m vf %s --tier %s' % (prop, ck.tier),
            'trusted_base': TRUSTED,
        },
        'assumptions': getattr(mod, 'ASSUME', []) or ['real-number arithmetic stands for floating point'],
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    with open(os.path.join(EVID, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d proved, %d bounded, %d undecided, %d violated, %d known; controls %d/%d; %.1fs' % (
        prop, len(ck.obl), len(proved), len(bounded), len(und), len(viol), len(known), sum(f for _, f in ck.controls),
        len(ck.controls), wall))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if len(ck.obl) < minimum and not und:
        print('ANALYSIS BROKEN: only %d obligations found, at least %d were confirmed by hand' % (len(ck.obl), minimum))
        return 2
    if bad_controls:
        print('ANALYSIS BROKEN: positive controls not refuted: %s' % ', '.join(bad_controls))
        return 2
    return 0


TRUSTED = ['the Python ast parser', 'the abstract interpreter and term algebra in /verif/vf',
           'the models of numpy/scipy/builtin functions in /verif/vf/lib.py', 'the reference definitions in /verif/specs']


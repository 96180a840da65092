"""Report output is complete, separate per test, and confined"""
import os
import re
from .common import *
from .report_common import *
from . import results_common as rc
from .results_common import RES, member_where

NOTE = ('Report1288 is constructed, filled and written abstractly for an unknown output directory, unknown file names and symbolic '
        'information dictionaries. Every path the report creates, writes or removes is reduced to components below the output '
        'directory; directories exist before something is put into them; references stored for the templates are the places '
        'written. Numbering is shown for an unknown number of operation points already added. The dictionaries of the caller '
        'must be unchanged, and a second report from the same dictionaries must be the one a fresh process makes.')
MIN = 60


def written(ev):
    """[(path, kind)] that an event writes"""
    n = ev.args[0]
    if n in WRITES:
        return [(argn(ev, k), n) for k in WRITES[n] if argn(ev, k) is not None]
    if n == 'open':
        m = ev.args[2] if len(ev.args) > 2 else const('r')
        if m.op == 'str' and not set(m.args[0]) & set('wax+'):
            return []
        return [(ev.args[1], 'open')]
    if n == 'mcall' and ev.args[2].op == 'str':
        a, kw = ev.args[3], dict((k.args[0] if isinstance(k, Node) else k, v) for k, v in ev.args[4])
        if ev.args[2].args[0] == 'savefig':
            p = a[0] if a else kw.get('fname')
            return [(p, 'savefig')] if p is not None else []
        if ev.args[2].args[0] in ('print_pdf', 'print_figure', 'print_png'):
            return [(a[0], 'savefig')] if a else []
    return []


def confined(ck, name, trace, w):
    rule = 'every path that is created, written or removed lies below the output directory'
    bad, unk = [], []
    for c, e in effects(trace):
        if e.op != 'ev':
            if e.opq or hasop(e, 'ev'):
                for x in syms_deep(e):
                    if x.op == 'ev':
                        for p, k in written(x):
                            r = inside(p)
                            if r is not True:
                                (bad if r is False else unk).append('%s(%s)' % (k, show(p, 5)))
            continue
        for p, k in written(e):
            r = inside(p)
            if r is not True:
                (bad if r is False else unk).append('%s(%s)' % (k, show(p, 5)))
        for k in REMOVES.get(e.args[0], ()):
            bad.append('removes %s' % show(argn(e, k), 5))
    ck.add(name, VIOLATED if bad else UNDECIDED if unk else PROVED, w, '; '.join((bad or unk)[:4]), rule)


def stale(c):
    """the condition of an effect asks whether something is already on the disk"""
    return c is not None and hasop(c, 'isfile')


class Fs:
    """directories and files after a trace, as component tuples below the output directory"""

    def __init__(self):
        self.dirs, self.files, self.log, self.problems = {()}, {}, [], []
        self.root = False
        self.content = {}

    def rel(self, p):
        r = pathparts(p)
        if r is None or r[0] is not ROOT and r[0] is not OUT:
            return None
        return tuple(r[1])

    def run(self, trace):
        for c, e in effects(trace):
            if e.op != 'ev':
                self.problems.append('effect under an unknown condition')
                continue
            n = e.args[0]
            if n in ('os.makedirs', 'os.mkdir'):
                p = self.rel(argn(e, 0))
                if p is None:
                    continue
                if n == 'os.mkdir' and p[:-1] not in self.dirs:
                    self.problems.append('the parent of %s does not exist yet' % show(argn(e, 0), 5))
                if p[:-1] and n == 'os.mkdir' and not self.root:
                    self.problems.append('the output directory does not exist yet')
                self.root = True
                for k in range(len(p) + 1):
                    self.dirs.add(p[:k])
                self.log.append(('dir', p, e))
            elif n == 'shutil.copytree':
                p = self.rel(argn(e, 1))
                if p is None:
                    continue
                for k in range(len(p) + 1):
                    self.dirs.add(p[:k])
                self.root = True
                self.files[p + ('*',)] = argn(e, 0)
                self.log.append(('tree', p, e))
            else:
                for q, k in written(e):
                    p = self.rel(q)
                    if p is None:
                        continue
                    if k.startswith('shutil.copy') and p in self.dirs:
                        src = argn(e, 0)
                        while src.op == 'abspath':
                            src = src.args[0]
                        p = p + (mk('basename', src),)
                    if p[:-1] not in self.dirs:
                        self.problems.append('the directory of %s does not exist yet' % show(q, 5))
                    over = p in self.files and c is None
                    self.files[p] = e
                    self.log.append(('file', p, e))
        return self

    def has(self, t):
        """the reference (relative path text) names a file that was written; None when unknown"""
        ps = pathparts(mk('pathjoin', ROOT, t))
        if ps is None:
            return None
        p = tuple(ps[1])
        return p in self.files or p[:-1] + ('*',) in self.files and p


def package_files(ck):
    d = os.path.join(ck.world.root, PKG, 'files') if hasattr(ck.world, 'root') else None
    return d


def start(ck, existing):
    tag = ' (directories may exist)' if existing else ''
    w = ck.where(RC + '.__init__')
    R = Rep(ck, existing)
    infos = R.infos()
    r = R.r
    given = {k: r.ip.freeze(v.t, r.st) for k, v in infos.items()}
    o = R.new(cover_page=V(anysym('cover_page')), **infos)
    v = o.value
    names = exc_names(v)
    bad = {x for x in names if x}
    ck.add('a report is made%s' % tag, VIOLATED if bad else PROVED, w, 'raises %s' % sorted(bad) if bad else '',
           'making a report succeeds whether or not its directories exist')
    confined(ck, 'making a report writes inside%s' % tag, o.trace, w)
    unchanged(ck, 'making a report%s' % tag, R, o, infos, given, w)
    if o.dead:
        return None
    return R, infos, given, o


def unchanged(ck, name, R, o, infos, given, w):
    rule = 'the dictionaries passed in are not modified'
    out = set()
    for st in ([] if o.dead else [o.st]) + [e.st for e in o.exits if e.st is not None]:
        out |= {str(x[1] if isinstance(x, tuple) else x) for x in st.mut}
        for k, d in infos.items():
            t = R.r.ip.freeze(d.t, st)
            if t is not given[k] and verdict(t, given[k])[0] != PROVED:
                out.add('%s information' % k)
    ck.add('%s leaves the information dictionaries' % name, VIOLATED if out else PROVED, w, ', '.join(sorted(out)) and
           'modifies ' + ', '.join(sorted(out)), rule)


def fields(R, st):
    return {k: R.r.ip.freeze(v.t, st) for k, v in st.heap[R.rep.t.args[0]].f.items()}


def layout(ck):
    """static files, uploads, references"""
    w = member_where(ck.world, RC, '_make_dirs')
    files = os.path.join(ck.world.repo, PKG, 'files')
    have = set(os.listdir(files)) if os.path.isdir(files) else set()
    for mode in ('given', 'none', 'one'):
        R = Rep(ck)
        r = R.r
        infos = R.infos()
        if mode == 'none':
            infos = {}
        if mode == 'one':
            for i, (k, n) in enumerate(FILES):
                r.st.w(infos[k].t.args[0]).items[const(n)] = V(NONE)
        o = R.new(**infos)
        if o.dead:
            ck.add('report directories, files %s' % mode, VIOLATED, w, 'raises', '')
            continue
        fs = Fs().run(o.trace) if mode != 'given' else None
        f = fields(R, o.st)
        for k, n in FILES:
            t = dget(f['_' + k] if '_' + k in f else f.get(k, NONE), const(n))
            nm = '%s %s, %s' % (k, n, {'given': 'file given', 'none': 'default information', 'one': 'no file'}[mode])
            if mode == 'given':
                uploads(ck, R, o, k, n, t, w)
                continue
            p = pathparts(mk('pathjoin', ROOT, t)) if t.op == 'str' else None
            rule = 'without a file the reference is one of the static files that are copied'
            if p is None:
                ck.add(nm, VIOLATED if not t.opq else UNDECIDED, w, 'refers to ' + show(t, 4), rule)
                continue
            src = fs.files.get(tuple(p[1][:-1]) + ('*',))
            ok = src is not None and (static(src, ck) is not False) and p[1][-1] in have or tuple(p[1]) in fs.files
            ck.add(nm, PROVED if ok else UNDECIDED if fs.problems else VIOLATED, w,
                   '' if ok else '%s is not put into the output directory' % show(t, 4), rule)
        if mode == 'none':
            ck.add('directories before files', VIOLATED if fs.problems else PROVED, w, '; '.join(fs.problems[:3]),
                   'a directory exists before something is put into it')


def static(src, ck):
    """the tree copied is the package's directory of static files"""
    want = os.path.join(ck.world.repo, PKG, 'files')
    t = src
    p = pathparts(t)
    if p is None:
        return None
    root, cs = p
    while root.op in ('abspath', 'realpath', 'normpath'):
        root = root.args[0]
    up = 0
    while root.op == 'dirname':
        up += 1
        root = root.args[0]
        while root.op in ('abspath', 'realpath'):
            root = root.args[0]
    if root.op != 'str' or not all(isinstance(c, str) for c in cs):
        return None
    d = root.args[0]
    for _ in range(up):
        d = os.path.dirname(d)
    return os.path.normpath(os.path.join(d, *cs)) == os.path.normpath(want)


def uploads(ck, R, o, k, n, t, w):
    """a file that is given is copied, and the reference names the copy"""
    rule = 'a file given is copied into the output directory, where the reference points'
    nm = '%s %s, file given' % (k, n)
    s = text.word('%s[%s]' % (k, n), '')
    tr = o.trace
    full = t
    ps = pathparts(mk('pathjoin', ROOT, full))
    if ps is None or isfree(ps[1]):
        ck.add(nm, UNDECIDED if ps is None else VIOLATED, w, 'refers to ' + show(full, 5), rule)
        return
    fs = Fs()
    for c, e in effects(tr):
        if e.op != 'ev':
            continue
        fs.run(mk('lit', e))
    good = False
    for p, e in fs.files.items():
        if isinstance(e, Node) and e.op == 'ev' and e.args[0].startswith('shutil.copy') and e.args[0] != 'shutil.copytree':
            src = argn(e, 0)
            while src.op == 'abspath':
                src = src.args[0]
            if src is s and samepath(p, tuple(ps[1]), s):
                good = True
    ck.add(nm, PROVED if good else UNDECIDED if hasop(full, 'opaque') else VIOLATED, w,
           '' if good else 'refers to %s; copied: %s' % (show(full, 5), '; '.join(show(e, 5) for c, e in effects(tr) if e.op == 'ev' and
                                                       e.args[0].startswith('shutil.copy') and s in syms_of(e)) or 'nothing'), rule)


def samepath(a, b, s):
    if len(a) != len(b):
        return False
    return all(x is y or x == y for x, y in zip(a, b))


def entries(t):
    """(symbolic rest, [entries]) of the list of operation points"""
    us = flat_units(t)
    rest, out = [], []
    for u in us:
        if u.op == 'lit':
            out.extend(u.args)
        else:
            if out:
                return None
            rest.append(u)
    return rest, out


def adding(ck, given):
    """operation points are added one after the other"""
    w = ck.where(RC + '.add')
    tag = ', results given' if given else ''
    R = Rep(ck)
    r = R.r
    o0 = R.new()
    st = o0.st
    r.st = st
    ops = [R.op('op0'), R.op('op1')]
    data = rc_data(ck, r)
    if given:
        res = []
        for k in range(2):
            obj = r.ip.construct(ck.world.get(RES), [data], {}, r.st, r.cx, None)
            res.append(obj)
    r.ip.override[RES + '.results_by_section'] = lambda ip, args, kw, s, cx, node: V(anysym('sections of object %d' % args[0].t.args[0]))
    frozen = {('op%d' % k): r.ip.freeze(v.t, r.st) for k, v in enumerate(ops)}
    infos = {('op%d' % k): v for k, v in enumerate(ops)}
    st = r.st
    # twice with the first operation point, once with the second
    for k, (i, nm) in enumerate(((0, 'first'), (0, 'again'), (1, 'other'))):
        s = st.copy()
        s.mut = frozenset()
        args = [ops[i], data] + ([res[i]] if given else [])
        o = r.attr(R.rep, 'add', True, st=s, args=args)
        t = '%d. operation point%s' % (k + 1, tag)
        if o.dead or any(x for x in exc_names(o.value)):
            ck.add(t, VIOLATED if o.dead or not o.value.opq else UNDECIDED, w, 'raises %s' % exc_names(o.value), 'adding succeeds')
            return
        unchanged(ck, t, R, o, infos, frozen, w)
        confined(ck, t + ' writes inside', o.trace, w)
        check_point(ck, R, o, o0, k, num(k), frozen['op%d' % i], t, w)
        if given:
            es = entries(fields(R, o.st)['ops'])
            if es and es[1]:
                ck.equal('%s has the sections of the results given' % t, dget(es[1][-1], const('results')),
                         anysym('sections of object %d' % res[i].t.args[0]), w, 'results given are used, not computed anew')
        st = o.st
    es = entries(fields(R, st)['ops'])
    ck.add('all operation points kept%s' % tag, PROVED if es and len(es[1]) == 3 and not es[0] else VIOLATED if es else UNDECIDED, w,
           '' if es and len(es[1]) == 3 else show(fields(R, st)['ops'], 3)[:200], 'every operation point added is in the report, in order')


def rc_data(ck, r):
    from .results_common import make
    _, obj, _ = make(ck, False, False, run=r, prefix='')
    return r.caller[-1] if hasattr(r, 'caller') else None


def inductive(ck):
    """a report with any number of operation points"""
    w = ck.where(RC + '.add')
    R = Rep(ck)
    r = R.r
    o0 = R.new()
    r.st = o0.st
    op = R.op('op0')
    data = rc_data(ck, r)
    N = intsym('n', False)
    before = sym('earlier operation points', 1, (N,), False, '')
    h = r.st.w(R.rep.t.args[0])
    h.f['ops'] = r.st.new(H('list', seq=before))
    r.ip.override[RES + '.results_by_section'] = lambda ip, args, kw, s, cx, node: V(anysym('sections'))
    fr = r.ip.freeze(op.t, r.st)
    s = r.st.copy()
    s.mut = frozenset()
    o = r.attr(R.rep, 'add', True, st=s, args=[op, data])
    t = 'operation point n+1'
    if o.dead or any(exc_names(o.value)):
        ck.add(t, UNDECIDED if not o.dead else VIOLATED, w, 'raises %s' % exc_names(o.value), 'adding succeeds')
        return
    confined(ck, t + ' writes inside', o.trace, w)
    check_point(ck, R, o, o0, None, N, fr, t, w)


def check_point(ck, R, o, o0, k, n, op0, t, w):
    f = fields(R, o.st)
    ops = f.get('ops')
    es = entries(ops) if ops is not None else None
    if es is None or not es[1]:
        ck.add(t + ' is kept', UNDECIDED if ops is not None and ops.opq else VIOLATED, w, show(ops, 3)[:200] if ops is not None else '',
               'every operation point added is in the report, in order')
        return
    e = es[1][-1]
    ck.rule(t + ' is kept', k is None or len(es[1]) == k + 1, w, show(ops, 2)[:200], 'every operation point added is in the report, in order')
    want = spec_call(ck, R.r, 'op_id', [V(n)]).value
    ident = dget(e, const('id'))
    ck.equal(t + ' has its number', ident, want, w, 'operation points are numbered in the order added')
    given = {a.args[0]: b for a, b in op0.args[0]} if op0.op == 'dlit' else {}
    for nm in given:
        if nm in ('id', 'results', 'plots', 'name'):
            continue
        ck.equal(t + ' keeps its ' + nm, dget(e, const(nm)), given[nm], w, 'the entry has the information given')
    name = dget(e, const('name'))
    gname = given.get('name')
    ck.equal(t + ' has its name', name, spec_call(ck, R.r, 'op_name', [R.r.dict({'name': gname}), V(n)]).value, w, 'an operation point without name is named by its number')
    # plots
    rule = 'one file per standard plot in the directory of the operation point, where the entry refers to it'
    plots = dget(e, const('plots'))
    fs = Fs().run(o0.trace)
    before = set(fs.files)
    fs.run(o.trace)
    drawn, saved = {}, {}
    for c, x in effects(o.trace):
        if x.op != 'ev':
            continue
        if x.args[0] in ('plot.plot', 'plot.rearrange'):
            drawn.setdefault(x.args[2], []).append((x.args[0], x.args[1].args[0], x.args[3]))
        for p, kind_ in written(x):
            if kind_ == 'savefig':
                fig = x.args[1]
                saved[fs.rel(p)] = (fig, list(drawn.get(fig, [])))
                if stale(c):
                    ck.add('%s: %s is written anew' % (t, show(p, 4)), VIOLATED, w, 'written only if %s' % show(c, 5),
                           'an older file is replaced')
    if fs.problems:
        ck.add(t + ' directories', VIOLATED, w, '; '.join(fs.problems[:3]), 'a directory exists before something is put into it')
    seen = set()
    for nm in PLOTS:
        ref = dget(plots, const(nm))
        if ref.op == 'missing' or hasop(ref, 'missing'):
            ck.add('%s: %s' % (t, nm), VIOLATED, w, 'no reference to a file', rule)
            continue
        ps = pathparts(mk('pathjoin', ROOT, ref))
        p = tuple(ps[1]) if ps is not None else None
        if p is None or ps[0] is not ROOT:
            q = fs.rel(ref)
            if q is not None and q not in saved:
                ck.add('%s: %s' % (t, nm), VIOLATED, w, 'refers to %s, which is not written' % show(ref, 6), rule)
                continue
            ck.add('%s: %s' % (t, nm), UNDECIDED, w, 'refers to ' + show(ref, 5), rule)
            continue
        if p not in saved:
            ck.add('%s: %s' % (t, nm), VIOLATED, w, 'refers to %s, which is not written (written: %s)' % (show(ref, 6),
                   ', '.join(str([show(c, 4) if isinstance(c, Node) else c for c in q]) for q in list(saved)[:2] if q)), rule)
            continue
        ev = saved[p][1]
        if not any(a == 'plot.plot' and c == nm for a, c, _ in ev) or any(c != nm for _, c, _ in ev):
            ck.add('%s: %s' % (t, nm), VIOLATED, w, 'the file holds %s' % sorted({c for _, c, _ in ev}), rule)
            continue
        if not any(a == 'plot.rearrange' for a, c, _ in ev):
            ck.add('%s: %s' % (t, nm), VIOLATED, w, 'saved before it is rearranged', rule)
            continue
        # the directory belongs to this operation point alone
        own = any(not isinstance(c, str) and (R_has(c, ident)) or isinstance(c, str) and ident.op == 'str' and ident.args[0] in c.split('.') or c is ident
                  for c in p)
        if p in seen or p in before:
            ck.add('%s: %s' % (t, nm), VIOLATED, w, 'two plots are written to %s' % show(ref, 5), rule)
            continue
        seen.add(p)
        ck.add('%s: %s' % (t, nm), PROVED if own else VIOLATED, w, '' if own else 'the path %s does not depend on the number' % show(ref, 6), rule)


def R_has(c, ident):
    if isinstance(c, tuple):
        return any(R_has(x, ident) for x in c if not isinstance(x, str))
    if c is ident:
        return True
    return isinstance(c, Node) and ident.op != 'str' and any(p is q for p in (text.parts(ident) or []) if not isinstance(p, str) for q in [c])


def writing(ck):
    """the report and style files"""
    w = ck.where(RC + '.latex')
    R = Rep(ck)
    r = R.r
    infos = R.infos()
    given = {k: r.ip.freeze(v.t, r.st) for k, v in infos.items()}
    cover = V(anysym('cover_page'))
    o0 = R.new(cover_page=cover, **infos)
    r.st = o0.st
    before = mk('lit', anysym('operation point 1'), anysym('operation point 2'))
    h = r.st.w(R.rep.t.args[0])
    h.f['ops'] = r.st.new(H('list', items=[V(x) for x in before.args]))
    s = r.st.copy()
    s.mut = frozenset()
    o = r.attr(R.rep, 'latex', True, st=s, args=[])
    names = {x for x in exc_names(o.value) if x}
    ck.add('writing the report succeeds', VIOLATED if names else PROVED, w, 'raises %s' % sorted(names) if names else '', 'the report is written')
    confined(ck, 'the report is written inside', o.trace, w)
    unchanged(ck, 'writing the report', R, o, infos, given, w)
    fs = Fs().run(o0.trace)
    fs.run(o.trace)
    f = fields(R, o.st)
    tdir = os.path.join(ck.world.repo, PKG, 'templates')
    for nm in ('report.tex', 'emvadatasheet.sty'):
        rule = 'the file is the rendered template of that name, with the information of this report'
        rs = [(k, x) for k, x in enumerate(R.renders) if x[0] is const(nm)]
        note = None
        parts = []
        for c, e in effects(o.trace):
            if e.op != 'ev':
                continue
            if e.args[0] == 'open' and fs.rel(e.args[1]) == (nm,):
                note = 'open'
                parts = []
                mode = e.args[2]
                if stale(c):
                    ck.add('%s is written anew' % nm, VIOLATED, w, 'written only if %s' % show(c, 5), 'an older file is replaced')
            if e.args[0] == 'write' and e.args[1].op == 'file' and fs.rel(e.args[1].args[0]) == (nm,):
                parts.append(e.args[2])
        if (nm,) not in fs.files:
            ck.add('%s is written' % nm, VIOLATED if not fs.problems else UNDECIDED, w, 'written: %s' % ', '.join(str(p) for p in fs.files), rule)
            continue
        got = parts[0] if len(parts) == 1 else None
        want = [strsym('text of %s #%d' % (nm, k + 1)) for k, _ in rs]
        ok = got is not None and got in want and mode.op == 'str' and mode.args[0].replace('t', '') == 'w'
        ck.add('%s is written' % nm, PROVED if ok else VIOLATED if got is not None and not got.opq or len(parts) != 1 else UNDECIDED, w,
               '' if ok else 'contents: %s' % ', '.join(show(p, 5) for p in parts)[:300], rule)
        ck.rule('the template %s exists' % nm, os.path.isfile(os.path.join(tdir, nm)), w, '', 'the template is shipped')
        # what the templates get
        for k, x in rs:
            for key, t in sorted(x[1].items()):
                name = '%s of %s' % (key, nm)
                if key in INFOS:
                    ck.equal(name, t, f.get(key, f.get('_' + key, NONE)), w, 'templates get the information of this report')
                elif key == 'operation_points':
                    us = flat_units(t)
                    got = [y for u in us if u.op == 'lit' for y in u.args]
                    ck.rule(name, got == list(before.args), w, show(t, 4)[:200], 'templates get every operation point in order')
                elif key == 'cover_page':
                    ck.equal(name, t, cover.t, w, 'templates get the cover page given')
    src = open(os.path.join(tdir, 'report.tex')).read() if os.path.isfile(os.path.join(tdir, 'report.tex')) else ''
    ok = re.search(r'\\usepackage(\[[^\]]*\])?\{[^}]*emvadatasheet[^}]*\}', src)
    ck.rule('the style file is the one the report uses', bool(ok), w, '', 'all files under the names the report refers to')


def sharing(ck):
    """two reports made from the same dictionaries"""
    w = ck.where(RC + '.__init__')
    R = Rep(ck)
    r = R.r
    infos = R.infos()
    o1 = R.new(**infos)
    rep1 = R.rep
    s = o1.st.copy()
    o2 = R.new(strsym('second'), st=s, **infos)
    f2 = fields(R, o2.st)
    rep2 = R.rep
    # in a fresh process
    Q = Rep(ck)
    j = Q.infos()
    p = Q.new(strsym('second'), **j)
    f = fields(Q, p.st)
    for k in sorted(set(f) | set(f2)):
        if k == 'renderer':
            continue
        ck.equal('second report: %s' % k, f2.get(k, NONE), f.get(k, NONE), w, 'a report does not depend on reports made before from the same dictionaries')
    a = {v.t for v in o2.st.heap[rep1.t.args[0]].f.values() if v.t.op == 'ref' and o2.st.heap[v.t.args[0]].kind in ('list', 'dict')}
    a -= {v.t for v in infos.values()}      # the caller's own, which no report changes (checked above)
    b = {v.t for v in o2.st.heap[rep2.t.args[0]].f.values() if v.t.op == 'ref' and o2.st.heap[v.t.args[0]].kind in ('list', 'dict')}
    ck.rule('two reports share no lists or dictionaries', not (a & b), w, '%d shared' % len(a & b),
            'what is added to one report does not appear in another')


def run(ck):
    w = ck.where(RC + '.__init__')
    for ex in (False, True):
        ck.guard('start %s' % ex, lambda: start(ck, ex), w)
    ck.guard('layout', lambda: layout(ck), w)
    for g in (False, True):
        ck.guard('adding %s' % g, lambda: adding(ck, g), ck.where(RC + '.add'))
    ck.guard('inductive', lambda: inductive(ck), ck.where(RC + '.add'))
    ck.guard('writing', lambda: writing(ck), ck.where(RC + '.latex'))
    ck.guard('sharing', lambda: sharing(ck), w)
    ck.control('a path above the directory is outside', inside(mk('pathjoin', ROOT, const('..'), const('x'))) is False)
    ck.control('an absolute path is outside', inside(const('/x/y')) is False)
    ck.control('a path below the directory is inside', inside(mk('pathjoin', ROOT, const('x'))) is True)

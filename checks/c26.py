"""Plots show every test, with the reported quantities"""
from .common import *
from .results_common import RES, make, member_where
from vf.term import replace

NOTE = ('Every class of plotting.EVMA1288plots is constructed and drawn abstractly for a result object with symbolic data '
        '(unmasked and masked images); the multiset of curves and lines handed to each axes must equal the one of the reference '
        'drawing in specs/spec.py on the same result object. Public results the reference also reads are unknowns; other '
        'results the code reads are followed into their definitions. The dispatcher must draw every plot for every test, on '
        'its own figure, for symbolic tests and plots (up to three of each) and for the default list.')
MIN = 70
P = 'emva1288.process.plotting.'
DRAW = {'plot', 'loglog', 'semilogx', 'semilogy', 'axvline', 'axhline', 'scatter', 'errorbar', 'step', 'bar', 'hist', 'vlines',
        'hlines', 'fill_between', 'stem', 'axline', 'imshow', 'barh', 'fill', 'stairs', 'axvspan', 'axhspan'}
SAME = {'loglog': 'plot', 'semilogx': 'plot', 'semilogy': 'plot'}
POSARG = {'axvline': 'x', 'axhline': 'y'}
RANGEARG = {'axvline': ('ymin', 'ymax'), 'axhline': ('xmin', 'xmax')}
NAMES = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU', 'PlotVerticalSpectrogramPRNU',
         'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
         'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']


def unknowns(ck):
    """{qualified member: unknown value} for the public results"""
    c = ck.world.get(RES)
    out = {}
    if not isinstance(c, Cls):
        raise Vanished(RES)
    for nm, m in c.members.items():
        f = c.find(nm)
        if nm.startswith('_') or f is None or f[0] != 'func':
            continue
        q = RES + '.' + nm
        a = f[2].args
        isprop = any(getattr(d, 'id', '') == 'property' for d in f[2].decorator_list)
        if not isprop and (len(a.args) != 1 or f[2].decorator_list):
            continue
        if nm.startswith('index_'):
            mk_ = lambda n: intsym(n, False)
        elif nm.startswith('histogram') or nm == 'linearity' or nm in ('xml', 'results', 'results_by_section', 'print_results'):
            mk_ = anysym
        else:
            mk_ = numsym
        out[nm] = lambda ip, args, kw, st, cx, node, nm=nm, mk_=mk_: V(mk_(PREFIX[args[0].t.args[0]] + '.' + nm))
    return out


PREFIX = {}


def result(ck, masked, inline=(), run=None, prefix='test'):
    """run with a result object; members of `inline` keep their definitions"""
    r, obj, _ = make(ck, False, masked, run=run, prefix='' if prefix == 'test' else prefix + ':')
    PREFIX[obj.t.args[0]] = prefix
    r.st.w(obj.t.args[0]).f['id'] = V(intsym(prefix + '.id'))
    for nm, v in unknowns(ck).items():
        if nm not in inline:
            r.ip.override[RES + '.' + nm] = v
    return r, obj


def named(t):
    """result members the drawing depends on"""
    return {s.args[0].split('.', 1)[1] for s in syms_of(t)
            if isinstance(s.args[0], str) and s.args[0].startswith(('test.', 'second.'))} - {'id'}


def isstyle(n):
    return n.op == 'str'


def canon(e):
    """drawing event without styles; None for other calls"""
    if e.op != 'ev' or e.args[0] != 'mcall':
        return None
    _, obj, nm, args, kw = e.args
    nm = nm.args[0] if isinstance(nm, Node) else nm
    if nm not in DRAW:
        return None
    kw = dict((k.args[0] if isinstance(k, Node) else k, v) for k, v in kw)
    pos = [a for a in args if not isstyle(a)]
    if nm in SAME:
        if not pos and 'data' not in kw:
            return None         # only sets the scales
        nm = SAME[nm]
    out = [pos]
    if nm in POSARG and POSARG[nm] in kw:
        pos.insert(0, kw[POSARG[nm]])
    if nm == 'plot' and len(pos) > 2 and len(pos) % 2 == 0:
        out = [pos[k:k + 2] for k in range(0, len(pos), 2)]
    lab = kw.get('label')
    if lab is None or not (syms_of(lab)):
        lab = NONE
    extra = [kw[k] for k in RANGEARG.get(nm, ()) if k in kw]
    return [(obj, mk('draw_', const(nm), mk('tup', *[seq_of(x) for x in p]), mk('tup', *extra), lab)) for p in out]


def seq_of(x):
    """lists, tuples and arrays of the same numbers draw the same"""
    while x.op in ('list', 'arr') and len(x.args) == 1 and isinstance(x.args[0], Node):
        x = x.args[0]
    if x.op == 'lit':
        return mk('tup', *x.args)
    return x


def branches(t, most=6):
    """(condition assignment, events) of an effect sequence; conditions that only choose the style are dropped"""
    def strip(u):
        """the drawing part of a sequence: nested tuples ('ite', c, a, b) and events"""
        out = []
        for x in flat_units(u):
            if x.op == 'lit':
                for e in x.args:
                    c = canon(e)
                    if c:
                        out.extend(c)
            elif x.op == 'ite':
                a, b = strip(x.args[1]), strip(x.args[2])
                if a == b:
                    out.extend(a)
                else:
                    out.append(('ite', x.args[0], a, b))
            elif draws_in(x):
                out.append(('other', x))
        return out
    return strip(t)


def draws_in(x):
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'ev' and y.args[0] == 'mcall' and canon(y):
            return True
        stack.extend(y.kids)
    return False


def conds(l, acc):
    for x in l:
        if x[0] == 'ite':
            acc.append(x[1]) if x[1] not in acc else None
            conds(x[2], acc)
            conds(x[3], acc)
    return acc


def assign(l, c, val):
    out = []
    for x in l:
        if x[0] == 'ite':
            if x[1] is c:
                out.extend(assign(x[2 if val else 3], c, val))
            else:
                out.append(('ite', x[1], assign(x[2], c, val), assign(x[3], c, val)))
        elif x[0] == 'other':
            out.append(('other', restrict(x[1], c, val)))
        else:
            out.append((x[0], restrict(x[1], c, val)))
    return out


def cases(a, b, most=5):
    cs = conds(a, conds(b, []))
    if not cs:
        return [(a, b)]
    if most == 0:
        return None
    out = []
    for val in (True, False):
        r = cases(assign(a, cs[0], val), assign(b, cs[0], val), most - 1)
        if r is None:
            return None
        out += r
    return out


def groups(l):
    """curves per axes"""
    g = {}
    for x in l:
        g.setdefault(x[0], []).append(x[1])
    return list(g.values())


ROOTS = {}


def roots(ck, nm):
    """measured data the result depends on, through the results it reads"""
    if nm not in ROOTS:
        ROOTS[nm] = set()
        r, obj = result(ck, False, {nm})
        v = r.attr(obj, nm, None)
        got = {str(x.args[0]) for x in syms_of(v.value)}
        for g in got:
            ROOTS[nm] |= roots(ck, g[5:]) if g.startswith('test.') else {g}
    return ROOTS[nm]


class Detail(str):
    """description of a difference, with the result members it depends on"""
    pair = None


def match(got, want):
    """-> (verdict, detail) for two multisets of curves"""
    left = list(got)
    missing = []
    for w in want:
        for x in left:
            if x is w:
                left.remove(x)
                break
        else:
            missing.append(w)
    still = []
    for w in missing:
        for x in left:
            if x.args[0] is w.args[0] and verdict(x, w)[0] == PROVED:
                left.remove(x)
                break
        else:
            still.append(w)
    if not still:
        return PROVED, ''
    w = still[0]
    same = [x for x in left if x.args[0] is w.args[0]]
    vs = [(verdict(x, w), x) for x in same]
    if not vs:
        return VIOLATED, 'no %s draws %s' % (w.args[0].args[0], show(w, 9)[:900])
    for (v, why), x in vs:
        if v != VIOLATED:
            return v, describe(x, w, why)
    same_x = [q for q in vs if q[1].args[1].args[:1] == w.args[1].args[:1]] or vs
    (v, why), x = same_x[0]
    d = Detail(describe(x, w, why))
    d.pair = {m for q in same_x for m in named(q[1])} | named(w)
    return VIOLATED, d


from vf.runner import describe


def compare(got, want):
    """-> (verdict, detail, number of curves)"""
    cs = cases(got, want)
    if cs is None or any(x[0] == 'other' for a, b in (cs or ()) for x in a + b):
        return UNDECIDED, 'curves drawn in a form that is not analysed', 0
    worst, det, n = PROVED, '', 0
    for a, b in cs:
        ga, gb = groups(a), groups(b)
        n = max(n, len(b))
        if len(ga) != len(gb) and not (len(ga) > len(gb)):
            r = match([x for g in ga for x in g], [x for g in gb for x in g])
            r = (VIOLATED, 'bright and dark profiles share their axes') if r[0] == PROVED else r
        else:
            r = None
            for p in permutations(ga, len(gb)):
                rr = [match(x, y) for x, y in zip(p, gb)]
                q = max(rr, key=lambda z: ORDER[z[0]])
                if r is None or ORDER[q[0]] < ORDER[r[0]]:
                    r = q
        if ORDER[r[0]] > ORDER[worst]:
            worst, det = r
    return worst, det, n


from itertools import permutations
ORDER = {PROVED: 0, BOUNDED: 1, UNDECIDED: 2, VIOLATED: 3}


def drawn(ck, nm, masked, inline, second=False):
    r, obj = result(ck, masked, inline)
    c = ck.world.get(P + nm)
    if not isinstance(c, Cls):
        raise Vanished(P + nm)
    p = r.ip.construct(c, [V(anysym('figure'))], {}, r.st, r.cx, None)
    o = r.attr(p, 'plot', True, args=[obj], st=r.st if second else None)
    if second:
        r, obj = result(ck, masked, inline, r, 'second')
        o = r.attr(p, 'plot', True, args=[obj])
    return r, obj, o


def reference(ck, r, obj, spec):
    return spec_call(ck, r, spec, [obj, anysym('ax'), anysym('ax2')])


def plot(ck, nm, masked, second=False, spec=None, control=False):
    w = member_where(ck.world, P + nm, 'plot')
    name = label(nm, masked, second)
    spec = spec or 'p_' + nm
    inline, own = set(), set()
    for k in range(12):
        r, obj, o = drawn(ck, nm, masked, inline, second)
        ref = reference(ck, r, obj, spec)
        if raises(o.value) and not k:
            v = VIOLATED if not (o.value.opq or soft(o.value)) and not raises(ref.value) else UNDECIDED
            det, n = 'drawing raises: %s' % show(o.value, 6)[:600], 0
            break
        got, want = branches(o.trace), branches(ref.trace)
        v, det, n = compare(got, want)
        if v != VIOLATED or control:
            break
        extra = named(o.trace) - named(ref.trace)
        pair = getattr(det, 'pair', None)
        own |= extra
        if inline and not extra and pair:
            # results of the reference that depend on the same data are followed, too
            base = set().union(*[roots(ck, m) for m in own])
            extra = {m for m in pair if roots(ck, m) & base}
        if not extra - inline:
            break
        inline = inline | extra
    if control:
        return v
    ck.add(name, v, w, det, 'the curves drawn are those of the reference (%d)' % n)
    return v


def raises(t):
    return t.op == 'raises' or t.op == 'ite' and (raises(t.args[1]) or raises(t.args[2]))


def label(nm, masked, second):
    return nm + (' (masked images)' if masked else '') + (' (second test)' if second else '')


PL = P + 'Plotting1288'


def registry(ck):
    """the classes drawn by default"""
    w = ck.where(P + 'EVMA1288plots')
    r = Run(ck.world)
    v = r.ip.load_global('EVMA1288plots', r.st, ck.world.module('emva1288.process.plotting'), r.cx, None)
    t = r.ip.freeze(v.t, r.st, ())
    while t.op in ('list', 'arr'):
        t = t.args[0]
    if t.op not in ('lit', 'tup'):
        ck.add('standard plots', UNDECIDED, w, 'the list is not a literal: %s' % show(t, 3)[:200])
        return
    got = [x.args[0].split('.')[-1] if x.op == 'class' else show(x, 2) for x in t.args]
    miss = [x for x in NAMES if got.count(x) != 1]
    ck.add('standard plots', VIOLATED if miss else PROVED, w, 'not listed exactly once: %s' % ', '.join(miss) if miss else '',
           'EVMA1288plots lists every standard plot once')


def dispatch(ck, ntests, nplots, default, ident=None):
    name = 'Plotting1288: %d tests%s, %d plots%s' % (ntests, '' if ident is None else ' of id %d' % ident, nplots,
                                                     ' (default list)' if default else '')
    w = member_where(ck.world, PL, 'plot')
    r = Run(ck.world)
    c = ck.world.get(PL)
    if not isinstance(c, Cls):
        raise Vanished(PL)
    T = ck.spec('FakeTest')
    tests = [r.ip.construct(T, [V(const('t%d' % k))], {}, r.st, r.cx, None) for k in range(ntests)]
    if ident is not None:
        for t in tests:
            r.st.w(t.t.args[0]).f['id'] = V(num(ident))
    fakes = [ck.spec('FakePlot%d' % k) for k in range(nplots)]
    vs = [r.ip.wrap(f, r.st, r.cx, None) for f in fakes]
    if default:
        r.ip.override[P + 'EVMA1288plots'] = r.list(vs)
    p = r.ip.construct(c, tests, {}, r.st, r.cx, None)
    for again in (False, True):
        o = r.attr(p, 'plot', True, args=[] if default else vs, st=r.st if not again else None)
        v, det = dispatched(o, ntests, nplots)
        ck.add(name + (', drawn again' if again else ''), v, w, det, 'every plot class draws every test once on its own figure, '
               'and is rearranged afterwards')


def dispatched(o, ntests, nplots):
    if o.value.op == 'raises':
        return (UNDECIDED if o.value.opq else VIOLATED), 'raises ' + show(o.value, 5)[:300]
    seen, order, figs = {}, [], {}
    for u in flat_units(o.trace):
        if u.op != 'lit':
            if hasop(u, 'ev'):
                return UNDECIDED, 'calls under a condition: ' + show(u, 5)[:300]
            continue
        for e in u.args:
            if e.op != 'ev' or e.args[0] != 'mcall':
                continue
            _, obj, nm, args, kw = e.args
            nm = nm.args[0]
            if nm == 'drawn':
                k, t = args[0].args[0], args[1].args[0]
                seen[k, t] = seen.get((k, t), 0) + 1
                order.append(('draw', k))
                figs.setdefault(k, []).append(obj)
            elif nm == 'rearranged':
                order.append(('end', args[0].args[0]))
                figs.setdefault(args[0].args[0], []).append(obj)
    want = {('p%d' % k, 't%d' % j) for k in range(nplots) for j in range(ntests)}
    bad = [x for x in sorted(want) if seen.get(x, 0) != 1]
    if bad:
        return VIOLATED, 'test %s is drawn %d times in plot %s' % (bad[0][1], seen.get(bad[0], 0), bad[0][0])
    for k in range(nplots):
        pk = 'p%d' % k
        ends = [i for i, x in enumerate(order) if x == ('end', pk)]
        draws = [i for i, x in enumerate(order) if x == ('draw', pk)]
        if not ends or draws and ends[-1] < draws[-1]:
            return VIOLATED, 'plot %s is not rearranged after its tests are drawn' % pk
        if len(set(figs[pk])) != 1:
            return VIOLATED, 'plot %s is drawn on several figures' % pk
    one = [figs['p%d' % k][0] for k in range(nplots)]
    for i in range(len(one)):
        for j in range(i):
            if one[i] is one[j] or samefigure(one[i], one[j]):
                return VIOLATED, 'two plots share the figure %s' % show(one[i], 6)[:300]
    return PROVED, ''


def samefigure(a, b):
    """pyplot.figure with the same number twice is one figure"""
    def num_(x):
        e = x.args[0] if x.op == 'mret' else x
        return (e.args[3], e.args[4]) if e.op == 'ev' and e.args[0] == 'mcall' else None
    na, nb = num_(a), num_(b)
    return na is not None and na == nb and (na[0] or na[1])


def run(ck):
    for nm in NAMES:
        w = member_where(ck.world, P + nm, 'plot')
        for masked, second in ((False, False), (True, False), (False, True)):
            ck.guard(label(nm, masked, second), lambda: plot(ck, nm, masked, second), w)
    ck.guard('standard plots', lambda: registry(ck), ck.where(P + 'EVMA1288plots'))
    for nt in (0, 1, 2, 3):
        for np_ in (1, 2, 3):
            for default in (False, True):
                ck.guard('Plotting1288 %d %d %s' % (nt, np_, default), lambda: dispatch(ck, nt, np_, default),
                         member_where(ck.world, PL, 'plot'))
    for ident in (0, 1):
        ck.guard('Plotting1288 id %d' % ident, lambda: dispatch(ck, 2, 2, True, ident), member_where(ck.world, PL, 'plot'))
    ck.control('uncorrected data', plot(ck, 'PlotSensitivity', False, False, 'wrong_plot', True) != PROVED)

"""Each processing stage provides every key the next one reads"""
from .common import *
from .results_common import RES, member_where
from . import loader_common as lc, data_common as dc, parser_common as pc
from .c26 import NAMES as PLOTS, P as PLOT, unknowns, PREFIX
from .c16 import public
from vf.interp import UNDEF

NOTE = ('Each stage is executed abstractly; the keys of the dictionary it produces are read off its abstract output and the next '
        'stage is executed on a symbolic dictionary with exactly these keys (any number of exposures and photon counts). A path '
        'that raises KeyError, or a member or plot that cannot be evaluated at all, is a violation. The wrapper class and the '
        'shipped examples are then executed as a whole on a descriptor file of known structure: no stage of the chain may fail '
        'on a key, and the wrapper must hand on the output of each stage unchanged.')
MIN = 90
W = 'emva1288.process.Emva1288'
LOAD = 'emva1288.process.routines.load_image'
SH = {'temporal': {10.0: {0.0: 2, 5.0: 2}}, 'spatial': {10.0: {0.0: 3, 5.0: 3}}}
SH2 = {'temporal': {10.0: {0.0: 2, 5.0: 2, 6.0: 2}, 20.0: {0.0: 2, 7.0: 2}}, 'spatial': {20.0: {0.0: 3, 7.0: 4}}}
RULE = 'every key read from a stage\'s output is one that stage provides on every successful run'


def keyerrors(o):
    """{key: place} of the lookups that fail on some path"""
    out = {}
    for e in o.exits:
        if e.kind == 'raise' and e.v is not None and e.v.t.op == 'exc':
            a = e.v.t.args
            if a[0] in ('KeyError', 'LookupError'):
                k = [x for y in a[1:] for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, Node)]
                out[show(k[0], 3) if k else '?'] = e.where
    if not out and ({'KeyError', 'LookupError'} & exc_names(o.value)):
        out['?'] = ''
    return out


def dead(o):
    """the exceptions, if every path raises"""
    n = exc_names(o.value)
    return sorted(x for x in n if x) if None not in n else []


def judge(ck, name, o, w, rule=RULE):
    k, d = keyerrors(o), dead(o)
    for key, place in sorted(k.items()):
        ck.add('%s: key %s' % (name, key), VIOLATED, w, 'the key %s is looked up at %s and is not provided' % (key, place), rule)
    if k:
        pass
    elif d:
        ck.add(name, VIOLATED, w, 'always fails with ' + ', '.join(d), rule)
    else:
        ck.add(name, PROVED, w, '', rule)
    return not (k or d)


def lit(t):
    return dict(t.args[0]) if t.op == 'dlit' else None


def name_of(k):
    return k.args[0] if k.op == 'str' else show(k, 2)


# ---- loader
def loader(ck):
    """{kind: keys of a point}, further keys"""
    w = ck.where(lc.LD + '._get_imgs_data')
    points, extra = {}, None
    for tag, sh in (('', SH), (' (two exposures)', SH2)):
        L = lc.Loader(ck, sh)
        if not judge(ck, 'loading images%s' % tag, L.out, ck.where(lc.LD), 'the loader reads only keys of the image dictionary it is given'):
            return None
        d = lit(okval(L.out.value))
        if d is None:
            ck.add('loader output%s' % tag, UNDECIDED, w, show(L.out.value, 3)[:200], '')
            return None
        d = {name_of(k): v for k, v in d.items()}
        e = set(d) - {'temporal', 'spatial'}
        extra = e if extra is None else extra & e
        for kind in ('temporal', 'spatial'):
            ck.rule('loader output has %s%s' % (kind, tag), kind in d, w, 'keys: %s' % sorted(d), RULE)
            for t, ps in (lit(d[kind]) or {}).items() if kind in d else ():
                for p, rec in (lit(ps) or {}).items():
                    r = lit(rec)
                    if r is None:
                        ck.add('point of the loader%s' % tag, UNDECIDED, w, show(rec, 3)[:200], '')
                        return None
                    ks = {name_of(k) for k in r}
                    points[kind] = points[kind] & ks if kind in points else ks
                    ck.rule('%s point %s, %s%s has the same keys as the others' % (kind, show(t), show(p), tag), ks == points[kind], w,
                            '%s and %s' % (sorted(ks), sorted(points[kind])), 'every point has the same keys')
    return points, extra


# ---- data
SCHEMA = {'sum': {'temporal': dc.INT, 'spatial': dc.IMG}, 'pvar': {'temporal': dc.INT, 'spatial': dc.IMG}, 'L': dc.INT}


def record(kind, keys):
    out = {}
    for k in sorted(keys):
        s = SCHEMA.get(k, dc.NUM)
        out[k] = s[kind] if isinstance(s, dict) else s
    return ('rec', out)


def point(kind, keys, tag):
    out = {}
    for k in sorted(keys):
        if kind == 'spatial' and k in ('sum', 'pvar'):
            out[k] = arrsym(k + tag, dc.H_, dc.W_, integer=True)
        elif k in ('sum', 'pvar', 'L'):
            out[k] = intsym(k + tag)
        else:
            out[k] = numsym(k + tag)
    return out


def data(ck, points, extra):
    """keys of the output of Data1288: {kind: keys}"""
    w = ck.where(dc.D)
    keys = {'temporal': None, 'spatial': None}
    cases = (('one exposure', {10.0: [0.0, 5.0]}, {50.0: [0.0, 7.0]}), ('three exposures', {10.0: [0.0, 5.0, 6.0], 20.0: [0.0, 8.0], 30.0: [0.0, 9.0]},
             {20.0: [0.0, 8.0]}), ('any exposures', None, {50.0: [0.0, 7.0]}))
    for tag, T, S in cases:
        r = Run(ck.world)
        top = {k: {'width': dc.W_, 'height': dc.H_}.get(k, anysym(k)) for k in extra}
        if T is None:
            top['temporal'] = symdata('temporal', ('map', dc.NUM, ('map', dc.NUM, record('temporal', points['temporal']))))
        else:
            top['temporal'] = nested(r, {t: {p: point('temporal', points['temporal'], '<%s,%s>' % (t, p)) for p in ps} for t, ps in T.items()})
        top['spatial'] = nested(r, {t: {p: point('spatial', points['spatial'], '<%s,%s>' % (t, p)) for p in ps} for t, ps in S.items()})
        o = dc.build(ck, r, r.dict(top))
        if not judge(ck, 'reducing images to data, %s' % tag, o, w):
            continue
        d = lit(okval(o.value))
        for kind in ('temporal', 'spatial'):
            x = {name_of(k): v for k, v in d.items()}.get(kind) if d is not None else None
            x = lit(x) if x is not None else None
            if x is None:
                ck.add('data has %s, %s' % (kind, tag), VIOLATED if d is not None and kind not in [name_of(k) for k in d] else UNDECIDED, w, '', RULE)
                continue
            ks = {name_of(k) for k in x}
            ck.add('data has %s, %s' % (kind, tag), PROVED, w, '', RULE)
            keys[kind] = ks if keys[kind] is None else keys[kind] & ks
    return keys


# ---- results and plots
IMAGE = {'sum', 'pvar', 'sum_dark', 'pvar_dark'}


def resultobj(ck, keys):
    n, h, w = intsym('n'), intsym('height'), intsym('width')
    r = Run(ck.world)
    T = {k: arrsym("temporal['%s']" % k, n) for k in sorted(keys['temporal'])}
    S = {}
    for k in sorted(keys['spatial']):
        S[k] = arrsym("spatial['%s']" % k, h, w, integer=True) if k in IMAGE else \
            intsym("spatial['%s']" % k) if k[0] in 'LMN' else numsym("spatial['%s']" % k)
    d = r.dict({'temporal': r.dict(T), 'spatial': r.dict(S)})
    c = ck.world.get(RES)
    if not isinstance(c, Cls):
        raise Vanished(RES)

    def go(s, cx):
        r.obj = r.ip.construct(c, [d], {'pixel_area': V(anysym('pixel_area'))}, s, cx, None)
        return r.obj
    return r, r.outcome(go)


def unknown(ck, r, o):
    """a result object whose members (analysed on their own) are unknown values"""
    o.st.w(r.obj.t.args[0]).f.setdefault('id', V(intsym('id')))
    PREFIX[r.obj.t.args[0]] = 'test'
    for nm, v in unknowns(ck).items():
        r.ip.override[RES + '.' + nm] = v


def results(ck, keys):
    make = lambda: resultobj(ck, keys)
    r, o = make()
    if not judge(ck, 'making results', o, ck.where(RES)):
        return
    for nm in public(ck):
        if nm in ('xml', 'results', 'results_by_section', 'print_results'):
            continue          # these read the members
        ww = member_where(ck.world, RES, nm)
        ck.guard('results.%s' % nm, lambda: judge(ck, 'results.%s' % nm, r.attr(r.obj, nm, None, st=o.st.copy()), ww), ww)
    for nm in PLOTS:
        ww = ck.where(PLOT + nm + '.plot')

        def one(nm=nm, ww=ww):
            r, o = make()
            unknown(ck, r, o)
            c = ck.world.get(PLOT + nm)
            if not isinstance(c, Cls):
                raise Vanished(PLOT + nm)
            p = []

            def draw(s, cx):
                x = r.ip.construct(c, [V(anysym('figure'))], {}, s, cx, None)
                return r.ip.call(r.ip.getattr(x, 'plot', s, cx, None), [r.obj], {}, s, cx, None)
            judge(ck, 'plot %s' % nm, r.outcome(draw, st=o.st), ww)
        ck.guard('plot %s' % nm, one, ww)


# ---- the wrapper and the shipped examples
LINES = [l for b in (pc.Block('b', '10', '5', [['t', 'a.png'], ['t', 'b.png']]), pc.Block('d', '10', None, [['t', 'c.png'], ['t', 'd.png']]),
                     pc.Block('b', '10', '5', [['s', '%d.png' % k] for k in range(3)]),
                     pc.Block('d', '10', None, [['s', 'd%d.png' % k] for k in range(3)])) for l in b.lines()]
LINES = [const('v 3.0'), const('n 8 640 480')] + LINES
GEN = 'emva1288.camera.dataset_generator.DatasetGenerator'
STAGES = (('ParseEmvaDescriptorFile', 'images'), ('LoadImageData', 'data'), ('Data1288', 'data'))
PLOTTING = 'emva1288.process.plotting.Plotting1288'
REPORT = 'emva1288.report.report.Report1288'


class Files(dict):
    """every file that is read is the descriptor file"""

    def get(self, k, d=None):
        return [scat(x, const('\n')) for x in LINES]


def tail(t):
    """the part of a path below the directory of the descriptor file"""
    return '/'.join(x.args[0] for x in t.args if x.op == 'str' and x.args[0]) if t.op == 'pathjoin' else show(t, 6)


class Chain:
    """records what reaches the last stages"""

    def __init__(self, ck):
        self.ck = ck
        self.r = r = Run(ck.world)
        self.made, self.calls, self.plots, self.added = [], [], [], []
        r.ip.files = Files()
        ov = r.ip.override
        ov[LOAD] = lambda ip, args, kw, st, cx, node: lc.image(strsym('file:' + tail(ip.freeze(args[0].t, st))))
        ov['ext:isfile'] = lambda how, p: TRUE
        ov[RES + '.__init__'] = self.results
        ov[GEN + '.__init__'] = lambda ip, args, kw, st, cx, node: V(NONE)
        ov[GEN + '.descriptor_path'] = lambda ip, args, kw, st, cx, node: V(pc.FILE)
        ov[PLOTTING + '.__init__'] = self.plotting
        ov[PLOTTING + '.plot'] = lambda ip, args, kw, st, cx, node: self.note('plot', ip, args, kw, st)
        for m in ('print_results', 'xml', 'results', 'results_by_section'):
            ov[RES + '.' + m] = (lambda m: lambda ip, args, kw, st, cx, node: self.note(m, ip, args, kw, st))(m)
        ov[REPORT + '.__init__'] = lambda ip, args, kw, st, cx, node: V(NONE)
        ov[REPORT + '.add'] = lambda ip, args, kw, st, cx, node: self.note('add', ip, args, kw, st)
        ov[REPORT + '.latex'] = lambda ip, args, kw, st, cx, node: V(NONE)

    def results(self, ip, args, kw, st, cx, node):
        a = [ip.freeze(x.t, st) for x in args[1:]]
        self.made.append((args[0].t, a, {k: ip.freeze(v.t, st) for k, v in kw.items()}))
        return V(NONE)

    def plotting(self, ip, args, kw, st, cx, node):
        self.plots.append((args[0].t, [x.t for x in args[1:]]))
        return V(NONE)

    def note(self, name, ip, args, kw, st):
        self.calls.append((name, args[0].t, [ip.freeze(x.t, st) if name == 'add' else x.t for x in args[1:]], {k: v.t for k, v in kw.items()}))
        return V(anysym(name))


def reference(ck):
    """the output of every stage fed with that of the one before"""
    C = Chain(ck)
    r = C.r

    def go(s, cx):
        x = V(pc.FILE)
        for nm, out in STAGES:
            f = r.ip.load_global(nm, s, ck.world.module('emva1288.process'), cx, None)
            o = r.ip.call(f, [x], {}, s, cx, None)
            x = r.ip.getattr(o, out, s, cx, None)
        return V(r.ip.freeze(x.t, s))
    return r.outcome(go)


def wrapper(ck):
    w = ck.where(W)
    ref = reference(ck)
    if not judge(ck, 'the stages one after another', ref, ck.where('emva1288.process')):
        return
    want = okval(ref.value)
    C = Chain(ck)
    r = C.r
    c = ck.world.get(W)
    if not isinstance(c, Cls):
        raise Vanished(W)
    o = r.outcome(lambda s, cx: r.ip.construct(c, [V(pc.FILE)], {}, s, cx, None))
    if not judge(ck, 'wrapper', o, w):
        return
    obj = o.v
    if not ck.rule('wrapper makes one result object', len(C.made) == 1, w, '%d made' % len(C.made), '') == PROVED:
        return
    me, args, kw = C.made[0]
    ck.equal('data handed to the results', args[0] if args else kw.get('data', NONE), want, w, 'the wrapper connects the stages as calling them one by one does')
    ck.rule('no further settings', len(args) <= 1 and not (set(kw) - {'data'}), w, '%d arguments, %s' % (len(args), sorted(kw)), 'results are made with their defaults')
    for m, target, args in (('results', 'print_results', []), ('xml', 'xml', [strsym('xml file')]), ('xml', 'xml', [])):
        C.calls = []
        x = r.attr(obj, m, True, st=o.st.copy(), args=[V(a) for a in args])
        if judge(ck, 'wrapper.%s%s' % (m, '(filename)' if args else ''), x, ck.where(W + '.' + m)):
            got = [(n, t is me, [y for y in a + list(k.values()) if y is not NONE]) for n, t, a, k in C.calls]
            ck.rule('wrapper.%s(%s) asks its result object' % (m, 'filename' if args else ''), got == [(target, True, args)], ck.where(W + '.' + m), str(got)[:200],
                    'the wrapper hands on to the result object')
            if m == 'xml':
                ck.equal('value of wrapper.%s(%s)' % (m, 'filename' if args else ''), x.value, anysym('xml'), ck.where(W + '.' + m), 'the wrapper returns the export')
    for ks in ((), (0,), (0, 1), (1, 0, 1)):
        n = len(ks)
        C.calls, C.plots = [], []
        ps = [anysym('plot%d' % k) for k in ks]
        x = r.attr(obj, 'plot', True, st=o.st.copy(), args=[V(p) for p in ps])
        ww = ck.where(W + '.plot')
        if judge(ck, 'wrapper.plot of %d' % n, x, ww):
            ok = len(C.plots) == 1 and C.plots[0][1] == [me] and [(c_[0], c_[2]) for c_ in C.calls] == [('plot', ps)]
            ck.rule('wrapper.plot of %d hands on to the plots' % n, ok, ww, '%s %s' % ([len(p[1]) for p in C.plots], [c_[0] for c_ in C.calls]),
                    'the plots asked for are drawn for its own result')


def script(ck, path):
    """the statements of an example as a function of its module"""
    import ast
    import os
    nm = 'example_' + os.path.basename(path)[:-3]
    m = ck.world.add_source(nm, path)
    m.rel = os.path.join('doc', 'examples', os.path.basename(path))
    body = []
    for s in m.tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and getattr(s.test.left, 'id', '') == '__name__':
            body += s.body
            continue
        body.append(s)
    f = ast.parse('def script__():\n    pass').body[0]
    f.body = body or f.body
    f.lineno = 1
    for s in ast.walk(f):
        for n in getattr(s, 'names', []) if isinstance(s, ast.Global) else []:
            pass
    m.names = {k: v for k, v in m.names.items() if v[0] in ('func', 'class', 'module', 'from')}
    m.names['script__'] = ('func', f)
    return m, nm + '.script__'


CHAINS = ('emva_xml_create', 'full_emva_process', 'simple_emva_process', 'extend_plots', 'sample_report')


def examples(ck, keys):
    import os
    want = okval(reference(ck).value)
    d = os.path.join(ck.world.repo, 'doc', 'examples')
    for nm in CHAINS:
        p = os.path.join(d, nm + '.py')
        if not os.path.isfile(p):
            continue
        w = 'doc/examples/%s.py' % nm

        def one(nm=nm, p=p, w=w):
            m, q = script(ck, p)
            C = Chain(ck)
            o = C.r.outcome(lambda s, cx: C.r.ip.call(C.r.ip.load_global('script__', s, m, cx, None), [], {}, s, cx, None))
            rule = 'the shipped examples connect the stages as the package does'
            if not judge(ck, 'example %s' % nm, o, w, rule):
                return
            got = [a[0] if a else kw.get('data', NONE) for me, a, kw in C.made] + [c[2][1] for c in C.calls if c[0] == 'add' and len(c[2]) > 1]
            ck.rule('example %s makes results' % nm, bool(got), w, '%d' % len(got), rule)
            for k, g in enumerate(got):
                ck.equal('example %s: data of result %d' % (nm, k + 1), g, want, w, rule)
        ck.guard('example %s' % nm, one, w)
    ck.guard('example plot', lambda: example_plot(ck, d, keys), 'doc/examples/extend_plots.py')
    ck.guard('example data', lambda: example_data(ck, d), 'doc/examples/grab_and_process.py')


def example_plot(ck, d, keys):
    import os
    p = os.path.join(d, 'extend_plots.py')
    if not os.path.isfile(p):
        return
    m, q = script(ck, p)
    base = ck.world.get(PLOT + 'Emva1288Plot')
    for nm, e in m.names.items():
        if e[0] != 'class':
            continue
        c = ck.world.cls(m, nm)
        if base not in c.mro():
            continue

        def one(nm=nm, c=c):
            r, o = resultobj(ck, keys)
            unknown(ck, r, o)

            def draw(s, cx):
                x = r.ip.construct(c, [V(anysym('figure'))], {}, s, cx, None)
                return r.ip.call(r.ip.getattr(x, 'plot', s, cx, None), [r.obj], {}, s, cx, None)
            judge(ck, 'example plot %s' % nm, r.outcome(draw, st=o.st), 'doc/examples/extend_plots.py')
        ck.guard('example plot %s' % nm, one, 'doc/examples/extend_plots.py')


def example_data(ck, d):
    import ast
    import os
    p = os.path.join(d, 'grab_and_process.py')
    w = 'doc/examples/grab_and_process.py'
    if not os.path.isfile(p):
        return
    m, q = script(ck, p)
    pts = {}
    for kind in ('temporal', 'spatial'):
        r = Run(ck.world)
        n = [0]

        def grab(ip, args, kw, st, cx, node):
            n[0] += 1
            return lc.image(strsym('grabbed%d' % n[0]))
        r.ip.override['specs.Grabber.grab'] = grab
        cam = r.ip.construct(ck.spec('Grabber'), [], {}, r.st, r.cx, None)
        kw = {'L': V(num(3))} if kind == 'spatial' else {}
        o = r.outcome(lambda s, cx: r.ip.call(r.ip.load_global('get_' + kind, s, m, cx, None), [cam, V(numsym('radiance'))], kw, s, cx, None))
        x = lit(okval(o.value))
        if x is None:
            ck.add('example %s point' % kind, UNDECIDED, w, show(o.value, 3)[:200], '')
            return
        pts[kind] = {name_of(k) for k in x}
    rule = 'the examples provide the keys that Data1288 reads'
    for kind, T, S in (('temporal', {10.0: [0.0, 5.0]}, None), ('spatial', None, {50.0: [0.0, 7.0]})):
        r = Run(ck.world)
        x = T or S
        o = None
        keys = pts[kind]
        c = ck.world.get(dc.D)
        given = nested(r, {t: {q: point(kind, keys, '<%s,%s>' % (t, q)) for q in ps} for t, ps in x.items()})
        ok = lambda k: nested(r, dc.lit({10.0: [0.0, 5.0]}, k == 'spatial'))
        o = dc.build(ck, r, r.dict({'temporal': given if T else ok('temporal'), 'spatial': given if S else ok('spatial'),
                                    'width': dc.W_, 'height': dc.H_}))
        judge(ck, 'example grab_and_process: %s points' % kind, o, w, rule)
    # the photon counts serve as keys
    tree = m.tree
    names = {t.id for s in ast.walk(tree) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and
             getattr(s.value.func, 'attr', '') == 'get_photons' for t in s.targets if isinstance(t, ast.Name)}
    used = [x for x in ast.walk(tree) if isinstance(x, ast.Subscript) and getattr(x.slice, 'id', '') in names]
    if used:
        from . import camera_common as cc
        o = cc.Cam(ck)
        o = o.call('get_photons', V(numsym('radiance')), st=o.out.st)
        k = rank(okval(o.value))
        ck.rule('example grab_and_process: photon counts as keys', None if k is None else k == 0, '%s:%d' % (w, used[0].lineno),
                'Camera.get_photons returns an array, which cannot be a dictionary key', rule)


def controls(ck):
    """a key that is not provided is reported"""
    r = Run(ck.world)
    d = r.dict({'temporal': r.dict({'u_p': arrsym('u_p', intsym('n'))}), 'spatial': r.dict({})})
    o = spec_call(ck, r, 'wrong_key', [d])
    ck.control('a key that is not provided is seen', 'u_y' in str(list(keyerrors(o))))
    o = spec_call(ck, r, 'right_key', [d])
    ck.control('a key that is provided is accepted', not keyerrors(o) and not dead(o))


def run(ck):
    keep = {}
    ck.guard('loader', lambda: keep.update(loader=loader(ck)), ck.where(lc.LD))
    if keep.get('loader'):
        ck.guard('data', lambda: keep.update(keys=data(ck, *keep['loader'])), ck.where(dc.D))
    k = keep.get('keys')
    if k and None not in k.values():
        ck.guard('results', lambda: results(ck, k), ck.where(RES))
    ck.guard('controls', lambda: controls(ck), ck.where(RES))
    ck.guard('wrapper', lambda: wrapper(ck), ck.where(W))
    ck.guard('examples', lambda: examples(ck, k), 'doc/examples')

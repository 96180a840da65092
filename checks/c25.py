"""Generated datasets and the parser that reads them"""
from fractions import Fraction
from .camera_common import *
from .parser_common import PARSER, parse, part, wd, Block
from vf import text
from vf.alg import fmt, RANKF

TECHNIQUE = ('abstract interpretation: the file text and the image files the generator writes, as terms, are given to the abstractly '
             'evaluated parser and the two are compared')
NOTE = ('DatasetGenerator is evaluated abstractly for written-out families of test points (unknown camera, radiances, images, '
        'version, image format and directory; literal exposures, number of points and L). The text written to the descriptor is '
        'collected as a term and handed to the parser, evaluated abstractly on it; every image file written is taken from '
        'the effect trace with the call of Camera.grab its content comes from.')
MIN = 60
DG = 'emva1288.camera.dataset_generator.DatasetGenerator'
PG = 'emva1288.camera.points_generator.PointsGenerator'
OUT = strsym('outdir')
HOLDS = {('int8', 'L'): 7, ('int8', None): 7, ('uint8', 'L'): 8, ('uint8', None): 8, ('uint16', 'I;16'): 16, ('uint16', None): 16, ('uint32', 'I'): 16, ('int32', 'I'): 16,
         ('int32', None): 16}
RANKF['grabbed'] = lambda n: 2


def rad(name):
    return mul(numsym('radiance_' + name, True), mk('ones', mk('tup', H_, W_, NW)))


DARK = mk('zeros', mk('tup', H_, W_, NW))
ms = lambda s: num(Fraction(s))
# families of points: kind -> [(exposure, [(name, radiance or None)])]
FAMILIES = {
    'exposure series': {'temporal': [('10.5', ['b0', None]), ('250.1', ['b1', None]), ('3000.0', ['b2', None])],
                        'spatial': [('250.1', ['s0', None])]},
    'radiance series': {'temporal': [('120.4', ['b0', 'b1', 'b2', 'b3', None])], 'spatial': [('120.4', ['s0', None])]},
    'one bright point': {'temporal': [('7.0', ['b0'])], 'spatial': []},
    'one dark point': {'temporal': [('0.2', [None])], 'spatial': [('0.2', [None])]},
    'dark first': {'temporal': [('99.9', [None, 'b0']), ('100.0', [None, 'b1'])], 'spatial': [('99.9', [None, 's0']), ('100.0', ['s1', None])]},
}


def points(fam):
    out = {}
    for kind in ('spatial', 'temporal'):
        out[kind] = [(ms(e), [rad(x) if x else DARK for x in rs]) for e, rs in fam[kind]]
    return out


class Gen:
    def __init__(self, ck, fam, L, bits, given=None, nosearch=True):
        self.ck, self.fam, self.L, self.bits = ck, fam, L, bits
        self.r = r = Run(ck.world, override={CAM + '.grab': self.grab, PG: self.points})
        cl = ck.world.get(DG)
        if not isinstance(cl, Cls):
            raise Vanished(DG)
        p = params()
        p['bit_depth'] = num(bits)
        p.pop('exposure')
        self.p = p
        kw = {k: v if isinstance(v, V) else V(v) for k, v in p.items()}
        q = r.outcome(lambda s, cx: r.ip.construct(ck.world.get(CR + 'Qe'), [], {
            'qe': arrsym('qe', H_, W_, NW), 'wavelength': arrsym('w', NW), 'width': V(W_), 'height': V(H_)}, s, cx, None), st=r.st)
        kw['qe'] = q.v
        self.steps = num(sum(1 for k in fam['temporal'] for x in k[1] if x))
        self.version, self.format = wd('version'), wd('image_format')
        kw.update(steps=V(self.steps), L=V(num(L)), version=V(self.version), image_format=V(self.format), outdir=V(OUT))
        kw.update({k: V(v) for k, v in (given or {}).items()})
        self.asked = []

        def go(s, cx):
            o = r.ip.construct(cl, [], kw, s, cx, None)
            self.obj = o
            cam = r.ip.getattr(o, 'cam', s, cx, None)
            vals = [r.ip.getattr(o, 'descriptor_path', s, cx, None).t, r.ip.freeze(r.ip.getattr(o, 'points', s, cx, None).t, s)]
            vals += [r.ip.getattr(cam, n, s, cx, None).t for n in ('bit_depth', 'width', 'height')]
            return V(mk('tup', *vals))
        self.out = r.outcome(go, st=r.st)

    def grab(self, ip, args, kw, st, cx, node):
        cam = args[0]
        e = ip.getattr(cam, 'exposure', st, cx, node).t
        a = tuple(ip.freeze(x.t, st) for x in args[1:])
        k = tuple((n, ip.freeze(kw[n].t, st)) for n in sorted(kw))
        if k and k[0][0] == 'radiance':
            a, k = (k[0][1],), k[1:]
        ev = mk('ev', 'grab', e, a, k)
        st.emit(ev)
        occ = st.occ.get(ev, 0)
        st.occ[ev] = occ + 1
        return V(mk('grabbed', e, a, k, num(occ), tuple(ip.loopctx)))

    def points(self, ip, args, kw, st, cx, node):
        self.asked.append((tuple(ip.freeze(a.t, st) for a in args[1:]),
                           {k: ip.freeze(v.t, st) for k, v in kw.items()}))
        items = {}
        for kind, ps in points(self.fam).items():
            items[const(kind)] = st.new(H('dict', items={e: st.new(H('list', items=[V(x) for x in rs])) for e, rs in ps}))
        d = st.new(H('dict', items=items))
        ip.override[PG + '.points'] = d
        return st.new(H('inst', self.ck.world.get(PG), {'points': d}))


def events(t):
    """flat list of the events of a trace without loops or branches, else None"""
    if t.op == 'lit':
        out = list(t.args)
    elif t.op == 'cat':
        out = []
        for x in t.args:
            y = events(x)
            if y is None:
                return None
            out += y
    else:
        return None
    return out


def lines_of(ws):
    ps = text.parts(scat(*ws))
    if ps is None:
        return None
    out, cur = [], []
    for p in ps:
        if not isinstance(p, str):
            cur.append(p)
            continue
        xs = p.split('\n')
        for k, x in enumerate(xs):
            if k:
                out.append(cur)
                cur = []
            if x:
                cur.append(x)
    if cur:
        out.append(cur)
    return [text.join(x) if x else const('') for x in out]


def run(ck):
    w = ck.where(DG)
    wp = ck.where(PARSER)
    bits = (8, 12) if ck.tier == 'quick' else (1, 7, 8, 9, 10, 12, 14, 16)
    Ls = (3, 5) if ck.tier == 'quick' else (3, 4, 5, 7)
    for nm, fam in FAMILIES.items():
        for L in Ls:
            for b in bits if nm == 'dark first' else bits[:2]:
                n = '%s, L=%d, %d bits' % (nm, L, b)
                ck.guard(n, lambda: one(ck, n, Gen(ck, fam, L, b), w, wp), w)
    for b in range(1, 17):
        ck.guard('%d bits' % b, lambda: depth(ck, '%d bits' % b, Gen(ck, FAMILIES['one bright point'], 3, b), w), w)
    given = {'radiance_min': numsym('rmin', True), 'radiance_max': numsym('rmax', True), 'exposure_fixed': numsym('fixed', True)}
    for n in (0, 1, 2, 3):
        sub = dict(list(given.items())[:n])
        ck.guard('points asked for', lambda: asked(ck, Gen(ck, FAMILIES['one bright point'], 3, 8, sub), sub, w), w)


def saves_of(evs):
    out = []
    for e in evs:
        if e.op == 'ev' and e.args[0] == 'mcall' and e.args[1].op == 'imagefrom' and e.args[2] is const('save'):
            out.append((e.args[3][0] if e.args[3] else dict(e.args[4]).get('fp'), e.args[1]))
    return out


def uncast(t):
    """(narrowest type the value went through, value)"""
    dt = None
    while t.op == 'cast':
        d = str(t.args[1].args[0] if isinstance(t.args[1], Node) else t.args[1])
        dt = dt or d
        t = t.args[0]
    return dt, t


def asked(ck, g, sub, w):
    names = ['exposure_min', 'exposure_max', 'exposure_fixed', 'radiance_min', 'radiance_max', 'steps', 'gain', 'blackref']
    m = ck.world.get(PG).find('__init__')
    ps = [a.arg for a in m[2].args.args][2:] if m and m[0] == 'func' else names
    ck.rule('points asked for once with %d limits' % len(sub), len(g.asked) == 1, w, '%d generators' % len(g.asked))
    for a, kw in g.asked:
        got = dict(zip(ps, a))
        got.update(kw)
        for k in ('steps', 'exposure_fixed', 'radiance_min', 'radiance_max'):
            want = g.steps if k == 'steps' else sub.get(k, NONE)
            ck.equal('points asked for with %d limits: %s' % (len(sub), k), got.get(k, NONE), want, w)


def depth(ck, nm, g, w):
    evs = events(g.out.trace)
    ss = saves_of(evs) if evs is not None else []
    if not ss:
        return ck.add('images saved, ' + nm, UNDECIDED, w, 'no written-out sequence of image files')
    for k, (p, im) in enumerate(ss):
        t, mode = im.args
        dt, x = uncast(t)
        mode = None if mode is NONE else mode.args[0] if mode.op == 'str' else '?'
        cap = HOLDS.get((dt, mode))
        ck.rule('format of image %d, %s' % (k, nm), None if cap is None else cap >= g.bits, w,
                'pixels saved as %s in mode %s' % (dt, mode), 'the pixel format holds every value of the bit depth')


def one(ck, nm, g, w, wp):
    def und(what):
        ck.add(nm, UNDECIDED, w, what)
    o = g.out
    if exc_names(o.value) != {None}:
        return ck.add('generated, ' + nm, VIOLATED if None not in exc_names(o.value) else UNDECIDED, w,
                      'raises %s' % exc_names(o.value))
    both = split_cases(mk('tup', o.value, o.trace))
    if both is None:
        return und('effects under conditions that are not decided')
    for k, t in enumerate(both):
        case(ck, nm + (', case %d' % k if len(both) > 1 else ''), g, w, wp, idx(t, ZERO), idx(t, ONE))


def case(ck, nm, g, w, wp, value, trace):
    def und(what):
        ck.add(nm, UNDECIDED, w, what)
    evs = events(trace)
    if evs is None:
        return und('effects under a condition or a loop that is not written out')
    path = idx(value, ZERO)
    files = {e.args[1] for e in evs if e.op == 'ev' and e.args[0] == 'open' and set(e.args[2].args[0] if isinstance(e.args[2], Node) else e.args[2]) & set('wax+')}
    ck.rule('one descriptor file, ' + nm, len(files) == 1, w, 'files opened for writing: %s' % [show(f) for f in files])
    ck.rule('descriptor path, ' + nm, path in files, w, 'reported %s' % show(path))
    modes = [str(e.args[2].args[0] if isinstance(e.args[2], Node) else e.args[2]) for e in evs
             if e.op == 'ev' and e.args[0] == 'open' and e.args[1] is path]
    modes = [m for m in modes if set(m) & set('wax+')]
    if modes:
        ck.rule('descriptor written anew, ' + nm, modes[0][:1] in 'wx', w, 'opened as %s' % modes[0],
                'lines of an older descriptor do not stay')
    f = [x for x in files if x is path]
    if not f:
        return
    ws = [e.args[2] for e in evs if e.op == 'ev' and e.args[0] == 'write' and e.args[1].args[0] is path]
    ls = lines_of(ws)
    if ls is None:
        return und('descriptor text with unknown pieces: ' + show(scat(*ws))[:300])
    ck.rule('descriptor ends its last line, ' + nm, ws and text.parts(ws[-1]) and str(text.parts(ws[-1])[-1]).endswith('\n'), w)
    ss = saves_of(evs)
    ims = [uncast(im.args[0])[1] for p, im in ss]
    want = {}
    for kind, ps in points(g.fam).items():
        for e, rs in ps:
            for r in rs:
                want[e, (r,), ()] = want.get((e, (r,), ()), 0) + (2 if kind == 'temporal' else g.L)
    got = {}
    for x in ims:
        if x.op == 'grabbed':
            got[x.args[:3]] = got.get(x.args[:3], 0) + 1
    if all(x.op == 'grabbed' for x in ims):
        bad = sorted('%s at %s: %d' % (show(x[1][0]) if x[1] else '?', show(x[0]), got[x]) for x in got if got[x] != want.get(x))
        bad += sorted('%s at %s: none' % (show(x[1][0]), show(x[0])) for x in want if x not in got)
        ck.rule('images grabbed for every point, ' + nm, not bad, w, '; '.join(bad)[:600],
                'as many images of every point as its kind needs, grabbed at the exposure and radiance of the point')
    # what each point must be called
    photons = {}
    text.DISTINCT.clear()
    for kind, ps in points(g.fam).items():
        for e, rs in ps:
            for r in rs:
                x = ZERO
                if r is not DARK:
                    x = spec_call(ck, g.r, 's_mean_photons', [V(e), V(r), V(g.p['pixel_area']), arrsym('w', NW), V(g.p['f_number'])]).value
                    text.DISTINCT.add(x)
                photons[e, r] = x
    try:
        rr, po = parse(ck, ls, filename=path)
        names = exc_names(po.value)
        if names != {None}:
            return ck.add('accepted by the parser, ' + nm, VIOLATED if None not in names else UNDECIDED, w,
                          'the parser raises %s on\n%s' % (names, '\n'.join(show(x) for x in ls)[:1500]), 'every line written is accepted')
        ck.add('accepted by the parser, ' + nm, PROVED, w)
        images, form, version = (idx(po.value, num(k)) for k in range(3))
        for k, n in (('bits', 2), ('width', 3), ('height', 4)):
            ck.equal('%s read back, %s' % (k, nm), dget(form, const(k)), idx(value, num(n)), w)
        ck.equal('version read back, ' + nm, version, g.version, w)
        ck.rule('no file name used twice, ' + nm, all(eq(a[0], b[0]) is FALSE for i, a in enumerate(ss) for b in ss[:i]) or
                (None if not any(a[0] is b[0] for i, a in enumerate(ss) for b in ss[:i]) else False), w,
                'paths %s' % sorted(show(a[0]) for a in ss))
        saved = {}
        for k, (p, im) in enumerate(ss):
            saved[p] = uncast(im.args[0])[1]
        seen = set()
        want = points(g.fam)
        for kind in ('temporal', 'spatial'):
            tree = table(dget(images, const(kind)))
            if tree is None:
                und('parsed images not written out: ' + show(dget(images, const(kind)))[:300])
                continue
            exps = [e for e, rs in want[kind]]
            ck.rule('exposures of the %s series, %s' % (kind, nm), set(tree) == set(exps), w,
                    'parsed %s, generated %s' % ([show(x) for x in tree], [show(x) for x in exps]))
            for e, rs in want[kind]:
                if e not in tree:
                    continue
                ph = table(tree[e])
                if ph is None:
                    und('parsed series not written out')
                    continue
                ck.rule('photon counts of the %s series at %s, %s' % (kind, show(e), nm), same(set(ph), {photons[e, r] for r in rs}), w,
                        'parsed %s, generated %s' % ([show(x) for x in ph], [show(photons[e, r]) for r in rs]),
                        'mean over the pixels of the photons collected, to three decimals')
                for r in rs:
                    fs = ph.get(photons[e, r])
                    if fs is None:
                        continue
                    n = '%s images at %s, %s, %s' % (kind, show(e), show(r)[-14:], nm)
                    if fs.op not in ('lit', 'tup'):
                        und('list of images not written out')
                        continue
                    ck.rule('number of ' + n, len(fs.args) == (2 if kind == 'temporal' else g.L), w, '%d images' % len(fs.args))
                    for x in fs.args:
                        seen.add(x)
                        if x not in saved:
                            ck.rule('file of ' + n, False, w, 'the descriptor names %s; written are %s' % (show(x), [show(y) for y in saved][:6]))
                            continue
                        im = saved[x]
                        if im.op != 'grabbed':
                            ck.rule('content of ' + n, None if im.opq or not subterm(im, 'grabbed') else False, w, 'saved: ' + show(im)[:200])
                            continue
                        ck.rule('content of ' + n, im.args[0] is e and im.args[1] == (r,) and im.args[2] == (), w,
                                'image grabbed with exposure %s of %s %s' % (show(im.args[0]), [show(y) for y in im.args[1]], [k for k, v in im.args[2]]),
                                'the image grabbed for that point at that exposure')
        ims = list(saved.values())
        ck.rule('every image saved once, ' + nm, len(set(ims)) == len(ims) == len(ss), w)
        ck.rule('no image outside the descriptor, ' + nm, set(saved) == seen, w, 'not named: %s' % [show(x) for x in set(saved) - seen])
        ck.control('a photon count of another point, ' + nm, not same(set(photons.values()), {mul(num(2), x) for x in photons.values()} | {ONE}))
    finally:
        text.DISTINCT.clear()


def subterm(t, op):
    if t.op == op:
        return True
    return any(subterm(a, op) for a in t.kids)


def same(a, b):
    if a == b:
        return True
    if any(x.opq for x in a | b):
        return None
    return False


def table(t):
    """{key: value} of a dictionary term that is written out"""
    if t.op == 'dlit':
        return dict(t.args[0])
    if t.op == 'dput':
        d = table(t.args[0])
        if d is None or any(eq(k, t.args[1]) not in (TRUE, FALSE) for k in d):
            return None
        d = {k: v for k, v in d.items()}
        for k in list(d):
            if eq(k, t.args[1]) is TRUE:
                d[k] = t.args[2]
                return d
        d[t.args[1]] = t.args[2]
        return d
    return None

"""Sizes of tilings, filters and quantum efficiencies"""
from .camera_common import *

TECHNIQUE = ('abstract interpretation to value terms; tilings in a normal form "periodic extension of the pattern to length n", '
             'for symbolic pattern and target sizes and for every literal size up to 6')
NOTE = ('get_tile, array_tile and get_bayer_filter are evaluated with symbolic pattern and target sizes and must denote the '
        'periodic extension of their pattern to exactly the target size (coverage of the repetition count proved by bounds of '
        'floor and ceiling); the constructor of Qe must raise ValueError exactly when the shape differs.')
MIN = 60
PH, PW = intsym('ph'), intsym('pw')


def atoms(t, acc=None, seen=None):
    acc, seen = set() if acc is None else acc, set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'sym':
            acc.add(x)
        stack.extend(x.kids)
    return acc


def run(ck):
    ck.SIZES = ({'ph': 2, 'pw': 2, 'height': 2, 'width': 3}, {'ph': 1, 'pw': 3, 'height': 3, 'width': 7},
                {'ph': 3, 'pw': 1, 'height': 5, 'width': 4}, {'ph': 2, 'pw': 1, 'height': 5, 'width': 6})
    wt, wa, wb, wq = (ck.where(CR + n) for n in ('get_tile', 'array_tile', 'get_bayer_filter', 'Qe.__init__'))

    def tiling(fn, spec, where, mk_, h, w, tag):
        r = Run(ck.world)
        a = mk_()
        got = r.call(CR + fn, [a, h, w])
        want = spec_call(ck, r, spec, [a, h, w])
        ck.equal('%s %s' % (fn, tag), got.value, want.value, where, 'the pattern repeated from the top-left corner to exactly the '
                 'requested size')
        no_mutation(ck, '%s %s leaves the pattern unchanged' % (fn, tag), got, where)
        return got, want

    def sym_tile():
        got, want = tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', PH, PW), H_, W_, 'two dimensions')
        r = Run(ck.world)
        ck.ctl_equal('height and width swapped', got.value,
                     spec_call(ck, r, 'wrong_tile', [arrsym('pattern', PH, PW), H_, W_]).value)
        tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', PW), H_, W_, 'one dimension')
        tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', PW), ONE, W_, 'one dimension, one row')
        tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', PH, PW), ONE, W_, 'two dimensions, one row')
    ck.guard('get_tile', sym_tile, wt)

    def lit_tile():
        for ph in (1, 2, 3):
            for pw in (1, 2, 3):
                for h in range(1, 7):
                    for w in range(1, 7):
                        if ck.tier == 'quick' and (h + 2 * w + ph + pw) % 3:
                            continue
                        tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', num(ph), num(pw)), num(h), num(w),
                               '%dx%d to %dx%d' % (ph, pw, h, w))
                        if ph == 1:
                            tiling('get_tile', 's_tile', wt, lambda: arrsym('pattern', num(pw)), num(h), num(w),
                                   '%d to %dx%d' % (pw, h, w))
    ck.guard('get_tile literal', lit_tile, wt)

    def sym_array():
        tiling('array_tile', 's_array_tile', wa, lambda: arrsym('pattern', PH, PW, NW), H_, W_, 'pattern by wavelengths')
        tiling('array_tile', 's_array_tile', wa, lambda: arrsym('pattern', PW, NW), H_, W_, 'row by wavelengths')
        tiling('array_tile', 's_array_tile', wa, lambda: arrsym('pattern', NW), H_, W_, 'wavelengths')
        for ph in (1, 2, 3):
            for pw in (1, 2, 3):
                for h in range(1, 6):
                    for w in range(1, 6):
                        if ck.tier == 'quick' and (h + 2 * w + ph + pw) % 3:
                            continue
                        tiling('array_tile', 's_array_tile', wa, lambda: arrsym('pattern', num(ph), num(pw), NW), num(h), num(w),
                               '%dx%d to %dx%d' % (ph, pw, h, w))
    ck.guard('array_tile', sym_array, wa)

    def bayer():
        ts = [numsym('t%s' % k) for k in ('00', '01', '10', '11')]
        w = arrsym('w', NW)
        r = Run(ck.world)

        def call(h, wd):
            return r.call(CR + 'get_bayer_filter', ts + [wd, h, w])
        P = call(num(2), num(2)).value
        ck.rule('bayer filter of 2x2', shape(P) == (num(2), num(2), NW), wb, 'the shape is %s' % (shape(P),), 'one pixel each')
        e = [[idx(idx(P, num(i)), num(j)) for j in (0, 1)] for i in (0, 1)]
        for k, (i, j) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
            others = [t for t in ts if t is not ts[k]]
            ck.rule('bayer pixel %d%d has its own transmission' % (i, j),
                    ts[k] in atoms(e[i][j]) and not atoms(e[i][j]) & set(others), wb,
                    'it depends on %s' % sorted(show(t) for t in atoms(e[i][j])), 'entry t%d%d' % (i, j))
            o = r.call(CR + 'get_bayer_filter', [ts[k]] + ts[1:] + [num(2), num(2), w]).value
            ck.equal('bayer pixel %d%d' % (i, j), e[i][j], idx(idx(o, ZERO), ZERO), wb, 'every pixel by the same rule')
        ck.equal('bayer filter', call(H_, W_).value, spec_call(ck, r, 's_array_tile', [V(P), H_, W_]).value, wb,
                 'the 2x2 pattern repeated to height by width by wavelengths')
        for h in range(1, 6):
            for wd in range(1, 6):
                o = call(num(h), num(wd))
                ck.equal('bayer filter %dx%d' % (h, wd), o.value,
                         spec_call(ck, r, 's_array_tile', [V(P), num(h), num(wd)]).value, wb, 'exactly the requested size')
        no_mutation(ck, 'get_bayer_filter leaves the wavelengths unchanged', call(H_, W_), wb)
    ck.guard('bayer', bayer, wb)

    def qe(args):
        r = Run(ck.world)
        c = ck.world.get(CR + 'Qe')
        if not isinstance(c, Cls):
            raise Vanished(CR + 'Qe')
        o = r.outcome(lambda s, cx: r.ip.construct(c, [], {k: (v if isinstance(v, V) else V(v)) for k, v in args.items()}, s, cx,
                                                   None), st=r.st)
        return r, o

    def refusal():
        a, b, c = intsym('a'), intsym('b'), intsym('c')
        r, o = qe({'qe': arrsym('qe', a, b, c), 'wavelength': arrsym('w', NW), 'width': W_, 'height': H_})
        ok = band(band(eq(a, H_), eq(b, W_)), eq(c, NW))
        ck.equal('Qe refuses a mismatch', raisecond(o.value, ('ValueError',)), bnot(ok), wq,
                 'ValueError exactly when the shape is not (height, width, wavelengths)')
        ck.equal('Qe fails in no other way', raisecond(o.value), bnot(ok), wq, 'no other exception')
        ck.ctl_equal('height and width swapped', raisecond(o.value), bnot(band(band(eq(a, W_), eq(b, H_)), eq(c, NW))))
        for tag, q in (('one dimension', arrsym('qe', NW)), ('two dimensions', arrsym('qe', H_, W_)),
                       ('four dimensions', arrsym('qe', H_, W_, NW, intsym('d')))):
            r, o = qe({'qe': q, 'wavelength': arrsym('w', NW), 'width': W_, 'height': H_})
            ck.equal('Qe refuses %s' % tag, raisecond(o.value, ('ValueError',)), TRUE, wq, 'ValueError')
        for tag, q in (('swapped', arrsym('qe', num(3), num(2), num(4))), ('one row less', arrsym('qe', num(1), num(3), num(4))),
                       ('one column more', arrsym('qe', num(2), num(4), num(4))),
                       ('one wavelength', arrsym('qe', num(2), num(3), num(1))),
                       ('same number of values', arrsym('qe', num(4), num(3), num(2)))):
            r, o = qe({'qe': q, 'wavelength': arrsym('w', num(4)), 'width': num(3), 'height': num(2)})
            ck.equal('Qe refuses %s' % tag, raisecond(o.value, ('ValueError',)), TRUE, wq, 'ValueError')
            r, o = qe({'qe': q, 'wavelength': arrsym('w', num(4)), 'width': num(3), 'height': num(2),
                       'filter': arrsym('filter', num(2), num(3), num(4))})
            ck.equal('Qe with a filter refuses %s' % tag, raisecond(o.value, ('ValueError',)), TRUE, wq, 'ValueError')
    ck.guard('refusal', refusal, wq)

    def accepted():
        q, w, f = arrsym('qe', H_, W_, NW), arrsym('w', NW), arrsym('filter', H_, W_, NW)
        for tag, extra in (('', {}), (' with a filter', {'filter': f})):
            r, o = qe(dict({'qe': q, 'wavelength': w, 'width': W_, 'height': H_}, **extra))
            ck.equal('Qe accepts the right shape' + tag, raisecond(o.value), FALSE, wq, 'no exception')
            got = r.attr(o.v, 'qe')
            ck.equal('qe' + tag, got.value, mul(q.t, f.t) if extra else q.t, wq, 'the efficiency%s' % (
                ' times the filter' if extra else ''))
            ck.equal('w' + tag, r.attr(o.v, 'w').value, w.t, wq, 'the wavelengths')
        for h, wd, n in ((H_, W_, NW), (num(1), num(1), num(1)), (num(2), num(3), num(1)), (num(1), num(3), num(2)),
                         (num(3), num(1), num(3))):
            r, o = qe({'wavelength': arrsym('w', n), 'width': wd, 'height': h})
            tag = '%s by %s, %s wavelengths' % (show(h), show(wd), show(n))
            ck.equal('Qe simulated, %s' % tag, raisecond(o.value), FALSE, wq, 'no exception')
            v = r.attr(o.v, 'qe').value
            ck.rule('shape of the simulated efficiency, %s' % tag, shape(v) == (h, wd, n) if shape(v) else None, wq,
                    'the shape is %s' % (shape(v),), 'height by width by wavelengths')
    ck.guard('accepted', accepted, wq)

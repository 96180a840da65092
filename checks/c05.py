"""Refusal of incomplete data"""
from .data_common import *


TECHNIQUE = 'abstract interpretation: raise conditions on literal dictionary shapes with every entry defective in turn, and in unbounded form'
NOTE = ('Every temporal dictionary shape of one to three exposures whose exposures are each complete, without dark point or '
        'without bright point, and every spatial shape of up to two exposures and three points, is evaluated abstractly '
        'with symbolic contents; defective shapes must raise the required exception on every path, complete ones on none. '
        'The same for the loader, with image shapes and missing files as symbols.')
MIN = 60
TS = {'complete': [[0.0, 5.0], [8.0, 0.0, 6.0]], 'no dark': [[5.0, 6.0], [5.0]], 'no bright': [[0.0]]}


def temporal_shapes(n):
    for kinds in itertools.product(TS, repeat=n):
        yield {float(10 * (n - k)): TS[kd][k % len(TS[kd])] for k, kd in enumerate(kinds)}, all(k == 'complete' for k in kinds)


def spatial_shapes():
    pts = [[0.0, 7.0], [7.0, 0.0], [0.0], [7.0], [0.0, 7.0, 9.0], [7.0, 9.0], []]
    yield {}, False
    for p in pts:
        yield {50.0: p}, p in ([0.0, 7.0], [7.0, 0.0])
    for p in pts[:5]:
        for q in pts[:3]:
            yield {50.0: p, 60.0: q}, False


def run(ck):
    wt, ws = member_where(ck.world, D, '_get_temporal'), member_where(ck.world, D, '_get_spatial')

    def dat(name, t, s, ok, w, rule):
        r = Run(ck.world)
        expect(ck, name, build(ck, r, data(r, t, s)), ok, 'ValueError', w, rule)
    rt = 'a temporal exposure without its dark or a bright point raises ValueError'
    rs = 'spatial data other than one exposure with one dark and one bright point raises ValueError'
    for n in (1, 2, 3):
        for s, ok in temporal_shapes(n):
            nm = 'Data1288 temporal %s' % {k: v for k, v in s.items()}
            ck.guard(nm, lambda: dat(nm, s, GOOD_S, ok, wt, rt), wt)
    for s, ok in spatial_shapes():
        nm = 'Data1288 spatial %s' % s
        ck.guard(nm, lambda: dat(nm, GOOD_T, s, ok, ws, rs), ws)

    def unbounded():
        r = Run(ck.world)
        got = raisecond(build(ck, r, data(r, sym_temporal(), GOOD_S)).value)
        want = spec_call(ck, r, 's_temporal_bad', [sym_temporal()]).value
        v, why = verdict(got, want)
        ck.add('Data1288 temporal, any number of exposures', PROVED if v == PROVED else UNDECIDED, wt,
               '' if v == PROVED else describe(got, want, why), rt)
        ck.ctl_equal('only the first exposure is tested', got, spec_call(ck, r, 'wrong_temporal_bad', [sym_temporal()]).value)
    ck.guard('Data1288 temporal, any number of exposures', unbounded, wt)

    loader(ck)


from .loader_common import Loader, LD, fname    # noqa: E402


# other height, other width, transposed, same number of pixels, same sum, multiples
ODD = [(4, 5), (3, 6), (5, 3), (1, 15), (15, 1), (4, 4), (6, 10)]


def loader(ck):
    w = ck.where(LD)
    good = {'temporal': {10.0: {0.0: 2, 5.0: 2}, 20.0: {6.0: 2, 0.0: 2}}, 'spatial': {50.0: {7.0: 3, 0.0: 3}}}

    def case(name, shape, ok, exc, rule, **kw):
        def go():
            expect(ck, 'LoadImageData ' + name, Loader(ck, shape, size=(num(3), num(5)), **kw).out, ok, exc, w, rule)
        ck.guard('LoadImageData ' + name, go, w)
    case('complete', good, True, None, 'a complete data set is loaded')
    rd = 'an exposure without dark series, or with fewer than two points, raises ValueError'
    for kind in good:
        for t in good[kind]:
            for what, ps in (('no dark', {6.0: 2, 5.0: 2}), ('no bright', {0.0: 2}), ('one bright only', {6.0: 2}),
                             ('empty', {})):
                d = {k: dict(v) for k, v in good.items()}
                d[kind][t] = ps
                case('%s %s %s' % (kind, t, what), d, False, 'ValueError', rd)
    rm = 'a missing image file raises IOError'
    ro = 'images of different shape raise ValueError'
    for kind in good:
        for t in good[kind]:
            for p, n in good[kind][t].items():
                fs = [fname(kind, t, p, k) for k in range(n)]
                for h, w_ in ODD:
                    case('shape %dx%d in series %s %s %s' % (h, w_, kind, t, p), good, False, 'ValueError', ro, odd=fs,
                         oddshape=(num(h), num(w_)))
                for k in range(n):
                    f = fname(kind, t, p, k)
                    case('missing %s' % show(f), good, False, 'OSError', rm, missing=f)
                    for h, w_ in ODD:
                        case('shape %dx%d of %s' % (h, w_, show(f)), good, False, 'ValueError', ro, odd=f,
                             oddshape=(num(h), num(w_)))

"""What the loader stores and where"""
from .loader_common import *

TECHNIQUE = 'abstract interpretation over literal descriptor shapes with symbolic paths, images and load arguments'
NOTE = ('LoadImageData is evaluated abstractly on descriptor dictionaries of one to three exposures, two to three points and '
        'two to four images per series; file names, the base path, the load arguments and all pixels are symbols.  For every '
        'kind, exposure and photon count the stored entry must denote the reduction of exactly that series, and every '
        'image must have been read once from base/name with the configured arguments.')
MIN = 60
SHAPES = [
    {'temporal': {10.0: {0.0: 2, 5.0: 2}}, 'spatial': {50.0: {7.0: 4, 0.0: 3}}},
    {'temporal': {20.0: {4.0: 2, 0.0: 2}, 10.0: {0.0: 2, 2.0: 2, 8.53125: 2}, 30.4375: {3.0: 2, 0.0: 2}},
     'spatial': {50.0: {0.0: 4, 7.00390625: 5}}},
    # a spatial point at an exposure and photon count of the temporal series
    {'temporal': {10.0: {5.0: 2, 0.0: 2}, 20.0: {0.0: 2, 5.0: 2}}, 'spatial': {10.0: {0.0: 3, 5.0: 3}}},
]
KEYS = {'temporal': ('sum', 'pvar', 'dmean'), 'spatial': ('sum', 'pvar', 'L')}


def run(ck):
    w = ck.where(LD)
    for n, shape in enumerate(SHAPES):
        def go():
            ld = Loader(ck, shape)
            val = okval(ld.out.value)
            if val is None:
                ck.add('data set %d loads' % n, VIOLATED, w, 'raises %s' % show(ld.out.value), 'a complete data set is loaded')
                return
            bad = raisecond(ld.out.value)
            ck.rule('data set %d loads' % n, bad is FALSE, w, 'raises when %s' % show(bad), 'a complete data set is loaded')
            want = []
            for kind, ts in shape.items():
                sub = dget(val, const(kind))
                ck.equal('%d: exposures of %s' % (n, kind), lib.fsorted(keys(sub)),
                         mk('lit', *[const(t) for t in sorted(ts)]), w, 'exactly the exposures of the descriptor')
                for t, ps in ts.items():
                    s2 = dget(sub, const(t))
                    ck.equal('%d: photon counts of %s %s' % (n, kind, t), lib.fsorted(keys(s2)),
                             mk('lit', *[const(p) for p in sorted(ps)]), w, 'exactly the photon counts of the descriptor')
                    for p, k in ps.items():
                        names = [fname(kind, t, p, i) for i in range(k)]
                        want += names
                        ref = reduction(ck, names, kind)
                        got = dget(s2, const(p))
                        for key in KEYS[kind]:
                            ck.equal("%d: data['%s'][%s][%s]['%s']" % (n, kind, t, p, key), dget(got, const(key)),
                                     dget(ref, const(key)), w, 'every series is reduced under its own key')
                        if kind == 'temporal' and p == 0.0 and n == 0:
                            r = Run(ck.world)
                            ck.ctl_equal('pixel mean of the pseudo-variance', dget(got, const('pvar')), dget(spec_call(
                                ck, r, 'wrong_series_temporal', [r.list([image(f) for f in names])]).value, const('pvar')))
            ck.equal("%d: data['height']" % n, dget(val, const('height')), H_, w, 'the common image height')
            ck.equal("%d: data['width']" % n, dget(val, const('width')), W_, w, 'the common image width')
            for f in want:
                cs = [c for c in ld.calls if c[0].op == 'pathjoin' and c[0].args[-1] is f or c[0] is f]
                d = ''
                if len(cs) != 1:
                    d = 'read %d times' % len(cs)
                elif cs[0][0] is not lib.pathjoin(BASE, f):
                    d = 'read from %s' % show(cs[0][0])
                elif cs[0][1] != [anysym('a1'), anysym('a2')] or cs[0][2] != {'k1': anysym('v1')}:
                    d = 'read with %s %s' % ([show(x) for x in cs[0][1]], {k: show(v) for k, v in cs[0][2].items()})
                ck.rule('%d: reading %s' % (n, show(f)), not d, w, d,
                        'every image is read once from the base path with the configured function and arguments')
            no_mutation(ck, '%d: descriptor dictionary unmodified' % n, ld.out, w)
        ck.guard('data set %d' % n, go, w)

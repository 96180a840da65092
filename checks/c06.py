"""Temporal data"""
from .data_common import *

TECHNIQUE = ('abstract interpretation to value terms with loop summaries over symbolic dictionaries; '
             'the same comparison written out for literal dictionary shapes')
NOTE = ('Data1288 is evaluated abstractly over a dictionary with an unknown number of exposures and photon counts, and '
        'additionally over literal dictionaries (one to three exposures, several insertion orders, numeric keys whose '
        'text order differs from their numeric order) whose sums and variances are symbols.')
MIN = 50
SHAPES = [{10.0: [0.0, 5.0]}, {10.0: [100.0, 0.0, 20.0]}, {10.0: [7.0, 30.0, 4.0, 0.0]},
          {200.0: [0.0, 100.0, 20.0], 30.0: [20.0, 0.0]}, {30.0: [0.0, 9.0], 200.0: [10.0, 0.0, 9.0]},
          {100.0: [0.0, 2.0], 20.0: [3.0, 0.0, 1.0], 3.0: [8.0, 11.0, 0.0]},
          # many points, fractions, large and tiny counts, a thousandfold exposure range
          {2500000.5: [0.0, 0.25, 3.5, 99999.75, 2000000.5], 0.5: [1e-3, 0.0], 1e9: [3e9, 7.125, 0.0, 1e6, 20.5, 1e6 + 0.5, 40.0],
           40.0: [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0]},
          {33.25: [5000000.75, 0.0, 4.5, 1.0, 12.0, 90.0]}]


def run(ck):
    w = member_where(ck.world, D, '_get_temporal')
    rule = 'sorted traversal, one dark entry per exposure, mean and variance formulas'

    def one(tag, temporal, kw, pix):
        r = Run(ck.world)
        d = data(r, temporal, GOOD_S)
        got = build(ck, r, d, kw)
        t = temporal if isinstance(temporal, Node) else nested(r, lit(temporal))
        want = spec_call(ck, r, 's_temporal', [t, pix])
        g, v = okval(got.value), okval(want.value)
        if g is None:
            ck.add('temporal data%s' % tag, VIOLATED, w, 'every run raises %s' % exc_names(got.value), rule)
            return
        gt = lift(lambda x: dget(x, const('temporal')), g)
        for k in TKEYS:
            ck.equal("temporal['%s']%s" % (k, tag), lift(lambda x: dget(x, const(k)), gt),
                     lift(lambda x: dget(x, const(k)), v), w, rule)
        no_mutation(ck, 'input left unmodified%s' % tag, got, w)
        if tag == '':
            bad = spec_call(ck, r, 'wrong_temporal', [t, pix])
            ck.ctl_equal('unsorted photon counts', lift(lambda x: dget(x, const('u_p')), gt),
                         lift(lambda x: dget(x, const('u_p')), okval(bad.value)))
    full = mul(H_, W_)
    start = len(ck.obl)
    ck.guard('temporal data', lambda: one('', sym_temporal(), {}, full), w)
    ck.guard('temporal data (pixels given)', lambda: one(' (pixels given)', sym_temporal(), {'pixels': intsym('pixels')},
                                                         intsym('pixels')), w)
    generic = len(ck.obl)
    for n, s in enumerate(SHAPES):
        ck.guard('temporal data %s' % s, lambda: one(' %s' % s, s, {}, full), w)
    if all(o['verdict'] in (PROVED, BOUNDED) for o in ck.obl[generic:]):
        # the same numbers and operations in another arrangement, equal on every dictionary written out above
        ck.pending(start, generic, 'equal on every dictionary written out; ')

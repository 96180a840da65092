"""Spatial data"""
from .data_common import *

TECHNIQUE = 'abstract interpretation to value terms, algebraic normal form of sums, means and variances; effect analysis'
NOTE = ('Data1288 is evaluated abstractly over literal spatial dictionaries (both insertion orders, several keys, with and '
        'without a given pixel count) whose images have symbolic content and symbolic size; every entry of the bright and '
        'of the dark stack is compared with its defining expression.')
MIN = 70
SHAPES = [({50.0: [0.0, 7.0]}, 50.0, 7.0), ({3.5: [12.25, 0.0]}, 3.5, 12.25)]


def run(ck):
    w = member_where(ck.world, D, '_get_spatial_data')
    rule = 'stack statistics of the averaged image; dark entries and only they carry _dark'

    def one(shape, texp, up, kw, tag):
        r = Run(ck.world)
        d = data(r, GOOD_T, shape)
        got = build(ck, r, d, kw)
        g = okval(got.value)
        if g is None:
            ck.add('spatial data%s' % tag, VIOLATED, w, 'every run raises %s' % exc_names(got.value), rule)
            return
        g = lift(lambda x: dget(x, const('spatial')), g)
        sp = lambda k: lift(lambda x: dget(x, const(k)), g)
        for p, post in ((up, ''), (0.0, '_dark')):
            pt = r.dict(lit_point('<%s,%s>' % (texp, p), True))
            want = spec_call(ck, r, 's_stack', [pt, H_, W_]).value
            for k in SKEYS:
                ck.equal("spatial['%s%s']%s" % (k, post, tag), sp(k + post), dget(want, const(k)), w, rule)
            if not post and not tag:
                bad = spec_call(ck, r, 'wrong_stack', [pt, H_, W_]).value
                for k in ('avg_var_cav', 'var_mean'):
                    ck.ctl_equal('wrong ' + k, sp(k), dget(bad, const(k)))
        ck.equal("spatial['texp']%s" % tag, sp('texp'), const(texp), w, rule)
        ck.equal("spatial['u_p']%s" % tag, sp('u_p'), const(up), w, rule)
        no_mutation(ck, 'input left unmodified%s' % tag, got, w)
    for s, t, u in SHAPES:
        for kw, tag in (({}, ''), ({'pixels': intsym('pixels')}, ' (pixels given)')):
            tg = tag + (' %s' % s if s is not SHAPES[0][0] else '')
            ck.guard('spatial data' + tg, lambda: one(s, t, u, kw, tg), w)

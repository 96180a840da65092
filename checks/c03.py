"""Image reduction"""
from .common import *

TECHNIQUE = 'abstract interpretation to value terms (loop summaries), algebraic normal form; effect analysis for mutation'
NOTE = ('get_int_imgs is evaluated abstractly over a list of symbolic length L of symbolic integer images of unknown '
        'pixel type; conversions stay in the terms, so arithmetic done before the conversion to int64 differs from the '
        'reference.  Writes are tracked through aliases to the images passed in.')
MIN = 5
Q = 'emva1288.process.routines.get_int_imgs'
KEYS = ('L', 'sum', 'pvar', 'dmean')


def setup(ck):
    r = Run(ck.world)
    imgs = arrsym('imgs', intsym('L'), intsym('height'), intsym('width'), integer=True)
    return r, imgs


def run(ck):
    w = ck.where(Q)

    def go():
        r, imgs = setup(ck)
        got = r.call(Q, [imgs])
        want = spec_call(ck, r, 's_get_int_imgs', [imgs])
        for k in KEYS:
            ck.equal("get_int_imgs()['%s']" % k, cond_value(got, k), cond_value(want, k), w,
                     'every entry denotes its definition over int64 pixels')
        no_mutation(ck, 'get_int_imgs leaves the images unmodified', got, w)
        ck.ctl_equal('pseudo-variance without the factor L', cond_value(got, 'pvar'),
                     spec_call(ck, r, 'wrong_get_int_imgs', [imgs]).value)
    ck.guard('get_int_imgs', go, w)

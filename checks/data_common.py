"""Symbolic reduced measurement data (what LoadImageData produces)."""
import itertools
from .common import *

D = 'emva1288.process.data.Data1288'
H_, W_ = intsym('height'), intsym('width')
NUM = ('num', 0, None, False)
INT = ('num', 0, None, True)
IMG = ('num', 2, (H_, W_), True)
PT = ('rec', {'sum': INT, 'pvar': INT, 'dmean': NUM})
SP = ('rec', {'sum': IMG, 'pvar': IMG, 'L': INT, 'dmean': NUM})
TKEYS = ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark')
SKEYS = ('sum', 'L', 'M', 'N', 'avg_mean', 'avg_var', 'var_mean', 'avg_var_cav', 'avg_var_rav')


def sym_temporal():
    return symdata('temporal', ('map', NUM, ('map', NUM, PT)))


def sym_spatial():
    return symdata('spatial', ('map', NUM, ('map', NUM, SP)))


def lit_point(tag, spatial=False):
    if spatial:
        return {'sum': arrsym('sum' + tag, H_, W_, integer=True), 'pvar': arrsym('pvar' + tag, H_, W_, integer=True),
                'L': intsym('L' + tag), 'dmean': numsym('dmean' + tag)}
    return {'sum': sym('sum' + tag, 0, (), True, 'num'), 'pvar': sym('pvar' + tag, 0, (), True, 'num'),
            'dmean': numsym('dmean' + tag)}


def lit(shape, spatial=False):
    """{exposure: [photons...]} -> nested dict"""
    return {t: {p: lit_point('<%s,%s>' % (t, p), spatial) for p in ps} for t, ps in shape.items()}


GOOD_S = {50.0: [0.0, 7.0]}
GOOD_T = {10.0: [0.0, 5.0]}


def data(r, temporal, spatial):
    f = lambda x, s: x if isinstance(x, (Node, V)) else nested(r, lit(x, s))
    return r.dict({'temporal': f(temporal, False), 'spatial': f(spatial, True), 'width': W_, 'height': H_})


def build(ck, r, d, kw=None):
    """Data1288(d).data"""
    c = ck.world.get(D)
    if not isinstance(c, Cls):
        raise Vanished(D)

    def go(s, cx):
        o = r.ip.construct(c, [d], {k: V(x) for k, x in (kw or {}).items()}, s, cx, None)
        return r.ip.getattr(o, 'data', s, cx, None)
    return r.outcome(go)

"""The loader under a stand-in load function: every image is a symbol named after its path."""
import itertools
from .common import *

LD = 'emva1288.process.loader.LoadImageData'
H_, W_ = intsym('height'), intsym('width')
H2, W2 = intsym('other_height'), intsym('other_width')
BASE = strsym('base')


def fname(kind, t, p, k):
    return strsym('%s<%s,%s>#%d' % (kind[0], t, p, k))


def image(f, shape=None):
    h, w = shape or (H_, W_)
    return arrsym('image[%s]' % f.args[0], h, w, integer=True)


def images(r, shape):
    """{'temporal': {exposure: {photons: number of images}}} -> heap dictionary"""
    return nested(r, {kind: {t: {p: V(r.list([fname(kind, t, p, k) for k in range(n)]).t) for p, n in ps.items()}
                             for t, ps in ts.items()} for kind, ts in shape.items()})


class Loader:
    """load(shape): abstract execution of LoadImageData on that descriptor dictionary"""

    def __init__(self, ck, shape, missing=None, odd=None, oddshape=None, size=None):
        self.size = size
        self.calls = []
        self.r = Run(ck.world, override={'specs.load': self.load, 'ext:isfile': self.isfile})
        self.missing, self.odd, self.oddshape = missing, odd, oddshape
        c = ck.world.get(LD)
        if not isinstance(c, Cls):
            raise Vanished(LD)
        r = self.r
        f = ck.spec('load')
        im = images(r, shape)

        def go(s, cx):
            kw = {'path': V(BASE), 'fload': r.ip.wrap(f, s, cx, None),
                  'fload_args': s.new(H('list', items=[V(anysym('a1')), V(anysym('a2'))])),
                  'fload_kwargs': s.new(H('dict', items={const('k1'): V(anysym('v1'))}))}
            o = r.ip.construct(c, [im], kw, s, cx, None)
            return r.ip.getattr(o, 'data', s, cx, None)
        self.out = r.outcome(go)

    def isfile(self, how, p):
        if self.missing is not None and p.op == 'pathjoin' and p.args[-1] is self.missing:
            return FALSE
        return TRUE

    def load(self, ip, args, kw, st, cx, node):
        a = [ip.freeze(x.t, st) for x in args]
        k = {n: ip.freeze(x.t, st) for n, x in kw.items()}
        p = a[0] if a else NONE
        self.calls.append((p, a[1:], k))
        f = p.args[-1] if p.op == 'pathjoin' else p
        if f.op != 'sym':
            return V(mk('app', mk('ext', 'load'), tuple(a), tuple(k.items())))
        return image(f, self.oddshape if f is self.odd or isinstance(self.odd, list) and f in self.odd else self.size)


def reduction(ck, names, kind):
    r = Run(ck.world)
    l = r.list([image(f) for f in names])
    return spec_call(ck, r, 's_series_' + kind, [l]).value

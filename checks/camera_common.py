"""A symbolic camera, built through its own constructor."""
from .common import *

CAM = 'emva1288.camera.camera.Camera'
CR = 'emva1288.camera.routines.'
H_, W_, NW = intsym('height'), intsym('width'), intsym('wavelengths')
POS = ('f_number', 'pixel_area', 'exposure', 'exposure_min', 'exposure_max', 'K_min', 'K_max', 'blackoffset_max',
       'temperature_doubling', 'u_esat', 'dark_current_ref', 'sigma2_dark_0')
NUMS = ('temperature', 'temperature_ref', 'K', 'blackoffset', 'blackoffset_min', 'dark_signal_0')
INTS = ('bit_depth', 'K_steps', 'blackoffset_steps')


def params(omit=()):
    p = {k: numsym(k, pos=True) for k in POS}
    p.update({k: numsym(k) for k in NUMS})
    p.update({k: intsym(k) for k in INTS})
    p.update(width=W_, height=H_, seed=anysym('seed'))
    p['dsnu'] = arrsym('dsnu', H_, W_)
    p['prnu'] = arrsym('prnu', H_, W_)
    return {k: v for k, v in p.items() if k not in omit}


class Cam:
    """camera = Camera(**params) in r.st"""

    def __init__(self, ck, omit=(), given=None, qe=True, boundary=(), override=None):
        self.ck = ck
        self.r = r = Run(ck.world, boundary=boundary, override=override)
        c = ck.world.get(CAM)
        if not isinstance(c, Cls):
            raise Vanished(CAM)
        self.p = params(omit)
        self.p.update(given or {})
        self.q = arrsym('qe', H_, W_, NW)
        self.w = arrsym('w', NW)
        if qe:
            def mk_(s, cx):
                return r.ip.construct(ck.world.get(CR + 'Qe'), [], {'qe': self.q, 'wavelength': self.w, 'width': V(W_),
                                                                    'height': V(H_)}, s, cx, None)
            o = r.outcome(mk_, st=r.st)
            self.qe = o.v
            self.p['qe'] = self.qe
        kw = {k: (v if isinstance(v, V) else V(v)) for k, v in self.p.items()}
        self.out = r.outcome(lambda s, cx: r.ip.construct(c, [], kw, s, cx, None), st=r.st)
        self.cam = self.out.v

    def get(self, name, st=None):
        return self.r.attr(self.cam, name, st=st)

    def call(self, name, *args, st=None, **kw):
        return self.r.attr(self.cam, name, True, st=st, args=args, kw=kw)

    def spec(self, name, *args, st=None, **kw):
        """specification function on the same camera and its symbolic parameters"""
        return spec_call(self.ck, self.r, name, [self.cam] + list(args), kw, st=st)

    def set(self, name, v, st):
        """cam.name = v in st"""
        def go(s, cx):
            self.r.ip.setattr(self.cam, name, v if isinstance(v, V) else V(v), s, cx, None)
            return V(NONE)
        return self.r.outcome(go, st=st)

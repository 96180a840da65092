"""Signal chain of the simulated camera"""
from .camera_common import *

TECHNIQUE = ('abstract interpretation to value terms (every random draw an uninterpreted array named by generator, distribution, '
             'parameters and size), compared with the signal chain in algebraic normal form')
NOTE = ('Camera.grab is evaluated abstractly on a camera built by its own constructor from symbolic parameters; the image term '
        'must equal the signal chain, whose last steps are rounding and clipping to [0, 2^bit_depth-1]; the pixel type is '
        'checked to hold that maximum for every bit depth from 1 to 32, with and without temperature and f-number arguments.')
MIN = 30
CAP = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'int16': 15, 'int32': 31, 'int64': 63, 'int8': 7}


def strip(t):
    """(value without pixel type, list of pixel types)"""
    ts = set()

    def go(x):
        if x.op == 'ite':
            return ite(batom(x.args[0]), go(x.args[1]), go(x.args[2]))
        if x.op == 'cast':
            ts.add(x.args[1])
            return x.args[0]
        ts.add(None)
        return x
    return go(t), ts


def chain(ck, c, name, radiance, temperature, f_number, img_max, st=None, **kw):
    p = dict(c.p)
    p.update(kw)
    K = c.get('K', st=st).value
    b = c.get('blackoffset', st=st).value
    return spec_call(ck, c.r, name, [V(mk('rng', p['seed'])), radiance, temperature, f_number, p['exposure'], K, b, img_max,
                                     c.q, c.w, p['pixel_area'], p['temperature_ref'], p['temperature_doubling'],
                                     p['dark_current_ref'], p['dark_signal_0'], p['sigma2_dark_0'], p['u_esat'],
                                     p['dsnu'], p['prnu'], H_, W_]).value


def run(ck):
    w = ck.where(CAM + '.grab')
    T, F_ = numsym('given temperature'), numsym('given f_number', True)
    full = sub(fpow(num(2), intsym('bit_depth')), ONE)

    def grab(te, tf, scalar=False):
        c = Cam(ck)
        L = numsym('L') if scalar else arrsym('L', H_, W_, NW)
        kw = {}
        if te:
            kw['temperature'] = T
        if tf:
            kw['f_number'] = F_
        got = c.call('grab', L, **kw)
        v, ts = strip(got.value)
        want = chain(ck, c, 's_grab', L, T if te else c.p['temperature'], F_ if tf else c.p['f_number'], full)
        tag = 'temperature %s, f-number %s%s' % ('given' if te else 'of the environment',
                                                  'given' if tf else 'of the environment', ', scalar radiance' if scalar else '')
        ck.equal('grab, %s' % tag, v, want, w, 'the signal chain, rounded and clipped')
        sh = shape(want)
        ck.rule('grab gives an image of the camera size, %s' % tag, shape(v) == (H_, W_) if sh == (H_, W_) else None, w,
                'the shape is %s' % (shape(v),), 'height by width')
        if not te and not tf and not scalar:
            ck.ctl_equal('clipped before rounding', v, chain(ck, c, 'wrong_grab', L, c.p['temperature'], c.p['f_number'], full))
    for te in (0, 1):
        for tf in (0, 1):
            ck.guard('grab', lambda: grab(te, tf), w)
    ck.guard('grab scalar', lambda: grab(0, 0, True), w)

    def later():
        """current settings"""
        c = Cam(ck)
        L = arrsym('L', H_, W_, NW)
        st = c.r.st
        c.set('exposure', numsym('later exposure', True), st)
        c.set('K', numsym('later K'), st)
        c.set('blackoffset', numsym('later offset'), st)
        ds = arrsym('later dsnu', H_, W_)
        c.set('DSNU', ds, st)
        got = c.call('grab', L)
        v, ts = strip(got.value)
        ck.equal('grab after settings changed', v, chain(ck, c, 's_grab', L, c.p['temperature'], c.p['f_number'], full,
                                                         exposure=numsym('later exposure', True), dsnu=ds), w,
                 'the current exposure, gain, offset and DSNU')
    ck.guard('grab later', later, w)

    def environment():
        c = Cam(ck)
        L = arrsym('L', H_, W_, NW)
        st = c.r.st

        def put(s, cx):
            e = c.r.ip.getattr(c.cam, 'environment', s, cx, None)
            c.r.ip.store_sub(e, V(const('temperature')), V(numsym('later temperature')), s, cx, None)
            c.r.ip.store_sub(e, V(const('f_number')), V(numsym('later f', True)), s, cx, None)
            return V(NONE)
        c.r.outcome(put, st=st)
        got = c.call('grab', L)
        v, ts = strip(got.value)
        ck.equal('grab after the environment changed', v,
                 chain(ck, c, 's_grab', L, numsym('later temperature'), numsym('later f', True), full), w,
                 'the environment at the time of the grab')
    ck.guard('grab environment', environment, w)

    def defaults():
        c = Cam(ck, omit=('dsnu', 'prnu'))
        L = arrsym('L', H_, W_, NW)
        got = c.call('grab', L)
        v, ts = strip(got.value)
        ck.equal('grab without DSNU and PRNU', v,
                 chain(ck, c, 's_grab', L, c.p['temperature'], c.p['f_number'], full, dsnu=ZERO, prnu=ONE), w,
                 'no DSNU and PRNU: zero offset, factor one')
    ck.guard('grab defaults', defaults, w)

    def types():
        wi = ck.where(CAM + '.__init__')
        for bd in range(1, 33):
            c = Cam(ck, given={'bit_depth': num(bd)})
            got = c.call('grab', arrsym('L', H_, W_, NW))
            v, ts = strip(got.value)
            bad = [t for t in ts if CAP.get(t, 99 if t is None else 0) < bd]
            ck.rule('pixel type for %d bits' % bd, None if None in ts or not ts else not bad, wi, 'a pixel has type %s'
                    % ', '.join(map(str, ts)), 'an integer type that holds 2^%d-1' % bd)
            if bd in (1, 8, 12):
                ck.equal('grab with %d bits' % bd, v, chain(ck, c, 's_grab', arrsym('L', H_, W_, NW), c.p['temperature'],
                                                            c.p['f_number'], num(2 ** bd - 1)), w, 'clipped to 2^%d-1' % bd)
    ck.guard('pixel types', types, w)

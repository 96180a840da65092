"""Photon count and radiance conversions"""
from .camera_common import *

TECHNIQUE = 'abstract interpretation to value terms, compared with the defining formulas in algebraic normal form'
NOTE = ('get_photons, get_radiance, Camera.get_photons and Camera.get_radiance_for are evaluated abstractly with every parameter '
        'symbolic (real-number algebra) and compared with the formulas; the inverse is proved by composing both functions.')
MIN = 20


def run(ck):
    wp, wr = ck.where(CR + 'get_photons'), ck.where(CR + 'get_radiance')
    t, a, f = numsym('t', True), numsym('a', True), numsym('f', True)

    def conv(tag, mk_):
        r = Run(ck.world)
        L, w = mk_()
        kw = {'exposure': t, 'radiance': L, 'pixel_area': a, 'wavelength': w, 'f_number': f}
        got = r.call(CR + 'get_photons', [], kw)
        ck.equal('get_photons, %s' % tag, got.value, spec_call(ck, r, 's_photons', [], kw).value, wp,
                 'pi L A t w^2 / (h c (1 + (2f)^2)) in SI units')
        ck.ctl_equal('%s with f instead of 2f' % tag, got.value, spec_call(ck, r, 'wrong_photons', [], kw).value)
        kr = {'exposure': t, 'photons': L, 'pixel_area': a, 'wavelength': w, 'f_number': f}
        rad = r.call(CR + 'get_radiance', [], kr)
        ck.equal('get_radiance, %s' % tag, rad.value, spec_call(ck, r, 's_radiance', [], kr).value, wr,
                 'the inverse formula')

        def comp(first, second, k1, k2):
            def go(s, cx):
                fn = lambda n: r.ip.wrap(ck.world.get(CR + n), s, cx, None)
                x = r.ip.call(fn(first), [], {k: (v if isinstance(v, V) else V(v)) for k, v in
                                              {'exposure': t, k1: L, 'pixel_area': a, 'wavelength': w, 'f_number': f}.items()},
                              s, cx, None)
                return r.ip.call(fn(second), [], {k: (v if isinstance(v, V) else V(v)) for k, v in
                                                  {'exposure': t, k2: x, 'pixel_area': a, 'wavelength': w,
                                                   'f_number': f}.items()}, s, cx, None)
            return r.outcome(go)
        Lt = L.t if isinstance(L, V) else L
        x = comp('get_photons', 'get_radiance', 'radiance', 'photons')
        ck.equal('radiance -> photons -> radiance, %s' % tag, x.value, Lt, wr, 'identity')
        x = comp('get_radiance', 'get_photons', 'photons', 'radiance')
        ck.equal('photons -> radiance -> photons, %s' % tag, x.value, Lt, wr, 'identity')
        no_mutation(ck, 'get_photons leaves its arguments unchanged, %s' % tag, got, wp)
        no_mutation(ck, 'get_radiance leaves its arguments unchanged, %s' % tag, rad, wr)
    ck.guard('scalars', lambda: conv('scalars', lambda: (numsym('L'), numsym('w', True))), wp)
    ck.guard('arrays', lambda: conv('image by wavelengths', lambda: (arrsym('L', H_, W_, NW), arrsym('w', NW))), wp)

    wcp, wcr = ck.where(CAM + '.get_photons'), ck.where(CAM + '.get_radiance_for')

    def cam_photons(te, tf):
        c = Cam(ck)
        L = arrsym('L', H_, W_, NW)
        kw = {}
        if te:
            kw['exposure'] = t
        if tf:
            kw['f_number'] = f
        got = c.call('get_photons', L, **kw)
        want = spec_call(ck, c.r, 's_photons', [], {'exposure': t if te else c.p['exposure'], 'radiance': L,
                                                    'pixel_area': c.p['pixel_area'], 'wavelength': c.w,
                                                    'f_number': f if tf else c.p['f_number']})
        ck.equal('Camera.get_photons exposure %s, f-number %s' % ('given' if te else 'default', 'given' if tf else 'default'),
                 got.value, want.value, wcp, "the camera's pixel area and wavelengths; current exposure and f-number by default")
    for te in (0, 1):
        for tf in (0, 1):
            ck.guard('Camera.get_photons', lambda: cam_photons(te, tf), wcp)

    def cam_zero():
        c = Cam(ck)
        L = arrsym('L', H_, W_, NW)
        got = c.call('get_photons', L, exposure=ZERO)
        ck.equal('Camera.get_photons at exposure 0', got.value, mul(L.t, ZERO), wcp, 'no time, no photons')
    ck.guard('Camera.get_photons 0', cam_zero, wcp)

    def cam_later():
        """the current settings, not those at construction"""
        c = Cam(ck)
        L = arrsym('L', H_, W_, NW)
        st = c.r.st.copy()
        c.set('exposure', numsym('later exposure', True), st)
        got = c.call('get_photons', L, st=st)
        want = spec_call(ck, c.r, 's_photons', [], {'exposure': numsym('later exposure', True), 'radiance': L,
                                                    'pixel_area': c.p['pixel_area'], 'wavelength': c.w,
                                                    'f_number': c.p['f_number']})
        ck.equal('Camera.get_photons after a change of exposure', got.value, want.value, wcp, 'the current exposure')
        st = c.r.st.copy()
        c.set('exposure', numsym('later exposure', True), st)
        c.set('K', numsym('later K'), st)
        K = c.get('K', st=st)
        got = c.call('get_radiance_for', numsym('target', True), st=st)
        want = spec_call(ck, c.r, 's_radiance_for', [numsym('target', True), numsym('later exposure', True), K.value, c.q, c.w,
                                                     c.p['pixel_area'], c.p['f_number'], c.p['temperature'],
                                                     c.p['temperature_ref'], c.p['temperature_doubling'],
                                                     c.p['dark_current_ref'], H_, W_])
        ck.equal('Camera.get_radiance_for after a change of exposure and gain', got.value, want.value, wcr,
                 'the current exposure and gain')
    ck.guard('Camera later', cam_later, wcp)

    def cam_radiance(tm, te):
        c = Cam(ck)
        kw = {}
        if tm:
            kw['mean'] = numsym('target', True)
        if te:
            kw['exposure'] = t
        got = c.call('get_radiance_for', **kw)
        mean = kw.get('mean') or sub(fpow(num(2), c.p['bit_depth']), ONE)
        want = spec_call(ck, c.r, 's_radiance_for', [mean, t if te else c.p['exposure'], c.get('K').value, c.q, c.w,
                                                     c.p['pixel_area'], c.p['f_number'], c.p['temperature'],
                                                     c.p['temperature_ref'], c.p['temperature_doubling'],
                                                     c.p['dark_current_ref'], H_, W_])
        ck.equal('Camera.get_radiance_for target %s, exposure %s'
                 % ('given' if tm else 'default', 'given' if te else 'default'), got.value, want.value, wcr,
                 'radiance whose photons give (target/K - thermal electrons)/n per wavelength at the mean efficiency')
        if tm and te:
            # back to photons: the same numbers of electrons
            x = c.r.outcome(lambda s, cx: c.r.ip.call(c.r.ip.getattr(c.cam, 'get_photons', s, cx, None), [got_v(c, s, cx, kw)],
                                                      {'exposure': V(t)}, s, cx, None))
            ck.equal('photons of the radiance for a target', x.value,
                     spec_call(ck, c.r, 's_photons_for', [kw['mean'], t, c.get('K').value, c.q, c.w, c.p['temperature'],
                                                          c.p['temperature_ref'], c.p['temperature_doubling'],
                                                          c.p['dark_current_ref'], H_, W_]).value, wcr,
                     'they give the target minus the thermal electrons')
    def got_v(c, s, cx, kw):
        return c.r.ip.call(c.r.ip.getattr(c.cam, 'get_radiance_for', s, cx, None), [],
                           {k: V(v) for k, v in kw.items()}, s, cx, None)
    for tm in (0, 1):
        for te in (0, 1):
            ck.guard('Camera.get_radiance_for', lambda: cam_radiance(tm, te), wcr)

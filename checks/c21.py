"""Gain and black offset settings"""
from .camera_common import *

TECHNIQUE = ('abstract interpretation to value terms: settings after construction, assignment and every other operation compared '
             'with the nearest grid value; the searches unrolled over literal grids with uninterpreted images')
NOTE = ('Camera.__init__, the K and blackoffset setters and nearest_value are evaluated abstractly with symbolic limits and step '
        'counts; every other public operation must leave both settings as they were.  The gain and black-offset searches are '
        'evaluated over grids of 1 to 4 values with one uninterpreted image per grab.')
MIN = 30
DG = 'emva1288.camera.dataset_generator.'
NOTHING = anysym('_')


def run(ck):
    w = ck.where(CR + 'nearest_value')
    wi = ck.where(CAM + '.__init__')

    def near():
        r = Run(ck.world)
        g, v = arrsym('grid', intsym('n')), numsym('value')
        got = r.call(CR + 'nearest_value', [v, g])
        ck.equal('nearest_value', got.value, spec_call(ck, r, 's_nearest', [v, g]).value, w, 'the element at least distance')
        no_mutation(ck, 'nearest_value leaves the values unchanged', got, w)
    ck.guard('nearest_value', near, w)

    def want(c, attr, v):
        lo, hi, n = (c.p['K_min'], c.p['K_max'], c.p['K_steps']) if attr == 'K' else (
            c.p['blackoffset_min'], c.p['blackoffset_max'], c.p['blackoffset_steps'])
        return spec_call(ck, c.r, 's_setting', [v, lo, hi, n]).value

    def settings():
        c = Cam(ck)
        for a in ('K', 'blackoffset'):
            ck.equal('%s at construction' % a, c.get(a).value, want(c, a, c.p[a]), wi,
                     'the nearest of the evenly spaced values between the limits')
            v = numsym('requested')
            st = c.r.st.copy()
            o = c.set(a, v, st)
            ck.equal('%s when set' % a, c.get(a, st=st).value, want(c, a, v), ck.where(CAM + '.' + a), 'the nearest value')
            b = 'blackoffset' if a == 'K' else 'K'
            ck.equal('%s when %s is set' % (b, a), c.get(b, st=st).value, want(c, b, c.p[b]), ck.where(CAM + '.' + a),
                     'unaffected')
            v2 = numsym('requested again')
            c.set(a, v2, st)
            ck.equal('%s when set again' % a, c.get(a, st=st).value, want(c, a, v2), ck.where(CAM + '.' + a),
                     'the nearest value, whatever was set before')
            ck.ctl_equal('%s with one more step' % a, c.get(a).value, spec_call(ck, c.r, 'wrong_setting', [
                c.p['K'] if a == 'K' else c.p['blackoffset'], *((c.p['K_min'], c.p['K_max'], c.p['K_steps']) if a == 'K' else (
                    c.p['blackoffset_min'], c.p['blackoffset_max'], c.p['blackoffset_steps']))]).value)
        for a, (lo, hi, n) in (('Ks', ('K_min', 'K_max', 'K_steps')),
                               ('blackoffsets', ('blackoffset_min', 'blackoffset_max', 'blackoffset_steps'))):
            got = c.get(a).value
            r = Run(ck.world)
            x = r.outcome(lambda s, cx: r.ip.call(V(mk('ext', 'numpy.linspace')), [V(c.p[lo]), V(c.p[hi]), V(c.p[n])], {}, s, cx,
                                                  None))
            ck.equal('%s' % a, got, x.value, wi, 'evenly spaced values between the limits')
    ck.guard('settings', settings, wi)

    def default_offset():
        c = Cam(ck, omit=('blackoffset_max',))
        hi = fdiv16(sub(fpow(num(2), intsym('bit_depth')), ONE))
        ck.equal('blackoffset without a maximum', c.get('blackoffset').value,
                 spec_call(ck, c.r, 's_setting', [c.p['blackoffset'], c.p['blackoffset_min'], hi, c.p['blackoffset_steps']]).value,
                 wi, 'up to a sixteenth of the range by default')

    def fdiv16(x):
        from vf.lib import arith
        return arith('//', x, num(16))
    ck.guard('default offset', default_offset, wi)

    def others():
        L = arrsym('L', H_, W_, NW)

        def check(tag, where, fn):
            c = Cam(ck)
            before = {a: c.get(a).value for a in ('K', 'blackoffset')}
            st = c.r.st.copy()
            fn(c, st)
            for a in before:
                ck.equal('%s after %s' % (a, tag), c.get(a, st=st).value, before[a], where, 'not changed by anything else')
        t = numsym('t', True)
        check('grab', ck.where(CAM + '.grab'), lambda c, st: c.call('grab', L, st=st))
        check('grab with arguments', ck.where(CAM + '.grab'),
              lambda c, st: c.call('grab', L, st=st, temperature=numsym('T'), f_number=numsym('f', True)))
        check('get_photons', ck.where(CAM + '.get_photons'), lambda c, st: c.call('get_photons', L, st=st, exposure=t))
        check('get_radiance_for', ck.where(CAM + '.get_radiance_for'),
              lambda c, st: c.call('get_radiance_for', st=st, mean=numsym('m', True), exposure=t))
        check('setting the exposure', ck.where(CAM + '.exposure'), lambda c, st: c.set('exposure', t, st))
        check('setting the DSNU', ck.where(CAM + '.DSNU'), lambda c, st: c.set('DSNU', arrsym('d', H_, W_), st))
        check('bad pixels', ck.where('emva1288.camera.bad_images.bad_pixel'),
              lambda c, st: c.r.call('emva1288.camera.bad_images.bad_pixel', [c.cam, intsym('count')], st=st))
        check('points', ck.where('emva1288.camera.points_generator.PointsGenerator.__init__'),
              lambda c, st: c.r.call('emva1288.camera.points_generator.PointsGenerator', [c.cam], st=st))
    ck.guard('others', others, wi)

    def search(fn, attr, spec, lits=None):
        wf = ck.where(DG + fn)
        c = Cam(ck, given=lits)
        n = ' over %s values' % show(list(lits.values())[2]) if lits else ''
        st = c.r.st.copy()
        got = c.r.call(DG + fn, [c.cam], st=st)
        want = spec_call(ck, c.r, spec, [c.cam], st=c.r.st.copy())
        ck.equal(fn + n, got.value, want.value, wf, 'the first setting meeting the criterion, else the last')
        o = 'blackoffset' if attr == 'K' else 'K'
        ck.equal(fn + n + ' restores the setting', c.get(attr, st=st).value, c.get(attr).value, wf,
                 'the setting before the search')
        ck.equal(fn + n + ' leaves the other setting', c.get(o, st=st).value, c.get(o).value, wf, 'unaffected')
        if attr != 'K' and not lits:
            ck.ctl_equal('5% zeros', got.value, spec_call(ck, c.r, 'wrong_find_offset', [c.cam]).value)
    for fn, attr, spec in (('_get_emva_gain', 'K', 's_find_gain'),
                           ('_get_emva_blackoffset', 'blackoffset', 's_find_offset')):
        ck.guard(fn, lambda: search(fn, attr, spec), ck.where(DG + fn))
        for n in (1, 2, 3):
            ck.guard(fn, lambda: search(fn, attr, spec, {attr + '_min': num(1), attr + '_max': num(n),
                                                         attr + '_steps': num(n), attr: num(n)}), ck.where(DG + fn))

"""Simulation leaves settings and arrays unchanged"""
from .camera_common import *

TECHNIQUE = ('abstract interpretation with alias tracking: writes that reach an array of the caller, and every public setting, '
             'compared before and after each operation')
NOTE = ('grab, get_photons, get_radiance_for, the conversion functions and the constructors of Camera, Qe, tilings and filters are '
        'evaluated abstractly; no write may reach a caller-owned array, every public attribute must denote the same value '
        'afterwards, and a grab or conversion afterwards the same value as one before.')
MIN = 100
ATTRS = ('bit_depth', 'pixel_area', 'img_max', 'width', 'height', 'exposure', 'exposure_min', 'exposure_max', 'K', 'Ks',
         'blackoffset', 'blackoffsets', 'DSNU', 'environment')


def snapshot(c, st):
    out = {}
    for a in ATTRS:
        out[a] = c.get(a, st=st.copy()).value
    for a in ('qe', 'w'):
        out['qe.' + a] = c.r.outcome(lambda s, cx: c.r.ip.getattr(c.r.ip.getattr(c.cam, 'qe', s, cx, None), a, s, cx, None),
                                     st=st.copy()).value
    L = arrsym('later radiance', H_, W_, NW)

    def op(name, *args, **kw):
        s = st.copy()
        s.occ = dict(c.occ0)
        return c.call(name, *args, st=s, **kw).value
    out['a grab afterwards'] = op('grab', L)
    out['a photon count afterwards'] = op('get_photons', L)
    out['a radiance afterwards'] = op('get_radiance_for')
    return out


def run(ck):
    L, T, F_, t, m = arrsym('L', H_, W_, NW), numsym('given temperature'), numsym('given f_number', True), \
        numsym('given exposure', True), numsym('target', True)
    OPS = [('grab', (L,), {}), ('grab', (L,), {'temperature': T}), ('grab', (L,), {'f_number': F_}),
           ('grab', (L,), {'temperature': T, 'f_number': F_}), ('grab', (ZERO,), {}), ('grab', (numsym('level'),), {}),
           ('get_photons', (L,), {}), ('get_photons', (L,), {'exposure': t}), ('get_photons', (L,), {'f_number': F_}),
           ('get_photons', (L,), {'exposure': t, 'f_number': F_}),
           ('get_radiance_for', (), {}), ('get_radiance_for', (), {'mean': m}), ('get_radiance_for', (), {'exposure': t}),
           ('get_radiance_for', (), {'mean': m, 'exposure': t})]

    def op(k, given):
        name, args, kw = OPS[k]
        where = ck.where(CAM + '.' + name)
        c = Cam(ck, omit=() if given else ('dsnu', 'prnu'))
        c.occ0 = dict(c.r.st.occ)
        before = snapshot(c, c.r.st)
        st = c.r.st.copy()
        o = c.call(name, *args, st=st, **kw)
        tag = '%s(%s)%s' % (name, ', '.join(['radiance' if a is L else show(a) for a in args] + sorted(kw)),
                            '' if given else ' without nonuniformities')
        no_mutation(ck, '%s leaves the given arrays unchanged' % tag, o, where)
        after = snapshot(c, st)
        for a in before:
            ck.equal('%s after %s' % (a, tag), after[a], before[a], where, 'unchanged')
        ck.equal('%s does not fail' % tag, raisecond(o.value), FALSE, where, 'no exception')
        if name == 'grab' and not kw and args[0] is L and given:
            s2 = c.r.st.copy()
            c.set('exposure', t, s2)
            ck.ctl_equal('exposure changed', snapshot(c, s2)['exposure'], before['exposure'])
    for k in range(len(OPS)):
        ck.guard('operation %s' % OPS[k][0], lambda: op(k, True), ck.where(CAM + '.' + OPS[k][0]))
    for k in (0, 3, 7, 12):
        ck.guard('operation %s' % OPS[k][0], lambda: op(k, False), ck.where(CAM + '.' + OPS[k][0]))

    def result_alias():
        """writing into a returned image or photon count does not reach the camera"""
        for name, args in (('grab', (L,)), ('get_photons', (L,)), ('get_radiance_for', ())):
            c = Cam(ck)
            st = c.r.st.copy()
            c.occ0 = dict(c.r.st.occ)
            before = snapshot(c, st)
            o = c.call(name, *args, st=st)

            def put(s, cx):
                c.r.ip.store_sub(o.v, V(mk('tup', ZERO, ZERO)), V(num(77)), s, cx, None)
                return V(NONE)
            c.r.outcome(put, st=st)
            after = snapshot(c, st)
            where = ck.where(CAM + '.' + name)
            for a in ('DSNU', 'qe.qe', 'qe.w', 'a grab afterwards'):
                ck.equal('%s after writing into the result of %s' % (a, name), after[a], before[a], where, 'the result is a copy')
            m = sorted(str(x) for x in st.mut)
            ck.rule('the result of %s is not the caller\'s array' % name, not m, where, 'shares memory with %s' % ', '.join(m),
                    'no alias')
    ck.guard('aliasing', result_alias, ck.where(CAM))

    def build():
        wq = ck.where(CR + 'Qe.__init__')
        q, w, f = arrsym('qe', H_, W_, NW), arrsym('w', NW), arrsym('filter', H_, W_, NW)

        def qe(kw):
            r = Run(ck.world)
            cl = ck.world.get(CR + 'Qe')
            if not isinstance(cl, Cls):
                raise Vanished(CR + 'Qe')
            return r, r.outcome(lambda s, cx: r.ip.construct(cl, [], {k: v if isinstance(v, V) else V(v) for k, v in kw.items()},
                                                             s, cx, None))
        base = {'wavelength': w, 'width': W_, 'height': H_}
        for tag, kw in (('efficiency', dict(base, qe=q)), ('efficiency and filter', dict(base, qe=q, filter=f)),
                        ('filter', dict(base, filter=f)), ('no efficiency', base)):
            r, o = qe(kw)
            no_mutation(ck, 'Qe with %s leaves the arrays unchanged' % tag, o, wq)
        for omit in ((), ('dsnu',), ('prnu',), ('dsnu', 'prnu')):
            c = Cam(ck, omit=omit)
            no_mutation(ck, 'Camera without %s leaves the arrays unchanged' % (omit,), c.out, ck.where(CAM + '.__init__'))
        for fn, args in (('get_tile', [arrsym('pattern', intsym('ph'), intsym('pw')), H_, W_]),
                         ('get_tile', [arrsym('pattern', intsym('pw')), H_, W_]),
                         ('get_tile', [arrsym('pattern', intsym('ph'), intsym('pw')), ONE, W_]),
                         ('array_tile', [arrsym('pattern', intsym('ph'), intsym('pw'), NW), H_, W_]),
                         ('get_bayer_filter', [numsym('a'), numsym('b'), numsym('c'), numsym('d'), W_, H_, w]),
                         ('get_photons', [t, L, numsym('area', True), w, F_]),
                         ('get_radiance', [t, L, numsym('area', True), F_, w]),
                         ('nearest_value', [numsym('v'), arrsym('grid', intsym('n'))])):
            r = Run(ck.world)
            o = r.call(CR + fn, args)
            no_mutation(ck, '%s of %s leaves its arguments unchanged' % (fn, 'rank %s' % rank(args[0].t) if isinstance(args[0], V)
                                                                         else 'scalars'), o, ck.where(CR + fn))
        # an array written to in the analysed language is seen
        r = Run(ck.world)
        o = r.outcome(lambda s, cx: (r.ip.store_sub(q, V(mk('tup', ZERO, ZERO, ZERO)), V(ONE), s, cx, None), V(NONE))[1])
        ck.control('a write is seen', o.st.mut)
    ck.guard('building', build, ck.where(CR + 'Qe'))

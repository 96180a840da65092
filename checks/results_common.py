"""Symbolic result objects: every temporal array of one symbolic length, every spatial
quantity its own symbol, so a mix-up of any two is visible."""
from vf.runner import *

RES = 'emva1288.process.results.Results1288'
TEMPORAL = ('u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark', 'texp')
SCALARS = ('avg_mean', 'avg_mean_dark', 'avg_var', 'avg_var_dark', 'avg_var_cav', 'avg_var_cav_dark', 'avg_var_rav',
           'avg_var_rav_dark', 'var_mean', 'var_mean_dark', 'texp', 'u_p')
COUNTS = ('M', 'N', 'M_dark', 'N_dark', 'L', 'L_dark')
IMAGES = ('sum', 'pvar', 'sum_dark', 'pvar_dark')


def make(ck, forced=False, masked=False, area=None, own_pixels=True, run=None, prefix=''):
    """-> (run, result object V, forced index term)"""
    r = run or Run(ck.world)
    P = prefix
    n = intsym(P + 'n')
    h, w = intsym(P + 'height'), intsym(P + 'width')
    T = {k: arrsym(P + "temporal['%s']" % k, n) for k in TEMPORAL}
    S = {k: numsym(P + "spatial['%s']" % k) for k in SCALARS}
    S.update({k: intsym(P + "spatial['%s']" % k) for k in COUNTS})
    size = lambda k: [S[x + '_dark'] if k.endswith('_dark') else S[x] for x in 'MN']
    S.update({k: arrsym(P + "spatial['%s']" % k, *size(k), integer=True, masked=masked) for k in IMAGES})
    t = r.dict(T)
    s = r.dict(S)
    d = r.dict({'temporal': t, 'spatial': s, 'width': w, 'height': h})
    idx = intsym('index_u_ysat') if forced else NONE
    kw = {'pixel_area': V(anysym('pixel_area') if area is None else area)}
    if forced:
        kw['index_u_ysat'] = V(idx)
    c = ck.world.get(RES)
    if not isinstance(c, Cls):
        raise Vanished(RES)
    r.caller = getattr(r, 'caller', []) + [d]
    r.given = getattr(r, 'given', []) + [r.ip.freeze(d.t, r.st)]
    obj = r.ip.construct(c, [d], kw, r.st, r.cx, None)
    return r, obj, idx


def read(r, obj, name, st=None):
    return r.attr(obj, name, None, st=st)


def spec_of(ck, r, obj, name, *extra):
    f = ck.spec(name)
    if f is None:
        raise KeyError('no specification ' + name)
    return r.outcome(lambda s, cx: r.ip.call(r.ip.wrap(f, s, cx, None), [obj] + [V(x) for x in extra], {}, s, cx, None))


def members(ck, names, masked=False, forced=(False, True), area=None, tag=''):
    """compare the members with their reference definitions"""
    tag0 = tag
    for fo in forced:
        try:
            r, obj, idx = make(ck, fo, masked, area=area)
        except Vanished as e:
            ck.add('Results1288', VIOLATED, RES, 'class is gone', '')
            return
        tag = tag0 + (' (forced saturation index)' if fo else '')
        for nm in names:
            w = member_where(ck.world, RES, nm)

            def go(nm=nm, w=w):
                got = read(r, obj, nm)
                want = spec_of(ck, r, obj, 'r_' + nm)
                if got.value.op == 'raises' and 'AttributeError' in show(got.value):
                    raise Vanished('Results1288.' + nm)
                ck.equal('Results1288.%s%s' % (nm, tag), got.value, want.value, w, 'member denotes its defining equation')
            ck.guard('Results1288.%s%s' % (nm, tag), go, w)


def control(ck, nm):
    try:
        r, obj, idx = make(ck)
        ck.ctl_equal('wrong ' + nm, read(r, obj, nm).value, spec_of(ck, r, obj, 'wrong_' + nm).value)
    except Exception:
        ck.control('wrong ' + nm, False)

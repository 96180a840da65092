"""Generated test points"""
import itertools
from .camera_common import *

TECHNIQUE = ('abstract interpretation to value terms: the points dictionary of a symbolic camera compared with the specified '
             'series, for an unknown number of steps and written out for literal ones')
NOTE = ('PointsGenerator is evaluated abstractly on a symbolic camera for every combination of given and omitted limits, '
        'gain and black reference; the whole points dictionary (exposures, radiance arrays, their order) must denote the '
        'specified one, and every setting of the camera and caller array must be accounted for.')
MIN = 60
PG = 'emva1288.camera.points_generator.PointsGenerator'
E_ = {'exposure_min': numsym('given_exposure_min', True), 'exposure_max': numsym('given_exposure_max', True)}
F_ = {'exposure_fixed': numsym('fixed', True)}
R_ = {'radiance_min': numsym('given_radiance_min', True), 'radiance_max': numsym('given_radiance_max', True)}
G_ = {'gain': numsym('given_gain', True), 'blackref': numsym('given_blackref', True)}
NAMES = ('exposure_min', 'exposure_max', 'exposure_fixed', 'radiance_min', 'radiance_max', 'gain', 'blackref')


def subsets(d):
    for n in range(len(d) + 1):
        for c in itertools.combinations(d, n):
            yield {k: d[k] for k in c}


def cases(full):
    for e in subsets(E_):
        for g in subsets(G_):
            if full or not e or not g or len(e) == len(g):
                yield {**e, **g}
    for r in subsets(R_):
        for g in subsets(G_):
            if full or not r or not g or len(r) == len(g):
                yield {**F_, **r, **g}
    yield {**E_, **F_, **R_, **G_}
    yield {**E_, **R_}
    # arrays as limits, and limits that are zero
    yield {**F_, 'radiance_min': arrsym('rmin', H_, W_, NW), 'radiance_max': arrsym('rmax', H_, W_, NW)}
    yield {**F_, 'radiance_min': ZERO, 'radiance_max': numsym('given_radiance_max', True)}
    yield {**F_, 'radiance_max': arrsym('rmax', H_, W_, NW), 'blackref': ZERO}
    yield {'exposure_min': ZERO, 'blackref': ZERO}


def run(ck):
    w = ck.where(PG)
    cl = ck.world.get(PG)
    if not isinstance(cl, Cls):
        raise Vanished(PG)

    def points(given, steps):
        c = Cam(ck)
        kw = {k: V(v) if not isinstance(v, V) else v for k, v in given.items()}
        if steps is not None:
            kw['steps'] = V(steps)

        def go(s, cx):
            o = c.r.ip.construct(cl, [V(c.cam.t)], kw, s, cx, None)
            return c.r.ip.getattr(o, 'points', s, cx, None)
        return c, c.r.outcome(go, st=c.r.st.copy())

    def one(given, steps):
        tag = '(%s)%s' % (', '.join(k + ('=0' if v is ZERO else '=array' if isinstance(v, V) else '') for k, v in given.items()),
                          '' if steps is None else ' %s steps' % show(steps))
        c, o = points(given, steps)
        args = [V(c.cam.t)] + [given.get(n, NONE) for n in NAMES] + [num(100) if steps is None else steps]
        for name, got in ('points', o.value), :
            want = spec_call(ck, c.r, 's_points', args, st=c.r.st.copy()).value
            for kind_ in ('temporal', 'spatial'):
                ck.equal('%s %s' % (kind_, tag), lift(lambda x: x if x.op == 'raises' else dget(x, const(kind_)), got),
                         dget(want, const(kind_)), w, 'exposures, radiances and their order as specified')
        ck.equal('%s does not fail' % tag, raisecond(o.value), FALSE, w, 'no exception')
        no_mutation(ck, '%s leaves the given arrays unchanged' % tag, o, w)
        if not given and steps is not None and steps.op != 'num':
            wrong = spec_call(ck, c.r, 'wrong_points', args, st=c.r.st.copy()).value
            ck.ctl_equal('only the spatial point is generated', dget(o.value, const('temporal')), dget(wrong, const('temporal')))
    for g in cases(ck.tier == 'thorough'):
        ck.guard('points %s' % list(g), lambda: one(g, intsym('steps')), w)
    for n in [1, 2, 3, 4, 5, 8, 13] + ([6, 7, 9, 10, 21] if ck.tier == 'thorough' else []):
        for g in ({}, {**E_, **G_}, {**F_}, {**F_, **R_}):
            ck.guard('points %s, %d steps' % (list(g), n), lambda: one(g, num(n)), w)
    for g in ({}, {**F_, **R_}):
        ck.guard('points %s, default steps' % list(g), lambda: one(g, None), w)

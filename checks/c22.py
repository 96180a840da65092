"""Reproducibility of the seeded simulator"""
import ast
from .camera_common import *

TECHNIQUE = ('abstract interpretation: every random draw names its generator (origin seed and creation); rule over all draws of '
             'every operation, plus name resolution of every library reference in the camera package')
NOTE = ('Every draw reachable from the camera, bad-pixel, points and dataset operations must come from the one generator created '
        'in the constructor from the seed parameter; no other source of randomness, time or identity is referenced in '
        'emva1288.camera.')
MIN = 40
DG = 'emva1288.camera.dataset_generator.'
ALLOWED = {'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.PCG64', 'numpy.random.RandomState',
           'numpy.random.SeedSequence', 'numpy.random.BitGenerator', 'numpy.random', 'numpy.random.MT19937',
           'numpy.random.PCG64DXSM', 'numpy.random.Philox', 'numpy.random.SFC64'}
BAD = ('numpy.random.', 'random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'scipy.stats.', 'os.urandom', 'os.getpid',
       'numpy.fft.never')


def collect(ts, ops):
    acc, seen, stack = [], set(), list(ts)
    while stack:
        x = stack.pop()
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            acc.append(x)
        stack.extend(x.kids)
        for a in x.args:
            if isinstance(a, Node):
                stack.append(a)
    return acc


def run(ck):
    SEED = anysym('seed')
    wi = ck.where(CAM + '.__init__')
    streams = {}

    def judge(tag, where, ts, seed=SEED, need=True):
        """all draws in these terms come from the generator of the seed"""
        gens = {}
        for x in collect(ts, ('draw', 'ev')):
            if x.op == 'draw':
                gens.setdefault(x.args[0], x)
            elif x.args[0] == 'draw':
                gens.setdefault(x.args[1], x)
            elif x.args[0] == 'reseed':
                ck.add('reseed in %s' % tag, VIOLATED, where, 'the global generator is reseeded', 'own generator only')
        if need and not gens:
            ck.add('draws of %s' % tag, UNDECIDED, where, 'no random draw found')
        for g, x in sorted(gens.items(), key=lambda z: z[0].id):
            ok = g.op == 'rng' and g.args[0] is seed and (len(g.args) == 1 or g.args[1:] == ('RandomState',))
            why = 'from a generator created again' if g.op == 'rng' and g.args[0] is seed else 'from %s' % show(g, 4)
            if g.op != 'rng' and g.opq:
                ok = None
            ck.rule('draws of %s' % tag, ok, where, 'drawn %s: %s' % (why, show(x, 4)[:300]),
                    'from the one generator created from the seed')
            streams.setdefault(seed, set()).add(g)

    L, T, F_ = arrsym('L', H_, W_, NW), numsym('given temperature'), numsym('given f_number', True)

    def cam(tag, seedval, omit=()):
        c = Cam(ck, given={'seed': seedval} if seedval is not None else {}, omit=omit)
        seed = seedval if seedval is not None else NONE
        judge('the constructor, %s' % tag, wi, [c.out.value, c.out.trace], seed, need=False)
        st = c.r.st.copy()
        for k, (args, kw) in enumerate((((L,), {}), ((ZERO,), {}), ((L,), {'temperature': T, 'f_number': F_}))):
            o = c.call('grab', *args, st=st, **kw)
            judge('grab %d, %s' % (k + 1, tag), ck.where(CAM + '.grab'), [o.value, o.trace], seed)
        o = c.r.call('emva1288.camera.bad_images.bad_pixel', [c.cam, intsym('count')], st=st)
        judge('bad pixels, %s' % tag, ck.where('emva1288.camera.bad_images.bad_pixel'),
              [o.value, o.trace, c.get('DSNU', st=st).value], seed)
        o = c.call('get_radiance_for', st=st)
        judge('get_radiance_for, %s' % tag, ck.where(CAM + '.get_radiance_for'), [o.value, o.trace], seed, need=False)
        o = c.call('get_photons', L, st=st)
        judge('get_photons, %s' % tag, ck.where(CAM + '.get_photons'), [o.value, o.trace], seed, need=False)
        for kind, kw in (('exposures', {}), ('radiances', {'exposure_fixed': V(numsym('fixed', True))})):
            s2 = st.copy()
            o = c.r.call('emva1288.camera.points_generator.PointsGenerator', [c.cam], dict(kw, steps=V(num(3))), st=s2)
            v = c.r.attr(o.v, 'points', st=s2)
            judge('points (%s), %s' % (kind, tag), ck.where('emva1288.camera.points_generator.PointsGenerator.__init__'),
                  [v.value, o.trace], seed, need=False)
        for fn in ('_get_emva_gain', '_get_emva_blackoffset'):
            o = c.r.call(DG + fn, [c.cam], st=st.copy())
            judge('%s, %s' % (fn, tag), ck.where(DG + fn), [o.value, o.trace], seed)
        o = c.call('grab', L, st=st)
        judge('a grab afterwards, %s' % tag, ck.where(CAM + '.grab'), [o.value, o.trace], seed)
    ck.guard('any seed', lambda: cam('any seed', SEED), wi)
    ck.guard('seed 0', lambda: cam('seed 0', ZERO), wi)
    ck.guard('seed 12345', lambda: cam('seed 12345', num(12345)), wi)
    ck.guard('no nonuniformity', lambda: cam('no nonuniformity given', SEED, ('dsnu', 'prnu')), wi)

    def distinct():
        """consecutive grabs draw anew"""
        c = Cam(ck)
        st = c.r.st.copy()
        a = c.call('grab', L, st=st).value
        b = c.call('grab', L, st=st).value
        da, db = set(collect([a], ('draw',))), set(collect([b], ('draw',)))
        ck.rule('consecutive grabs', not da & db if da and db else None, ck.where(CAM + '.grab'),
                'the second image repeats the draws of the first', 'one stream, consumed in order')
        ck.control('draws found', da)
    ck.guard('consecutive', distinct, ck.where(CAM + '.grab'))

    def dataset(fixed):
        r = Run(ck.world)
        cl = ck.world.get(DG + 'DatasetGenerator')
        if not isinstance(cl, Cls):
            raise Vanished(DG + 'DatasetGenerator')
        p = params(omit=('K', 'blackoffset'))
        kw = {k: v if isinstance(v, V) else V(v) for k, v in p.items()}
        kw.update({'K_min': V(ONE), 'K_max': V(num(2)), 'K_steps': V(num(2)), 'blackoffset_min': V(ZERO),
                   'blackoffset_max': V(num(2)), 'blackoffset_steps': V(num(2))})
        q = r.outcome(lambda s, cx: r.ip.construct(ck.world.get(CR + 'Qe'), [], {
            'qe': arrsym('qe', H_, W_, NW), 'wavelength': arrsym('w', NW), 'width': V(W_), 'height': V(H_)}, s, cx, None), st=r.st)
        kw.update(qe=q.v, L=V(num(2)), steps=V(num(2)), image_format=V(const('png')), outdir=V(strsym('outdir')))
        if fixed:
            kw['exposure_fixed'] = V(numsym('fixed', True))
        o = r.outcome(lambda s, cx: r.ip.construct(cl, [], kw, s, cx, None), st=r.st)
        judge('the dataset generator (%s)' % ('radiances' if fixed else 'exposures'), ck.where(DG + 'DatasetGenerator.__init__'),
              [o.trace])
    ck.guard('dataset', lambda: dataset(False), ck.where(DG + 'DatasetGenerator.__init__'))
    ck.guard('dataset', lambda: dataset(True), ck.where(DG + 'DatasetGenerator.__init__'))

    for s, gs in streams.items():
        ck.rule('one generator for seed %s' % show(s), len(gs) == 1, wi, 'draws come from %s' % ', '.join(show(g) for g in gs),
                'created once')

    def names():
        import os
        root = os.path.join(ck.world.roots['emva1288'], 'camera')
        for fn in sorted(os.listdir(root)):
            if not fn.endswith('.py'):
                continue
            m = ck.world.module('emva1288.camera' if fn == '__init__.py' else 'emva1288.camera.' + fn[:-3])
            n, bad = 0, []
            local = {}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        local[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                    for a in x.names:
                        local[a.asname or a.name] = x.module + '.' + a.name
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                    d = dotted(x)
                    if d is None:
                        continue
                    h, _, rest = d.partition('.')
                    if h in local:
                        full = local[h] + ('.' + rest if rest else '')
                        n += 1
                        if (full + '.').startswith(BAD) and full not in ALLOWED:
                            base = full
                            if any(base == a or base.startswith(a + '.') for a in ALLOWED if a != 'numpy.random'):
                                continue
                            if full.startswith('scipy.stats.'):
                                continue
                            bad.append((x.lineno, full))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'rvs' and not any(
                        k.arg == 'random_state' for k in x.keywords):
                    bad.append((x.lineno, 'rvs without random_state'))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('id', 'hash') and \
                        x.func.id not in m.names:
                    bad.append((x.lineno, x.func.id + '()'))
            ck.rule('sources of randomness in %s' % m.rel, not bad, m.rel,
                    '; '.join('%s:%s refers to %s' % (m.rel, l, f) for l, f in bad), 'no other source (%d library references)' % n)
    ck.guard('names', names, 'emva1288.camera')

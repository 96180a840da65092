"""Injection of bad pixels"""
import itertools
from .camera_common import *
from vf.inst import expand, NoInst

TECHNIQUE = ('abstract interpretation to value terms: the nonuniformity after the injection as a term over one uninterpreted draw; '
             'rule on the draw (distinct positions from the whole sensor), and the term written out for every possible outcome of '
             'the draw on small sensors')
NOTE = ('bad_pixel is evaluated on a symbolic camera; the draw of positions must be without repetition over height*width; for '
        'sensors up to 3x3 and every outcome of up to three positions the final nonuniformity must be the given one with exactly '
        'those pixels replaced by the fraction of the full well.')
MIN = 20
BP = 'emva1288.camera.bad_images.bad_pixel'


def draws(t):
    acc, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'draw':
            acc.add(x)
        stack.extend(x.kids)
    return acc


def positions(d, n, pixels):
    """True: n distinct positions out of `pixels`; False: not; None: unknown.  With the length of the drawn array"""
    dist, par, size = d.args[1], d.args[2], d.args[3]

    def whole(x):
        return x is pixels or x.op == 'arange' and x.args[0] is pixels or x.op == 'range' and x.args[0] is pixels
    if dist == 'choice':
        if par[1] is not FALSE or not (size is n or size.op == 'tup' and size.args == (n,)):
            return False, n
        if par[2] is not NONE:
            return None, n
        return whole(par[0]), n
    if dist == 'permutation':
        return whole(par[0]), pixels
    if dist in ('integers', 'randint', 'uniform', 'normal', 'poisson', 'random', 'random_sample'):
        return False, n
    return None, n


def common(t, n):
    """every admissible draw of the first n positions under one name"""
    m = {}
    for d in draws(t):
        ok, k = positions(d, n, mul(H_, W_))
        if ok:
            m[d] = sym('positions %s' % show(d.args[4]), 1, None, True, 'num')
    return replace(t, m)


def run(ck):
    w = ck.where(BP)
    FULL = params()['u_esat']

    def unbounded():
        for tag, args, v in (('given fraction', [numsym('fraction')], numsym('fraction')), ('no fraction', [NONE], NONE),
                             ('default', [], ONE)):
            c = Cam(ck)
            n = intsym('count')
            st = c.r.st.copy()
            o = c.r.call(BP, [c.cam, n] + args, st=st)
            got = c.get('DSNU', st=st)
            s2 = c.r.st.copy()
            want = spec_call(ck, c.r, 's_bad_pixel', [c.cam, n, FULL, v], st=s2)
            ds = draws(got.value)
            ck.equal('nonuniformity after bad pixels, %s' % tag, common(got.value, n), common(want.value, n), w,
                     'only the drawn pixels replaced')
            for d in sorted(ds, key=lambda d: d.id):
                ok, m = positions(d, n, mul(H_, W_))
                ck.rule('positions, %s' % tag, ok, w, 'drawn as %s' % show(d, 5), 'distinct positions out of height*width')
            if not ds:
                ck.add('positions, %s' % tag, VIOLATED if got.value is c.get('DSNU').value else UNDECIDED, w,
                       'no random draw found in the nonuniformity')
            ck.equal('bad pixels fail for no count, %s' % tag, raisecond(o.value), FALSE, w, 'no exception')
            for a in ('K', 'blackoffset', 'exposure', 'bit_depth', 'height', 'width'):
                ck.equal('%s after bad pixels, %s' % (a, tag), c.get(a, st=st).value, c.get(a).value, w, 'unaffected')
    ck.guard('unbounded', unbounded, w)

    def literal(h, wd, n, default):
        dsnu = arrsym('dsnu', num(h), num(wd))
        c = Cam(ck, given=dict({'height': num(h), 'width': num(wd), 'prnu': arrsym('prnu', num(h), num(wd))},
                               **({} if default else {'dsnu': dsnu})), omit=('dsnu',) if default else (), qe=False)
        st = c.r.st.copy()
        v = numsym('fraction')
        c.r.call(BP, [c.cam, num(n), v], st=st)
        got = c.get('DSNU', st=st).value
        tag = '%d of %dx%d%s' % (n, h, wd, ', no nonuniformity given' if default else '')
        ds = draws(got)
        if n == 0:
            ck.equal('bad pixels %s' % tag, expand(got, {}), expand(c.get('DSNU').value, {}), w, 'nothing changed')
            return
        if len(ds) != 1:
            same = verdict(expand(got, {}), expand(c.get('DSNU').value, {}))[0] == PROVED
            ck.add('bad pixels %s' % tag, VIOLATED if same and not ds else UNDECIDED, w, '%d random draws' % len(ds))
            return
        d, = ds
        ok, m = positions(d, num(n), num(h * wd))
        if not ok:
            ck.rule('positions, %s' % tag, ok, w, 'drawn as %s' % show(d, 5), 'distinct positions out of height*width')
            return
        k = int(m.args[0])
        outcomes = list(itertools.permutations(range(h * wd), k)) if k < h * wd else list(itertools.permutations(range(h * wd)))
        if len(outcomes) > 130:
            outcomes = outcomes[::len(outcomes) // 120]
        bad = None
        for pos in outcomes:
            a = np_array(pos)
            base = expand(c.get('DSNU').value, {})
            rows = [list(r_.args[0].args) for r_ in base.args[0].args]
            for p in pos[:n]:
                rows[p // wd][p % wd] = mul(v, FULL)
            want = mk('arr', mk('lit', *[mk('arr', mk('lit', *r_)) for r_ in rows]))
            try:
                g = expand(got, {d: a})
            except NoInst as e:
                ck.add('bad pixels %s' % tag, UNDECIDED, w, 'cannot be written out: %s' % e)
                return
            vd, why = verdict(g, want)
            if vd != PROVED:
                bad = (vd, 'positions %s: ' % (pos[:n],) + describe_(g, want, why))
                break
        ck.add('bad pixels %s' % tag, bad[0] if bad else PROVED, w, bad[1] if bad else '',
               'exactly the drawn pixels hold the fraction of the full well (%d outcomes)' % len(outcomes))
        # which positions appear
        if k == h * wd and n < k:
            return

    def np_array(pos):
        import numpy as np
        a = np.empty((len(pos),), dtype=object)
        for i, p in enumerate(pos):
            a[i] = num(p)
        return a

    def describe_(g, want, why):
        from vf.runner import describe
        return describe(g, want, why)
    for h, wd in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)):
        for n in (0, 1, 2, 3):
            if n <= h * wd:
                ck.guard('bad pixels literal', lambda: literal(h, wd, n, False), w)
        ck.guard('bad pixels literal', lambda: literal(h, wd, 1, True), w)

    def twice():
        """later injections keep the earlier bad pixels"""
        dsnu = arrsym('dsnu', num(2), num(2))
        c = Cam(ck, given={'height': num(2), 'width': num(2), 'dsnu': dsnu, 'prnu': arrsym('prnu', num(2), num(2))}, qe=False)
        st = c.r.st.copy()
        c.r.call(BP, [c.cam, num(1), numsym('f')], st=st)
        c.r.call(BP, [c.cam, num(1), numsym('g')], st=st)
        got = c.get('DSNU', st=st).value
        ds = sorted(draws(got), key=lambda d: int(d.args[4].args[0]))
        if len(ds) != 2:
            ck.add('two injections', UNDECIDED, w, '%d random draws' % len(ds))
            return
        bad = None
        for p, q in itertools.product(range(4), range(4)):
            rows = [list(r_.args[0].args) for r_ in expand(dsnu.t, {}).args[0].args]
            rows[p // 2][p % 2] = mul(numsym('f'), FULL)
            rows[q // 2][q % 2] = mul(numsym('g'), FULL)
            want = mk('arr', mk('lit', *[mk('arr', mk('lit', *r_)) for r_ in rows]))
            k = [1 if d.args[1] == 'choice' else 4 for d in ds]
            pad = lambda x, m: np_array([x] + [y for y in range(4) if y != x][:m - 1])
            g = expand(got, {ds[0]: pad(p, k[0]), ds[1]: pad(q, k[1])})
            vd, why = verdict(g, want)
            if vd != PROVED:
                bad = (vd, describe_(g, want, why))
                break
        ck.add('two injections', bad[0] if bad else PROVED, w, bad[1] if bad else '', 'the earlier bad pixels stay')
    ck.guard('two injections', twice, w)
    c = Cam(ck)
    st = c.r.st.copy()
    c.r.call(BP, [c.cam, intsym('count'), numsym('fraction')], st=st)
    ck.ctl_equal('half of the full well', c.get('DSNU', st=st).value,
                 spec_call(ck, c.r, 's_bad_pixel', [c.cam, intsym('count'), mul(FULL, num('1/2')), numsym('fraction')]).value)

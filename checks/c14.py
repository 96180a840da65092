"""Defect-pixel histograms"""
from .results_common import *
from .common import okval, spec_call, no_mutation

TECHNIQUE = ('abstract interpretation to value terms compared with the reference binning in algebraic normal form; where the '
             'form differs, the bin terms are written out for enumerated value ranges')
NOTE = ('Histogram1288 and the four histograms of Results1288 are evaluated abstractly over symbolic images, plain and '
        'masked; bins, counts and model must equal the reference (integer bin width, edges from the minimum past the maximum, '
        'only unmasked pixels, accumulation from above in percent of the valid pixels, rescaling by the stack counts).')
MIN = 30
H = 'emva1288.process.routines.Histogram1288'
KEYS = ('bins', 'values', 'model')
RANGES = [(0, 0, 256), (5, 3, 256), (-7, 254, 256), (3, 255, 256), (3, 256, 256), (-100, 257, 256), (0, 511, 256),
          (0, 512, 256), (9, 513, 256), (0, 1000, 256), (0, 65535, 256), (2, 9, 4), (2, 8, 4), (2, 7, 4), (0, 3, 4), (1, 4, 4)]

SMALL = [(5, 3, 256), (-7, 9, 256), (2, 9, 4), (2, 8, 4), (2, 7, 4), (0, 3, 4), (1, 4, 4), (-3, 12, 5), (0, 24, 5)]


def at(t, y, lo, q, qmax):
    """the term with minimum, maximum and Qmax of the image given"""
    m = {mk('amin', y, NONE): num(lo), mk('amax', y, NONE): num(lo + q), intsym('Qmax'): num(qmax)}
    return replace(t, m)


def written(t, y, lo, q, qmax):
    """the term element by element, for a given value range"""
    from vf.inst import expand
    t = at(t, y, lo, q, qmax)
    m = {n: numsym('of image %d' % n.id) for n in subterms(t) if n.op in ('asum', 'macount', 'amin', 'amax') and rank(n) == 0 and n.args[1] is NONE}
    return expand(replace(t, m), {intsym('_none'): ONE})


def edges_ok(bins, values, lo, q, qmax):
    """None when right, a description when wrong, 'undecided' otherwise"""
    from vf.inst import expand, NoInst
    if values.op != 'hist':
        return 'undecided'
    try:
        b, e = expand(bins, {intsym('_none'): ONE}), expand(values.args[1], {intsym('_none'): ONE})
    except Exception:
        return 'undecided'
    xs = []
    for t in (b, e):
        if t.op == 'arr':
            t = t.args[0]
        if t.op not in ('lit', 'tup') or any(a.op != 'num' for a in t.args):
            return 'undecided'
        xs.append([a.args[0] for a in t.args])
    b, e = xs
    at_ = 'for values from %d to %d: ' % (lo, lo + q)
    if e[:-1] != b:
        return at_ + 'the reported bins are not the edges counted'
    w = e[1] - e[0]
    if e[0] != lo:
        return at_ + 'the first bin starts at %s' % e[0]
    if w < 1 or w.denominator != 1 or any(y - x != w for x, y in zip(e, e[1:])):
        return at_ + 'bins are not of one integer width'
    if len(b) > qmax:
        return at_ + '%d bins, allowed %d' % (len(b), qmax)
    if e[-1] <= lo + q:
        return at_ + 'the last bin ends at %s' % e[-1]
    return None


def run(ck):
    w = ck.where(H)
    for masked in (False, True):
        tag = 'masked' if masked else 'plain'

        def go():
            r = Run(ck.world)
            y = arrsym('y', intsym('height'), intsym('width'), integer=True, masked=masked)
            got = r.call(H, [y, intsym('Qmax')])
            want = spec_call(ck, r, 's_histogram', [y, intsym('Qmax')])
            if okval(got.value) is None:
                ck.add('Histogram1288 %s' % tag, VIOLATED, w, 'raises %s' % show(got.value), '')
                return
            g = {k: dget(okval(got.value), const(k)) for k in KEYS}
            for k in KEYS:
                x = dget(want.value, const(k))
                v, why = verdict(g[k], x)
                d = '' if v == PROVED else describe(g[k], x, why)
                if v != PROVED and k in ('bins', 'values'):
                    res = []
                    base = y.t
                    if k == 'values' and (g[k].op != 'hist' or g[k].args[0] is not x.args[0]):
                        res = [d if v == VIOLATED or g[k].op == 'hist' and not soft(g[k]) else 'undecided']
                    else:
                        for lo, q, qm in RANGES:
                            res.append(edges_ok(at(g['bins'], base, lo, q, qm), at(g['values'], base, lo, q, qm), lo, q, qm))
                    bad = [z for z in res if z and z != 'undecided']
                    if bad:
                        v, d = VIOLATED, bad[0]
                    elif 'undecided' in res:
                        v = UNDECIDED
                    else:
                        v = BOUNDED
                if v != PROVED and k == 'model':
                    vs = []
                    for lo, q, qm in SMALL:
                        try:
                            a, b = [written(z, y.t, lo, q, qm) for z in (g[k], x)]
                        except Exception:
                            vs.append((UNDECIDED,))
                            continue
                        vs.append(verdict(a, b) + (a, b, lo, q))
                    bad = [z for z in vs if z[0] == VIOLATED]
                    if bad:
                        v, d = VIOLATED, 'for values from %d to %d: ' % (bad[0][4], sum(bad[0][4:6])) + describe(*bad[0][2:4], bad[0][1])
                    else:
                        v = BOUNDED if all(z[0] == PROVED for z in vs) else UNDECIDED
                ck.add("Histogram1288(%s)['%s']" % (tag, k), v, w, d,
                       'equal integer-width bins from the minimum past the maximum, counting every unmasked pixel')
            no_mutation(ck, 'Histogram1288(%s) leaves the image unmodified' % tag, got, w)
            if masked:
                ck.ctl_equal('masked pixels counted', g['values'],
                             dget(spec_call(ck, r, 'wrong_histogram', [y, intsym('Qmax')]).value, const('values')))
        ck.guard('Histogram1288 ' + tag, go, w)
        r, obj, _ = make(ck, False, masked)
        for nm in ('PRNU', 'PRNU_accumulated', 'DSNU', 'DSNU_accumulated'):
            m = 'histogram_' + nm
            wm = member_where(ck.world, RES, m)

            def one(m=m, wm=wm):
                got, want = read(r, obj, m), spec_of(ck, r, obj, 'r_' + m)
                gv = okval(got.value)
                if gv is None:
                    ck.add('%s %s' % (m, tag), VIOLATED, wm, 'raises %s' % show(got.value), '')
                    return
                for k in KEYS:
                    ck.equal("%s(%s)['%s']" % (m, tag, k), dget(gv, const(k)), dget(okval(want.value), const(k)), wm,
                             'bins of one image, counts or percentages of the valid pixels, as defined')
                no_mutation(ck, '%s(%s) leaves the data unmodified' % (m, tag), got, wm)
            ck.guard('%s %s' % (m, tag), one, wm)
        if not masked:
            ck.ctl_equal('DSNU bins scaled by the bright stack', dget(read(r, obj, 'histogram_DSNU').value, const('bins')),
                         dget(spec_of(ck, r, obj, 'wrong_histogram_DSNU').value, const('bins')))

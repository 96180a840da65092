"""Power spectrum and high-pass filter"""
import numpy as _np
from .common import *
from vf import inst

TECHNIQUE = ('abstract interpretation to value terms compared with the definition; masked images by writing the terms out for '
             'literal masks with symbolic pixels')
NOTE = ('FFT1288 and high_pass_filter are evaluated abstractly over symbolic images (plain and masked, rotated or not, sum of '
        'n images, every filter size 2..9).  Plain images: normal-form equality at any size.  Masked images: the terms are '
        'written out for a set of literal masks (Bayer planes, irregular, full rows masked) with every pixel a symbol and '
        'compared with the definition on the compressed lines.')
MIN = 30
R = 'emva1288.process.routines.'
A, B = 6, 8


def bayer(h, w, i, j):
    m = _np.ones((h, w), dtype=bool)
    m[i::2, j::2] = False
    return m


def masks():
    out = {}
    for i in (0, 1):
        for j in (0, 1):
            out['bayer %d%d' % (i, j)] = bayer(6, 6, i, j)
    g = _np.zeros((4, 5), dtype=bool)
    out['nothing masked'] = g.copy()
    g[0, 1] = g[1, 0] = g[1, 4] = g[2, :] = g[3, 2] = True
    out['irregular, one empty line'] = g
    k = _np.zeros((3, 4), dtype=bool)
    k[0, :] = True
    k[1, 3] = True
    out['first line empty'] = k
    q = _np.zeros((4, 3), dtype=bool)
    q[3, :] = True
    q[0, 0] = q[1, 2] = True
    out['last line empty'] = q
    c = _np.zeros((4, 4), dtype=bool)
    c[:, 0] = True
    c[2, 1] = True
    out['a column masked'] = c
    return out


def pixel(i, j):
    return sym('y<%d,%d>' % (i, j), 0, (), True, 'num')


def env_for(ysym, m):
    h, w = m.shape
    d = _np.empty((h, w), dtype=object)
    for ix in _np.ndindex(h, w):
        d[ix] = pixel(*ix)
    return {ysym: inst.MA(d, m), intsym('height'): num(h), intsym('width'): num(w)}


def lines(m):
    """(rows of pixel symbols with the masked ones removed, trimmed) by definition"""
    rows = [[pixel(i, j) for j in range(m.shape[1]) if not m[i, j]] for i in range(m.shape[0])]
    rows = [r for r in rows if r]
    n = min(len(r) for r in rows)
    return [r[:n] for r in rows]


def expanded(t, env):
    return inst.expand(t, env)


SIZES = tuple(dict(ck_, height=a, width=b) for ck_ in Check.SIZES[:1] for a, b in ((12, 11), (9, 12)))


def run(ck):
    ck.SIZES = SIZES
    wf, wh = ck.where(R + 'FFT1288'), ck.where(R + 'high_pass_filter')
    h, w = intsym('height'), intsym('width')
    n = intsym('n')

    def fft(rot):
        r = Run(ck.world)
        y = arrsym('y', h, w, integer=True)
        got = r.call(R + 'FFT1288', [y, TRUE if rot else FALSE, n])
        want = spec_call(ck, r, 's_fft', [y, TRUE if rot else FALSE, n])
        ck.equal('FFT1288 %s' % ('rotated' if rot else 'plain'), got.value, want.value, wf,
                 'mean over the lines of |FFT(image - mean)|^2 / line length / n^2, up to Nyquist')
        no_mutation(ck, 'FFT1288 %s leaves the image unmodified' % ('rotated' if rot else 'plain'), got, wf)
        if not rot:
            ck.ctl_equal('divided by n^3', got.value, spec_call(ck, r, 'wrong_fft', [y, FALSE, n]).value)
            d = r.call(R + 'FFT1288', [y])
            ck.equal('FFT1288 defaults', d.value, spec_call(ck, r, 's_fft', [y, FALSE, ONE]).value, wf,
                     'by default neither rotated nor rescaled')
    for rot in (False, True):
        ck.guard('FFT1288 %s' % rot, lambda: fft(rot), wf)

    def mfft(rot):
        r = Run(ck.world)
        y = arrsym('y', h, w, integer=True, masked=True)
        got = r.call(R + 'FFT1288', [y, TRUE if rot else FALSE, n])
        no_mutation(ck, 'FFT1288 masked %s leaves the image unmodified' % ('rotated' if rot else 'plain'), got, wf)
        for nm, m in masks().items():
            name = 'FFT1288 %s, mask: %s' % ('rotated' if rot else 'plain', nm)

            def one():
                mm = m
                def px(i, j):
                    return pixel(j, i) if rot else pixel(i, j)
                mt = m.T if rot else m
                rows = [[px(i, j) for j in range(mt.shape[1]) if not mt[i, j]] for i in range(mt.shape[0])]
                rows = [q for q in rows if q]
                k = min(len(q) for q in rows)
                rows = [q[:k] for q in rows]
                z = arrsym('z', num(len(rows)), num(k), integer=True)
                d = _np.empty((len(rows), k), dtype=object)
                for ix in _np.ndindex(*d.shape):
                    d[ix] = rows[ix[0]][ix[1]]
                want = expanded(spec_call(ck, r, 's_fft', [z, FALSE, n]).value, {z.t: d})
                e = expanded(got.value, env_for(y.t, mm))
                v, why = verdict(e, want)
                ck.add(name, v, wf, '' if v == PROVED else describe(e, want, why),
                       'the spectrum of the lines with their masked pixels removed')
            ck.guard(name, one, wf)
    for rot in (False, True):
        ck.guard('FFT1288 masked %s' % rot, lambda: mfft(rot), wf)

    def hpf(d):
        r = Run(ck.world)
        y = arrsym('y', h, w, integer=True)
        got = r.call(R + 'high_pass_filter', [y, num(d)])
        if d % 2 == 0:
            for msk in (False, True):
                y2 = arrsym('y', h, w, integer=True, masked=msk)
                g = r.call(R + 'high_pass_filter', [y2, num(d)])
                names = exc_names(g.value)
                ck.rule('high_pass_filter size %d %s refused' % (d, 'masked' if msk else 'plain'), names == {'ValueError'}, wh,
                        'gives %s' % sorted(map(str, names)), 'an even size raises ValueError')
            return
        want = spec_call(ck, r, 's_filter', [y, num(d)])
        for k in ('img', 'multiplicator'):
            ck.equal("high_pass_filter size %d ['%s']" % (d, k), dget(got.value, const(k)), dget(want.value, const(k)), wh,
                     'convolution with -1 and a centre summing to zero, cropped to the valid area')
        no_mutation(ck, 'high_pass_filter size %d leaves the image unmodified' % d, got, wh)
        if d == 3:
            ck.ctl_equal('centre one too large', dget(got.value, const('img')),
                         dget(spec_call(ck, r, 'wrong_filter', [y, num(d)]).value, const('img')))
        ym = arrsym('y', h, w, integer=True, masked=True)
        got = r.call(R + 'high_pass_filter', [ym, num(d)])
        want = spec_call(ck, r, 's_filter_masked', [ym, num(d)])
        no_mutation(ck, 'high_pass_filter size %d masked leaves the image unmodified' % d, got, wh)
        v, why = verdict(got.value, want.value)
        if v == PROVED:
            ck.add('high_pass_filter size %d masked' % d, PROVED, wh, '', 'the same over the unmasked neighbours')
        if d > 5:
            return
        ms = {k: m for k, m in masks().items() if d == 3}
        for (i, j) in ((0, 0), (1, 0)):
            ms['bayer %d%d of 8x7' % (i, j)] = bayer(8, 7, i, j)
        x = bayer(7, 7, 0, 0)
        x[2, 3] = False
        ms['irregular 7x7'] = x
        x = _np.zeros((7, 7), dtype=bool)
        x[3, 4] = True
        ms['one pixel masked 7x7'] = x
        for nm, m in ms.items():
            name = 'high_pass_filter size %d, mask: %s' % (d, nm)

            def one():
                if v == PROVED:
                    ck.add(name, PROVED, wh, '', 'the same over the unmasked neighbours')
                    return
                env = env_for(ym.t, m)
                e, x = expanded(got.value, env), expanded(want.value, env)
                v2, why2 = verdict(e, x)
                ck.add(name, v2, wh, '' if v2 == PROVED else describe(e, x, why2), 'the same over the unmasked neighbours')
            ck.guard(name, one, wh)
    for d in range(2, 10):
        ck.guard('high_pass_filter size %d' % d, lambda: hpf(d), wh)

    wq = ck.where(R + 'GetFrecs')

    def axis():
        r = Run(ck.world)
        m = intsym('entries')
        s = arrsym('spectrum', m)
        got = okval(r.call(R + 'GetFrecs', [s]).value)
        for k in (2, 3, 5, 8, 33, 257):
            try:
                t = expanded(got, {m: num(k)})
                x = t.args[0] if t.op == 'arr' else t
                xs = [a.args[0] for a in x.args] if x.op in ('lit', 'tup') and all(a.op == 'num' for a in x.args) else None
            except Exception:
                xs = None
            ok, why = None, 'values not determined'
            if xs is not None:
                step = xs[1] - xs[0] if len(xs) > 1 else 0
                why = 'one value per entry: %s; first %s, step %s, last %s' % (len(xs) == k, xs[0], step, xs[-1])
                ok = len(xs) == k and xs[0] == 0 and step > 0 and all(b - a == step for a, b in zip(xs, xs[1:])) and 2 * xs[-1] <= 1
            ck.rule('frequencies of a spectrum of %d entries' % k, ok, wq, why,
                    'one frequency per entry, from zero in equal steps, at most half the sampling frequency')
    ck.guard('frequency axis', axis, wq)

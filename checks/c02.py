"""Malformed descriptors are refused"""
from .c01 import *

TECHNIQUE = ('abstract interpretation of the parser on malformed descriptor files of known line structure with symbolic '
             'fields: raise conditions on every path')
NOTE = ('Every malformed line (too few fields, wrong number of fields) at every position of a well-formed file, every image '
        'series of zero or one image before every kind of following line, a second format line at every position, and every '
        'sequence of up to three blocks in which a point is repeated (under every coincidence of exposures and photon '
        'counts, and in different spellings) must raise SyntaxError on every path.')
LEVEL_NOTE = 'bounded in the number of blocks; field values unbounded'
MIN = 150


def run(ck):
    w = member_where(ck.world, PARSER, '_fill_info')
    rule = 'SyntaxError on every path'

    def bad(name, lines, end='\n'):
        def f():
            r, o = parse(ck, lines, end=end)
            expect(ck, name, o, False, 'SyntaxError', w, rule)
        ck.guard(name, f, w)

    def good(name, lines):
        def f():
            r, o = parse(ck, lines)
            expect(ck, name, o, True, 'SyntaxError', w, 'a well-formed file is accepted')
        ck.guard(name, f, w)

    def flat(bl):
        return [x for b in bl for x in b.lines()]
    full = ck.tier == 'thorough'
    for n in (2, 3) + ((4,) if full else ()):
        for tag, bl, rep in sequences(n, full and n < 4):
            if rep:
                bad('repeated point in %s' % tag, flat(bl))
            elif n == 2:
                good('no repeated point in %s' % tag, flat(bl))
    for a, b in (('1.5', '1,5'), ('10', '10.0'), ('100', '1e2'), ('0.1', '.1')):
        for im, jm in ((2, 2), (3, 4)):
            bad('point repeated as %s and %s, %d and %d images' % (a, b, im, jm),
                flat([Block('b', a, b, names(0, im)), Block('b', b, a, names(1, jm))]))
            bad('dark point repeated as %s and %s, %d and %d images' % (a, b, im, jm),
                flat([Block('d', a, None, names(0, im)), Block('d', b, None, names(1, jm))]))
    bad('dark point repeated by a bright one of zero photons',
        flat([Block('d', '5', None, names(0, 2)), Block('b', '5.0', '0', names(1, 2))]))
    bad('identical blocks', flat(two()[:1] * 2))
    base = flat(two())
    W = wd('word')
    # lines of one field
    for x in ('b', 'd', 'n', 'i', 'v', 'x', 'foo'):
        for k in range(len(base) + 1):
            bad('lone %r at line %d' % (x, k), base[:k] + [const(x)] + base[k:])
    bad('lone unknown word', base + [W])
    bad('lone word only', [W])
    for x in ('b', 'd', 'n', 'i', 'v', 'x'):
        bad('lone %r as last line without line end' % x, base + [const(x)], end='')
    # wrong number of fields
    top = [0, 3, len(base)]
    f = lambda *a: line(*a)
    A, B, C, D_ = (wd('f%d' % k) for k in range(4))
    for nm, x in (('n with 1 value', f('n', A)), ('n with 2 values', f('n', A, B)), ('n with 4 values', f('n', A, B, C, D_))):
        for k in top:
            bad('%s at line %d' % (nm, k), base[:k] + [x] + base[k:])
    imgs = [f('i', wd('j1')), f('i', wd('j2'))]
    for nm, x in (('b with 1 value', f('b', A)), ('b with 3 values', f('b', A, B, C)), ('b with 4 values', f('b', A, B, C, D_)),
                  ('d with 2 values', f('d', A, B)), ('d with 3 values', f('d', A, B, C))):
        for k in top:
            bad('%s at line %d' % (nm, k), base[:k] + [x] + imgs + base[k:])
            bad('%s and no images at line %d' % (nm, k), base[:k] + [x] + base[k:])
    for nm, x in (('two names', f('i', A, B)), ('three names', f('i', A, B, C))):
        for k in (1, 2, 4, 5, 6):
            bad('image line with %s in place of line %d' % (nm, k), base[:k] + [x] + base[k + 1:])
        for k in (1, 2, 3, 4, 5, 6, 7):
            bad('image line with %s before line %d' % (nm, k), base[:k] + [x] + base[k:])
    # series of fewer than two images
    after = {'end of file': [], 'bright': two()[0].lines(), 'dark': two()[1].lines(), 'n': [f('n', A, B, C)], 'v': [f('v', A)],
             'unknown': [f('x', A)], 'comment': [const('# c')], 'unknown, images': [f('x', A)] + imgs}
    for m in (0, 1):
        for h, ls in (('bright', f('b', wd('e8'), wd('p8'))), ('dark', f('d', wd('e8')))):
            for nm, aft in after.items():
                bad('%s series of %d images before %s' % (h, m, nm), [ls] + imgs[:m] + aft)
                bad('%s series of %d images after a good one before %s' % (h, m, nm), base[:3] + [ls] + imgs[:m] + [x for x in aft
                    if nm not in ('bright',)])
    # second format line
    n1, n2 = f('n', A, B, C), f('n', D_, B, C)
    for k in top:
        for j in top:
            for nm, x, y in (('same', n1, n1), ('different', n1, n2), ('zero', const('n 0 0 0'), n2), ('equal', const('n 8 4 5'), const('n 8 4 5'))):
                ls = list(base)
                for at, z in sorted([(k, x), (j, y)], key=lambda t: -t[0]):
                    ls.insert(at, z)
                bad('format lines at %d and %d (%s)' % (k, j, nm), ls)
    # a refused repetition leaves no way to see replaced content: the control accepts repetitions
    rr, o = parse(ck, flat(two()[:1] * 2))
    ck.ctl_equal('a repeated point replaces the first', part(o, 0), spec_call(ck, rr, 'wrong_images', [
        V(mk('lit', *[b.spec() for b in two()[:1] * 2])), V(BASE)]).value)

"""Descriptor blocks are parsed faithfully and completely"""
from .parser_common import *
from vf import text
import itertools

TECHNIQUE = ('abstract interpretation of the parser on descriptor files of known line structure with symbolic fields; the '
             'parsed dictionaries are compared as value terms with the specified ones')
NOTE = ('The parser is evaluated abstractly on every sequence of up to three blocks (dark or bright, two or three images) '
        'under every way their exposures and photon counts can coincide (a complete case split over the unknown field '
        'values), on all placements of version, format, comment, blank and unknown lines, on other image counts, path '
        'depths, separators and spellings.  Field values and file names are unknown words.')
LEVEL_NOTE = 'bounded in the number of blocks (three, four in the thorough tier); field values unbounded'
MIN = 200
SHAPES = [('b', 2), ('b', 3), ('d', 2), ('d', 3)]


def partitions(n):
    """canonical class numbers of n items"""
    def go(k, used):
        if k == n:
            yield ()
            return
        for c in range(used + 1):
            for r in go(k + 1, max(used, c + 1)):
                yield (c,) + r
    yield from go(0, 0)


def names(k, n, depth=2):
    return [[wd('dir%d' % d) for d in range(depth - 1)] + [wd('img%d_%d' % (k, j))] for j in range(n)]


def ewords(i):
    w = wd('exposure%d' % i)
    text.DISTINCT.add(w)
    return w


def pwords(i):
    w = wd('photons%d' % i)
    text.DISTINCT.add(w)
    return w


def sequences(n, full):
    """(blocks, repeats): all shapes and coincidences of n blocks"""
    for shp in itertools.product(SHAPES, repeat=n):
        br = [k for k in range(n) if shp[k][0] == 'b']
        for pe in partitions(n):
            for pp in partitions(len(br)):
                # optionally one class of bright blocks has zero photons
                zeros = [None] + sorted(set(pp)) if full or n < 3 else [None]
                for z in zeros:
                    bl = []
                    for k, (kd, im) in enumerate(shp):
                        p = pp[br.index(k)] if kd == 'b' else None
                        ph = '0.0' if p is not None and p == z else pwords(p) if p is not None else None
                        bl.append(Block(kd, ewords(pe[k]), ph, names(k, im)))
                    keys = [(im == 2, pe[k], 'zero' if kd == 'd' or pp[br.index(k)] == z else pp[br.index(k)])
                            for k, (kd, im) in enumerate(shp)]
                    tag = ' '.join('%s%d(e%d%s)' % (kd, im, pe[k], '' if kd == 'd' else ',0' if pp[br.index(k)] == z else
                                                    ',p%d' % pp[br.index(k)]) for k, (kd, im) in enumerate(shp))
                    yield tag, bl, len(set(keys)) < n


def two():
    return [Block('b', ewords(0), pwords(0), names(0, 2)), Block('d', ewords(0), None, names(1, 3))]


BASE = mk('dirname', FILE)
COMMENTS = ['', '   ', '\t', '#', '# d 5', '   # i a\\b', '#i x', '#b 1 2']
UNKNOWN = ['x foo', '; comment', 'bright 1 2', 'e 10 20', 'image a\\b']


def run(ck):
    w = member_where(ck.world, PARSER, '_fill_info')

    def one(name, lines, blocks, path=NONE, given=False, fmt_=None, version=NONE, end='\n'):
        r, o = parse(ck, lines, path, given, end=end)
        want = expected(ck, r, blocks, BASE if path is NONE else path)
        ck.equal('content of %s' % name, part(o, 0), want.value, w,
                 'every block once, under its kind, exposure and photon count, with its images in order')
        ck.equal('format of %s' % name, part(o, 1), mk_format(fmt_), w, 'bits, width and height as written')
        ck.equal('version of %s' % name, part(o, 2), version, w, 'version as written')

    def mk_format(f):
        d = DLIT0
        if f:
            for k, x in zip(('bits', 'width', 'height'), f):
                d = dput(d, const(k), mk('int', x) if x.op != 'str' else num(int(x.args[0])))
        return d

    def go(name, lines, blocks, **kw):
        ck.guard(name, lambda: one(name, lines, blocks, **kw), w)

    def flat(bl, sep=' '):
        return [x for b in bl for x in b.lines(sep)]
    full = ck.tier == 'thorough'
    for n in (1, 2, 3) + ((4,) if full else ()):
        for tag, bl, rep in sequences(n, full and n < 4):
            if not rep:
                go(tag, flat(bl), bl)
    # version, format, comments, blanks and unknown lines at every position
    V_, F_ = line('v', wd('version')), line('n', wd('bits'), wd('width'), wd('height'))
    fm = (wd('bits'), wd('width'), wd('height'))
    bl = two()
    base = flat(bl)
    for k in [0, 3, len(base)]:
        for j in [0, 3, len(base)]:
            ls = list(base)
            for at, x in sorted([(k, V_), (j, F_)], key=lambda t: -t[0]):
                ls.insert(at, x)
            go('version at %d, format at %d' % (k, j), ls, bl, fmt_=fm, version=wd('version'))
    go('literal format', [const('n 12 640 480')] + base, bl, fmt_=(const('12'), const('640'), const('480')))
    for c in COMMENTS:
        for k in range(len(base) + 1):
            go('%r at line %d' % (c, k), base[:k] + [const(c)] + base[k:], bl)
    for c in UNKNOWN:
        for k in (0, 3, len(base)):
            go('unknown %r at line %d' % (c, k), base[:k] + [const(c)] + base[k:], bl)
    go('comments everywhere', [y for x in base for y in (const('# c'), x, const(''))], bl)
    # the last line may lack its line end
    for c in ([], [const('# c')], [const('')], [const('  ')], [V_]):
        go('no line end after %s' % (c or 'the last image'), base + c, bl, end='', version=wd('version') if c == [V_] else NONE)
    # separators
    for sep in ('\t', '   ', ' \t '):
        go('separator %r' % sep, flat(bl, sep), bl)
    for lead, trail in (('  ', ''), ('', ' '), ('\t', '\t')):
        go('lines between %r and %r' % (lead, trail), [scat(const(lead), x, const(trail)) for x in base], bl)
    # image counts and path depths
    for n in (2, 3, 4, 5, 7, 12, 30):
        for kd in 'bd':
            b = [Block(kd, ewords(0), pwords(0), names(0, n)), Block('d', ewords(1), None, names(1, 2))]
            go('%s block with %d images' % (kd, n), flat(b), b)
    for d in (1, 2, 3, 4):
        b = [Block('b', ewords(0), pwords(0), names(0, 2, d)), Block('d', ewords(0), None, names(1, 3, d))]
        go('paths of %d parts' % d, flat(b), b)
    b = [Block('b', ewords(0), pwords(0), [['img#1.png'], ['images', 'b, c.png'.replace(' ', '')]])]
    go('file names with punctuation', flat(b), b)
    # numbers
    for e, p in (('10.5', '100.25'), ('10,5', '100,25'), ('1000', '7'), ('1e6', '1,5e3'), ('10,5', '0,0'), ('0', '0')):
        b = [Block('b', e, p, names(0, 2)), Block('d', '3,25', None, names(1, 2)), Block('d', e, None, names(2, 3))]
        go('exposure %s photons %s' % (e, p), flat(b), b)
    # where the images are
    for nm, p in (('unknown', strsym('path')), ('empty', const('')), ('literal', const('/data/set'))):
        go('%s base path given' % nm, base, bl, path=p, given=True)
    go('no base path', base, bl, given=True)
    r, o = parse(ck, base)
    ck.ctl_equal('images in reverse order', part(o, 0), expected(ck, r, [Block(b.kind, b.exposure, b.photons, b.images[::-1])
                                                                           for b in bl], BASE).value)
    ck.ctl_equal('below another directory', part(o, 0), expected(ck, r, bl, FILE).value)
